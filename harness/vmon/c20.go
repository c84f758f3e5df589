package main

import (
	"bytes"

	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/identity"

	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:   "C20",
		Rule: "Sets of identities (also equal ones, and ones that differ in a single bit) sign each other as alternates; each signature is verified by every identity for every other, by an independent verifier over the published format, and independent signatures by the library; signature and identities are altered bit by bit. Ordinary signatures over the other key, over parts of the signed format and with shifted boundaries are tried as alternate-identity signatures and the other way round. Distinct by (relation of the keys, alteration).",
		Run:  runC20,
	})
}

// pniMessage is the published signed format.
func pniMessage(other []byte) []byte {
	b := bytes.Repeat([]byte{0xff}, 32)
	b = append(b, "Signal_PNI_Signature"...)
	return append(b, other...)
}

func runC20(c *C) {
	c.Cases("matrix", c.N(200, 4000), matrix20)
	c.Cases("bits", c.N(60, 1500), bits20)
	c.Cases("ordinary", c.N(1000, 10000), ordinary20)
	c.Require("own signatures accepted", 1000)
	c.Require("others refused", 20000)
	c.Require("ordinary signatures refused", 2000)
}

func pair20(t *T) identity.KeyPair {
	raw, _ := priv16(t)
	k := must(curve.NewPrivateKey(raw))
	return identity.NewKeyPair(k, must(identity.NewKey(k.PublicKey().Bytes())))
}

func alt20(t *T, by identity.KeyPair, other identity.Key) []byte {
	sig, err := by.SignAlternateIdentity(t.R, other)
	if err != nil || len(sig) != 64 {
		t.Violate("signing an alternate identity fails: %x, %v", sig, err)
	}
	return sig
}

func ver20(t *T, k identity.Key, sig []byte, other identity.Key) bool {
	t.Eval()
	v, err := k.VerifyAlternateIdentity(sig, other)
	if v && err != nil {
		t.Violate("a signature verifies together with the error %v", err)
	}
	return v
}

func matrix20(t *T, i int) {
	kps := []identity.KeyPair{must(identity.GenerateKeyPair(t.R)), pair20(t), pair20(t), must(identity.GenerateKeyPair(t.R))}
	var others []identity.Key
	for _, k := range kps {
		others = append(others, k.IdentityKey(), must(identity.NewKey(flip(k.IdentityKey().Bytes(), 1+t.Rng.IntN(32), 1<<t.Rng.IntN(8)))))
	}
	others = append(others, must(identity.NewKey(append([]byte{5}, oddPoints[t.Rng.IntN(len(oddPoints))]...))))
	same := func(a, b identity.Key) bool { return bytes.Equal(a.Bytes(), b.Bytes()) }
	for _, by := range kps {
		for _, o := range others {
			sig := alt20(t, by, o)
			t.Logf("%x signs %x: %x", by.IdentityKey().Bytes(), o.Bytes(), sig)
			if !ref.XVerify(by.IdentityKey().Bytes()[1:], pniMessage(o.Bytes()), sig) {
				t.Violate("the signature of %x for %x does not sign the published format: %x", by.IdentityKey().Bytes(), o.Bytes(), sig)
			}
			for _, k := range kps {
				for _, p := range others {
					v := ver20(t, k.IdentityKey(), sig, p)
					if want := same(k.IdentityKey(), by.IdentityKey()) && same(p, o); v != want {
						t.Violate("the signature of %x for %x verifies as one of %x for %x: %v", by.IdentityKey().Bytes(), o.Bytes(), k.IdentityKey().Bytes(), p.Bytes(), v)
					}
					if v {
						t.Count("own signatures accepted", 1)
					} else {
						t.Count("others refused", 1)
					}
				}
			}
			// The signed identity is not the signer.
			if !same(o, by.IdentityKey()) && ver20(t, o, sig, by.IdentityKey()) {
				t.Violate("the signature of %x for %x verifies with both exchanged", by.IdentityKey().Bytes(), o.Bytes())
			}
		}
	}
	by, o := kps[t.Rng.IntN(len(kps))], others[t.Rng.IntN(len(others))]
	foreign := ref.XSign(by.PrivateKey().Bytes(), pniMessage(o.Bytes()), randBytes(t, 64))
	if !ver20(t, by.IdentityKey(), foreign, o) {
		t.Violate("an independent signature of %x for %x is refused", by.IdentityKey().Bytes(), o.Bytes())
	}
	t.Count("foreign accepted", 1)
	t.Seen("matrix", i)
	if t.wantSample() {
		t.Sample(map[string]any{"signer": hexs(by.IdentityKey().Bytes()), "other": hexs(o.Bytes()), "signature": hexs(foreign)})
	}
}

func bits20(t *T, i int) {
	by, o := pair20(t), pair20(t).IdentityKey()
	sig := alt20(t, by, o)
	refuse := func(what string, k identity.Key, sig []byte, o identity.Key) {
		if ver20(t, k, sig, o) {
			t.Violate("%s: the alternate-identity signature still verifies (%x by %x for %x)", what, sig, k.Bytes(), o.Bytes())
		}
		t.Count("others refused", 1)
		t.Seen(what, len(sig))
	}
	for j := 0; j < 512; j++ {
		refuse("signature bit changed", by.IdentityKey(), flip(sig, j/8, 1<<(j%8)), o)
	}
	for j := 0; j < 256; j++ {
		refuse("other identity's bit changed", by.IdentityKey(), sig, must(identity.NewKey(flip(o.Bytes(), 1+j/8, 1<<(j%8)))))
		if j < 255 {
			refuse("signer's bit changed", must(identity.NewKey(flip(by.IdentityKey().Bytes(), 1+j/8, 1<<(j%8)))), sig, o)
		}
	}
	for n := 0; n <= 130; n++ {
		if n != 64 {
			b := make([]byte, n)
			copy(b, sig)
			refuse("length changed", by.IdentityKey(), b, o)
		}
	}
}

func ordinary20(t *T, i int) {
	by, o := pair20(t), pair20(t).IdentityKey()
	full := pniMessage(o.Bytes())
	alt := alt20(t, by, o)
	msgs := [][][]byte{
		{o.Bytes()}, {o.PublicKey().KeyBytes()}, {full[32:]}, {full[:52]}, {full[1:]}, {full[:len(full)-1]}, {full[:32], o.Bytes()}, {full[32:52], o.Bytes()},
		{o.Bytes(), full[:52]}, {full[32:52], full[:32], o.Bytes()}, {by.IdentityKey().Bytes(), o.Bytes()}, {full, o.Bytes()}, {full, {0}}, {{0}, full}, {full[:52], o.PublicKey().KeyBytes()},
		{full[:52], by.IdentityKey().Bytes()}, {full[:52], by.IdentityKey().Bytes(), o.Bytes()}, {}, {[]byte("Signal_PNI_Signature")},
	}
	for j, m := range msgs {
		if bytes.Equal(bytes.Join(m, nil), full) {
			continue // signer and other are the same here
		}
		sig := must(by.PrivateKey().Sign(t.R, m...))
		if ver20(t, by.IdentityKey(), sig, o) {
			t.Violate("an ordinary signature over %x is accepted as alternate-identity signature for %x", bytes.Join(m, nil), o.Bytes())
		}
		v, err := by.PublicKey().VerifySignature(alt, m...)
		t.Eval()
		if v {
			t.Violate("an alternate-identity signature for %x is accepted as ordinary signature over %x (%v)", o.Bytes(), bytes.Join(m, nil), err)
		}
		t.Count("ordinary signatures refused", 1)
		t.Seen("ordinary", j)
	}
	// A signed pre-key signature by the same identity.
	spk := must(curve.GenerateKeyPair(t.R))
	sig := must(by.PrivateKey().Sign(t.R, spk.PublicKey().Bytes()))
	if ver20(t, by.IdentityKey(), sig, must(identity.NewKey(spk.PublicKey().Bytes()))) {
		t.Violate("a pre-key signature is accepted as alternate-identity signature")
	}
	sig = alt20(t, by, must(identity.NewKey(spk.PublicKey().Bytes())))
	if v, _ := by.PublicKey().VerifySignature(sig, spk.PublicKey().Bytes()); v {
		t.Violate("an alternate-identity signature is accepted as pre-key signature")
	}
}
