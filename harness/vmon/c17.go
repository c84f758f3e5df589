package main

import (
	"bytes"
	"reflect"

	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/curve/curve25519"
	"github.com/RTann/libsignal-go/protocol/identity"

	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:   "C17",
		Rule: "Pairs of ordinary and extreme private keys agree with each other and with an independent X25519; every private key is then used with unusual public-key encodings (low order, non-canonical, top bit set, on the twist), whose secrets are compared with the independent ones and refused where these are zero. Keys are compared bit by bit for equality, through every constructor, and every wrong length and type is offered to every constructor. Distinct by (key kinds, point, outcome).",
		Run:  runC17,
	})
}

func runC17(c *C) {
	c.Cases("pair", c.N(2000, 60000), pair17)
	c.Cases("points", c.N(200, 10000), points17)
	c.Cases("equal", c.N(150, 4000), equal17)
	c.Cases("lengths", c.N(20, 200), lengths17)
	c.Require("agreements", 2000)
	c.Require("zero secrets refused", 1000)
	c.Require("wrong inputs refused", 5000)
}

// agree17 computes a shared secret through every entry point; all have to do the same.
func agree17(t *T, raw []byte, pub []byte) ([]byte, error) {
	t.Eval()
	pk := must(curve.NewPublicKey(append([]byte{5}, pub...)))
	priv := must(curve.NewPrivateKey(raw))
	a, err1 := priv.Agreement(pk)
	b, err2 := must(curve25519.NewPrivateKey(raw)).Agreement(pub)
	c, err3 := must(curve.NewKeyPair(raw, priv.PublicKey().Bytes())).Agreement(pk)
	if !bytes.Equal(a, b) || !bytes.Equal(a, c) || (err1 == nil) != (err2 == nil) || (err1 == nil) != (err3 == nil) {
		t.Violate("the agreement functions disagree for private key %x and public key %x: %x %v / %x %v / %x %v", raw, pub, a, err1, b, err2, c, err3)
	}
	if err1 != nil && a != nil {
		t.Violate("an agreement returns both a secret and the error %v", err1)
	}
	// The same private key in its serialized form.
	d, err4 := must(curve.NewPrivateKey(priv.Bytes())).Agreement(pk)
	if !bytes.Equal(a, d) || (err1 == nil) != (err4 == nil) {
		t.Violate("a private key agrees on something else after its round trip through Bytes: %x, %x (%v, %v)", a, d, err1, err4)
	}
	return a, err1
}

func pair17(t *T, i int) {
	a, ka := priv16(t)
	b, kb := priv16(t)
	pa, pb := ref.X25519Public(a), ref.X25519Public(b)
	for _, x := range []struct{ raw, pub []byte }{{a, pa}, {b, pb}} {
		t.Eval()
		k := must(curve.NewPrivateKey(x.raw))
		if !bytes.Equal(k.PublicKey().KeyBytes(), x.pub) || !bytes.Equal(k.PublicKey().Bytes(), append([]byte{5}, x.pub...)) {
			t.Violate("private key %x has the public key %x, expected %x", x.raw, k.PublicKey().Bytes(), x.pub)
		}
		if p := must(curve25519.NewPrivateKey(x.raw)).PublicKeyBytes(); !bytes.Equal(p, x.pub) {
			t.Violate("private key %x has the public key %x, expected %x", x.raw, p, x.pub)
		}
	}
	s1, err1 := agree17(t, a, pb)
	s2, err2 := agree17(t, b, pa)
	want := ref.X25519(a, pb)
	t.Logf("%x / %x: %x", a, b, want)
	if err1 != nil || err2 != nil || !bytes.Equal(s1, s2) || !bytes.Equal(s1, want) {
		t.Violate("private keys %x and %x agree on %x (%v) and %x (%v), X25519 gives %x", a, b, s1, err1, s2, err2, want)
	}
	t.Count("agreements", 1)
	t.Seen("pair", ka, kb, i)
	if t.wantSample() {
		t.Sample(map[string]any{"a": hexs(a), "b": hexs(b), "secret": hexs(want)})
	}
	// A generated pair.
	kp := must(curve.GenerateKeyPair(t.R))
	t.Eval()
	if w := ref.X25519Public(kp.PrivateKey().Bytes()); !bytes.Equal(kp.PublicKey().KeyBytes(), w) {
		t.Violate("a generated pair has private key %x and public key %x, expected %x", kp.PrivateKey().Bytes(), kp.PublicKey().Bytes(), w)
	}
	ik := must(identity.GenerateKeyPair(t.R))
	if w := ref.X25519Public(ik.PrivateKey().Bytes()); !bytes.Equal(ik.PublicKey().KeyBytes(), w) || !bytes.Equal(ik.IdentityKey().Bytes()[1:], w) {
		t.Violate("a generated identity pair has private key %x and public key %x, expected %x", ik.PrivateKey().Bytes(), ik.PublicKey().Bytes(), w)
	}
}

func points17(t *T, i int) {
	raw, kind := priv16(t)
	pts := append([][]byte{}, oddPoints...)
	for _, p := range oddPoints {
		pts = append(pts, flip(p, 31, 0x80))
	}
	for k := 0; k < 12; k++ { // any 32 bytes are a public key: half of them lie on the twist
		pts = append(pts, randBytes(t, 32))
	}
	for k := byte(0); k < 19; k++ { // the non-canonical encodings
		b := bytes.Repeat([]byte{0xff}, 32)
		b[0], b[31] = 0xed+k, 0x7f
		pts = append(pts, b, flip(b, 31, 0x80))
	}
	for _, p := range pts {
		want := ref.X25519(raw, p)
		zero := bytes.Equal(want, make([]byte, 32))
		got, err := agree17(t, raw, p)
		if zero {
			if err == nil {
				t.Violate("the public key %x forces a zero secret, but the agreement with private key %x succeeds: %x", p, raw, got)
			}
			t.Count("zero secrets refused", 1)
		} else {
			if err != nil || !bytes.Equal(got, want) {
				t.Violate("private key %x and public key %x agree on %x (%v), X25519 gives %x", raw, p, got, err, want)
			}
			t.Count("agreements", 1)
		}
		t.Seen("point", p, zero, kind)
	}
}

// forms gives the same public key through every constructor.
func forms17(t *T, pub []byte, raw []byte) []curve.PublicKey {
	full := append([]byte{5}, pub...)
	out := []curve.PublicKey{
		must(curve.NewPublicKey(full)),
		must(curve.NewPublicKey(append(clone(full), randBytes(t, 1+t.Rng.IntN(20))...))),
		must(identity.NewKey(full)).PublicKey(),
		must(curve.NewPublicKey(must(curve.NewPublicKey(full)).Bytes())),
	}
	if raw != nil {
		out = append(out, must(curve.NewPrivateKey(raw)).PublicKey(), must(curve.NewKeyPair(raw, full)).PublicKey())
	}
	return out
}

func equal17(t *T, i int) {
	raw, _ := priv16(t)
	pub := ref.X25519Public(raw)
	if t.Rng.IntN(4) == 0 {
		pub, raw = clone(oddPoints[t.Rng.IntN(len(oddPoints))]), nil
	}
	fs := forms17(t, pub, raw)
	for _, a := range fs {
		for _, b := range fs {
			t.Eval()
			if !a.Equal(b) || !must(identity.NewKey(a.Bytes())).Equal(must(identity.NewKey(b.Bytes()))) {
				t.Violate("two keys of value %x are not equal", a.Bytes())
			}
		}
	}
	for j := 0; j < 256; j++ {
		o := flip(pub, j/8, 1<<(j%8))
		k := must(curve.NewPublicKey(append([]byte{5}, o...)))
		a := fs[t.Rng.IntN(len(fs))]
		t.Eval()
		if a.Equal(k) || k.Equal(a) {
			t.Violate("the keys %x and %x are said to be equal", a.Bytes(), k.Bytes())
		}
		ia, ik := must(identity.NewKey(a.Bytes())), must(identity.NewKey(k.Bytes()))
		if ia.Equal(ik) || ik.Equal(ia) {
			t.Violate("the identity keys %x and %x are said to be equal", a.Bytes(), k.Bytes())
		}
		t.Count("different keys told apart", 1)
	}
	for j := 0; j < 8; j++ {
		k := must(curve.NewPublicKey(append([]byte{5}, randBytes(t, 32)...)))
		if fs[0].Equal(k) {
			t.Violate("the keys %x and %x are said to be equal", fs[0].Bytes(), k.Bytes())
		}
	}
	t.Seen("equal", pub)
}

func lengths17(t *T, i int) {
	good := append([]byte{5}, randBytes(t, 32)...)
	priv := randBytes(t, 32)
	refused := func(what string, in []byte, f func(b []byte) (any, error)) {
		t.Eval()
		v, err := f(in)
		if err == nil {
			t.Violate("%s accepts %d bytes %s", what, len(in), hexs(in))
		}
		if !nothing(v) {
			t.Violate("%s returns a value together with the error %v", what, err)
		}
		t.Count("wrong inputs refused", 1)
		t.Seen(what, len(in))
	}
	for n := 0; n <= 130; n++ {
		b := randBytes(t, n)
		if n > 0 {
			b[0] = 5
		}
		if n != 32 {
			refused("curve.NewPrivateKey", b, func(b []byte) (any, error) { return curve.NewPrivateKey(b) })
			refused("curve25519.NewPrivateKey", b, func(b []byte) (any, error) { return curve25519.NewPrivateKey(b) })
			refused("curve.NewKeyPair (private)", b, func(b []byte) (any, error) { return curve.NewKeyPair(b, good) })
			refused("curve25519 Agreement", b, func(b []byte) (any, error) { return must(curve25519.NewPrivateKey(priv)).Agreement(b) })
		}
		if n < 33 {
			refused("curve.NewPublicKey", b, func(b []byte) (any, error) { return curve.NewPublicKey(b) })
			refused("identity.NewKey", b, func(b []byte) (any, error) { k, err := identity.NewKey(b); return zeroNil(k), err })
			refused("curve.NewKeyPair (public)", b, func(b []byte) (any, error) { return curve.NewKeyPair(priv, b) })
		}
	}
	for ty := 0; ty < 256; ty++ {
		if ty == 5 {
			continue
		}
		for _, extra := range []int{0, 1, 31} {
			b := append(append([]byte{byte(ty)}, good[1:]...), make([]byte, extra)...)
			refused("curve.NewPublicKey type", b, func(b []byte) (any, error) { return curve.NewPublicKey(b) })
			refused("identity.NewKey type", b, func(b []byte) (any, error) { k, err := identity.NewKey(b); return zeroNil(k), err })
			refused("curve.NewKeyPair type", b, func(b []byte) (any, error) { return curve.NewKeyPair(priv, b) })
		}
	}
}

func zeroNil(k identity.Key) any {
	if reflect.ValueOf(k).IsZero() {
		return nil
	}
	return k
}

// nothing tells whether v is nil, in whatever type.
func nothing(v any) bool {
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Invalid:
		return true
	case reflect.Pointer, reflect.Slice, reflect.Map, reflect.Interface:
		return r.IsNil()
	}
	return false
}
