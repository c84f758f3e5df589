package ref

import (
	"bytes"
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/rand"
	"encoding/hex"
	"testing"
)

func TestX(t *testing.T) {
	k, _ := hex.DecodeString("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4")
	u, _ := hex.DecodeString("e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c")
	if hex.EncodeToString(X25519(k, u)) != "c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552" {
		t.Fatal("rfc7748")
	}
	for i := 0; i < 50; i++ {
		p, _ := ecdh.X25519().GenerateKey(rand.Reader)
		if !bytes.Equal(X25519Public(p.Bytes()), p.PublicKey().Bytes()) {
			t.Fatal("pub")
		}
		z := make([]byte, 64)
		rand.Read(z)
		msg := z[:i]
		sig := XSign(p.Bytes(), msg, z)
		if !XVerify(p.PublicKey().Bytes(), msg, sig) {
			t.Fatal("verify")
		}
		A, _ := MontToEd(p.PublicKey().Bytes(), sig[63]>>7)
		if !bytes.Equal(A, EdPublic(p.Bytes())) {
			t.Fatal("conv")
		}
		s2 := append([]byte(nil), sig...)
		s2[63] &= 127
		if !ed25519.Verify(A, msg, s2) {
			t.Fatal("ed25519")
		}
		sig[5] ^= 1
		if XVerify(p.PublicKey().Bytes(), msg, sig) {
			t.Fatal("verify bad")
		}
	}
}

func TestRatchet(t *testing.T) {
	a, b, spk, otk := GenKP(rand.Reader), GenKP(rand.Reader), GenKP(rand.Reader), GenKP(rand.Reader)
	id := uint32(7)
	bun := &Bundle{PreKeyID: &id, PreKey: otk.Pub, SignedID: 3, SignedKey: spk.Pub, Sig: XSign(b.Priv, spk.Pub, make([]byte, 64)), Identity: b.Pub}
	as, err := NewAlice(rand.Reader, a, 5, bun)
	if err != nil {
		t.Fatal(err)
	}
	typ, w := as.Encrypt([]byte("hi"))
	pm, err := ParsePreKey(w)
	if err != nil || typ != 3 {
		t.Fatal(err)
	}
	bs := NewBob(rand.Reader, b, 6, spk, &otk, pm.IdentityKey, pm.BaseKey)
	pt, err := bs.Decrypt(pm.Message)
	if err != nil || string(pt) != "hi" {
		t.Fatal(err)
	}
	for i := 0; i < 5; i++ {
		_, w := bs.Encrypt([]byte("yo"))
		if pt, err := as.Decrypt(w); err != nil || string(pt) != "yo" {
			t.Fatal(err)
		}
		_, w = as.Encrypt([]byte("x"))
		if pt, err := bs.Decrypt(w); err != nil || string(pt) != "x" {
			t.Fatal(err)
		}
	}
}
