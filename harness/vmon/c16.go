package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"math/big"

	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/curve/curve25519"

	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:   "C16",
		Rule: "Messages of many lengths, split into parts in many ways, are signed with ordinary and extreme private keys through every signing entry point; each signature is verified by the library under other splits and by an independent Ed25519/XEdDSA verifier, and independent signatures by the library. Every bit of signature, key and (short) message is then flipped, lengths changed, the group order added, signs and keys exchanged. Nonces are compared across messages, keys and random bytes under repeating random sources. Distinct by (key kind, message length class, split, alteration).",
		Run:  runC16,
	})
}

// source is a random source that counts what was read; it is infinite and derived from seed bytes, with one byte changed.
type source struct {
	r    io.Reader
	n    int
	flip int // position of a byte to change, or -1
	x    byte
}

func (s *source) Read(p []byte) (int, error) {
	n, err := s.r.Read(p)
	if s.flip >= s.n && s.flip < s.n+n {
		p[s.flip-s.n] ^= s.x
	}
	s.n += n
	return n, err
}

func newSource(flip int, x byte, seed ...any) *source { return &source{newReader(seed...), 0, flip, x} }

func priv16(t *T) ([]byte, int) {
	switch k := t.Rng.IntN(8); k {
	case 0:
		return make([]byte, 32), k
	case 1:
		return bytes.Repeat([]byte{0xff}, 32), k
	case 2:
		b := make([]byte, 32)
		b[t.Rng.IntN(32)] = 1 << t.Rng.IntN(8)
		return b, k
	case 3: // multiples and neighbours of the group order
		n := new(big.Int).Mul(ref.L, big.NewInt(int64(1+t.Rng.IntN(7))))
		n.Add(n, big.NewInt(int64(t.Rng.IntN(17)-8)))
		return ref.LeBytes(n, 32), k
	}
	return randBytes(t, 32), 9
}

func split(t *T, m []byte) [][]byte {
	switch t.Rng.IntN(6) {
	case 0:
		if len(m) == 0 {
			return nil
		}
		return [][]byte{m}
	case 1:
		return [][]byte{nil, m, {}}
	case 2:
		var out [][]byte
		for i := range m {
			if i >= 40 {
				return append(out, m[i:])
			}
			out = append(out, m[i:i+1])
		}
		return out
	}
	var out [][]byte
	for len(m) > 0 {
		n := t.Rng.IntN(len(m) + 1)
		out, m = append(out, m[:n]), m[n:]
	}
	return out
}

func message16(t *T) []byte {
	switch t.Rng.IntN(12) {
	case 0:
		return nil
	case 1:
		return randBytes(t, 1)
	case 2:
		return randBytes(t, 5000+t.Rng.IntN(60000))
	case 3:
		return bytes.Repeat([]byte{byte(0xfe + t.Rng.IntN(2))}, 32+t.Rng.IntN(64))
	case 4:
		return randBytes(t, []int{63, 64, 65, 111, 112, 127, 128, 129}[t.Rng.IntN(8)])
	}
	return randBytes(t, t.Rng.IntN(300))
}

// signer signs through one of the entry points.
func sign16(t *T, raw []byte, random io.Reader, parts [][]byte) ([]byte, error) {
	switch t.Rng.IntN(3) {
	case 0:
		return must(curve25519.NewPrivateKey(raw)).Sign(random, parts...)
	case 1:
		k := must(curve.NewPrivateKey(raw))
		return must(curve.NewKeyPair(raw, k.PublicKey().Bytes())).Sign(random, parts...)
	}
	return must(curve.NewPrivateKey(raw)).Sign(random, parts...)
}

// verify16 asks both verification functions; they have to agree.
func verify16(t *T, pub, sig []byte, parts [][]byte) bool {
	t.Eval()
	a, err1 := curve25519.VerifySignature(pub, sig, parts...)
	k := must(curve.NewPublicKey(append([]byte{5}, pub...)))
	b, err2 := k.VerifySignature(sig, parts...)
	if (a && err1 != nil) || (b && err2 != nil) {
		t.Violate("verification returns true together with an error (%v, %v)", err1, err2)
	}
	if a != b {
		t.Violate("curve25519.VerifySignature says %v (%v) where PublicKey.VerifySignature says %v (%v): key %x signature %x message %s", a, err1, b, err2, pub, sig, hexs(bytes.Join(parts, nil)))
	}
	return a
}

func runC16(c *C) {
	c.Cases("agree", c.N(1000, 20000), agree16)
	c.Cases("foreign", c.N(300, 10000), foreign16)
	c.Cases("bits", c.N(60, 2000), bits16)
	c.Cases("alter", c.N(800, 20000), alter16)
	c.Cases("nonce", c.N(120, 4000), nonce16)
	c.Cases("large", c.N(10, 80), large16)
	c.Require("accepted by both", 300)
	c.Require("altered refused", 20000)
	c.Require("nonces compared", 5000)
}

func agree16(t *T, i int) {
	raw, kind := priv16(t)
	msg := message16(t)
	parts := split(t, msg)
	sig, err := sign16(t, raw, t.R, parts)
	t.Logf("key %x message %s in %d parts: %x, %v", raw, hexs(msg), len(parts), sig, err)
	if err != nil || len(sig) != 64 {
		t.Violate("signing failed: %d bytes, %v", len(sig), err)
	}
	pub := ref.X25519Public(raw)
	if !ref.XVerify(pub, msg, sig) {
		t.Violate("a signature by key %x over %s (%d parts) is not a valid XEdDSA signature under %x: %x", raw, hexs(msg), len(parts), pub, sig)
	}
	for j := 0; j < 3; j++ {
		p := split(t, msg)
		if !verify16(t, pub, sig, p) {
			t.Violate("a signature made over %d parts does not verify over %d parts of the same message %s (key %x, signature %x)", len(parts), len(p), hexs(msg), raw, sig)
		}
	}
	if !verify16(t, must(curve.NewPrivateKey(raw)).PublicKey().KeyBytes(), sig, [][]byte{msg}) {
		t.Violate("a signature does not verify under its own key")
	}
	t.Count("accepted by both", 1)
	t.Seen("agree", kind, bucket(len(msg)), len(parts))
	if t.wantSample() {
		t.Sample(map[string]any{"key": hexs(raw), "message": hexs(msg), "parts": len(parts), "signature": hexs(sig)})
	}
}

func foreign16(t *T, i int) {
	raw, kind := priv16(t)
	msg := message16(t)
	sig := ref.XSign(raw, msg, randBytes(t, 64))
	pub := ref.X25519Public(raw)
	if !verify16(t, pub, sig, split(t, msg)) {
		t.Violate("an independent XEdDSA signature by key %x over %s is refused: %x", raw, hexs(msg), sig)
	}
	t.Count("foreign accepted", 1)
	t.Seen("foreign", kind, bucket(len(msg)))
}

func (t *T) refuse16(what string, pub, sig []byte, parts [][]byte) {
	if verify16(t, pub, sig, parts) {
		t.Violate("%s: the signature still verifies (key %x, signature %x, message %s)", what, pub, sig, hexs(bytes.Join(parts, nil)))
	}
	t.Count("altered refused", 1)
}

// bits16 flips every bit of signature, key and message.
func bits16(t *T, i int) {
	raw, _ := priv16(t)
	msg := randBytes(t, 1+t.Rng.IntN(90))
	parts := split(t, msg)
	sig, err := sign16(t, raw, t.R, parts)
	ok(t, err)
	pub := ref.X25519Public(raw)
	if !verify16(t, pub, sig, parts) {
		t.Skip("signature does not verify")
	}
	for j := 0; j < 512; j++ {
		t.refuse16("signature bit changed", pub, flip(sig, j/8, 1<<(j%8)), parts)
	}
	for j := 0; j < 255; j++ { // the top bit is not part of the key's value
		t.refuse16("key bit changed", flip(pub, j/8, 1<<(j%8)), sig, parts)
	}
	for j := 0; j < 8*len(msg); j++ {
		t.refuse16("message bit changed", pub, sig, [][]byte{flip(msg, j/8, 1<<(j%8))})
	}
	t.Seen("bits", len(msg), len(parts))
}

func alter16(t *T, i int) {
	raw, kind := priv16(t)
	msg := message16(t)
	parts := split(t, msg)
	sig, err := sign16(t, raw, t.R, parts)
	ok(t, err)
	pub := ref.X25519Public(raw)
	if !verify16(t, pub, sig, parts) {
		t.Skip("signature does not verify")
	}
	for n := 0; n <= 130; n++ { // other lengths
		if n == 64 {
			continue
		}
		b := make([]byte, n)
		copy(b, sig)
		if n > 64 && t.Rng.IntN(2) == 0 {
			copy(b[64:], sig)
		}
		t.refuse16("signature length changed", pub, b, parts)
	}
	t.refuse16("no signature", pub, nil, parts)
	t.refuse16("zero signature", pub, make([]byte, 64), parts)
	// The same scalar in another encoding.
	sign := sig[63] & 0x80
	s := new(big.Int).SetBytes(reverse(append(clone(sig[32:63]), sig[63]&0x7f)))
	for k := int64(1); k <= 7; k++ {
		x := new(big.Int).Add(s, new(big.Int).Mul(ref.L, big.NewInt(k)))
		if x.BitLen() > 255 {
			break
		}
		b := append(clone(sig[:32]), ref.LeBytes(x, 32)...)
		b[63] |= sign
		t.refuse16("group order added", pub, b, parts)
	}
	neg := new(big.Int).Sub(ref.L, s)
	nb := append(clone(sig[:32]), ref.LeBytes(neg.Mod(neg, ref.L), 32)...)
	for _, x := range []byte{0, 0x80} {
		for _, y := range []byte{0, 0x80} {
			b := flip(nb, 31, y)
			b[63] = b[63]&0x7f | x
			if !bytes.Equal(b, sig) {
				t.refuse16("scalar negated", pub, b, parts)
			}
		}
	}
	t.refuse16("halves exchanged", pub, append(clone(sig[32:]), sig[:32]...), parts)
	t.refuse16("reversed", pub, reverse(sig), parts)
	// Other messages.
	t.refuse16("message extended", pub, sig, append(append([][]byte{}, parts...), []byte{0}))
	t.refuse16("message extended by many", pub, sig, append(append([][]byte{}, parts...), randBytes(t, 100)))
	t.refuse16("message preceded", pub, sig, append([][]byte{{0}}, parts...))
	if len(msg) > 0 {
		t.refuse16("message shortened", pub, sig, [][]byte{msg[:len(msg)-1]})
		t.refuse16("message shortened", pub, sig, [][]byte{msg[1:]})
		t.refuse16("message empty", pub, sig, nil)
		for k := 0; k < 20; k++ {
			t.refuse16("message byte changed", pub, sig, split(t, flip(msg, t.Rng.IntN(len(msg)), 1<<t.Rng.IntN(8))))
		}
		t.refuse16("message doubled", pub, sig, [][]byte{msg, msg})
		if len(parts) > 1 {
			for k := range parts { // a part left out, or two exchanged
				if len(parts[k]) == 0 || k > 20 {
					continue
				}
				p := append(append([][]byte{}, parts[:k]...), parts[k+1:]...)
				t.refuse16("part left out", pub, sig, p)
				if k > 0 && !bytes.Equal(append(clone(parts[k]), parts[k-1]...), append(clone(parts[k-1]), parts[k]...)) {
					q := append([][]byte{}, parts...)
					q[k], q[k-1] = q[k-1], q[k]
					t.refuse16("parts exchanged", pub, sig, q)
				}
			}
		}
	}
	// Other keys.
	t.refuse16("another key", ref.X25519Public(randBytes(t, 32)), sig, parts)
	for _, p := range oddPoints {
		x := clone(p)
		x[31] &= 0x7f
		y := clone(pub)
		y[31] &= 0x7f
		if new(big.Int).Mod(new(big.Int).SetBytes(reverse(x)), ref.P).Cmp(new(big.Int).SetBytes(reverse(y))) != 0 {
			t.refuse16("an unusual key", p, sig, parts)
		}
	}
	// Another signature by the same key, mixed with this one.
	other, err := sign16(t, raw, t.R, [][]byte{randBytes(t, 20)})
	ok(t, err)
	t.refuse16("another message's signature", pub, other, parts)
	t.refuse16("another signature's commitment", pub, append(clone(other[:32]), sig[32:]...), parts)
	t.refuse16("another signature's scalar", pub, append(clone(sig[:32]), other[32:]...), parts)
	t.Seen("alter", kind, bucket(len(msg)), len(parts))
}

// large16: messages up to many megabytes are signed to the last byte.
func large16(t *T, i int) {
	raw, kind := priv16(t)
	n := []int{1<<16 + 1, 1<<18 + 5, 1 << 20, 1<<20 + 1, 1<<20 + 77, 2<<20 + 3, 3 << 20, 5<<20 + 11, 9<<20 - 1, 17 << 20}[i%10]
	msg := randBytes(t, n)
	parts := split(t, msg)
	pub := ref.X25519Public(raw)
	seed := t.Rng.Uint64()
	sig, err := sign16(t, raw, newSource(-1, 0, seed), parts)
	ok(t, err)
	if !ref.XVerify(pub, msg, sig) || !verify16(t, pub, sig, split(t, msg)) {
		t.Violate("a signature over %d bytes does not verify", n)
	}
	if !verify16(t, pub, ref.XSign(raw, msg, randBytes(t, 64)), parts) {
		t.Violate("an independent XEdDSA signature over %d bytes is refused", n)
	}
	for _, at := range []int{n - 1, n - 1 - t.Rng.IntN(64), n/2 + t.Rng.IntN(n/2), t.Rng.IntN(n)} {
		m := flip(msg, at, 1<<t.Rng.IntN(8))
		if verify16(t, pub, sig, [][]byte{m}) {
			t.Violate("a signature over %d bytes verifies with byte %d changed", n, at)
		}
		t.Count("altered refused", 1)
		other, err := sign16(t, raw, newSource(-1, 0, seed), [][]byte{m})
		ok(t, err)
		if bytes.Equal(other[:32], sig[:32]) {
			t.Violate("the signature nonce repeats: two messages of %d bytes which differ in byte %d have the same commitment", n, at)
		}
		t.Count("nonces compared", 1)
	}
	if verify16(t, pub, sig, [][]byte{msg[:n-1]}) || verify16(t, pub, sig, [][]byte{msg, {0}}) {
		t.Violate("a signature over %d bytes verifies for a message of another length", n)
	}
	t.Seen("large", n, kind)
	t.Count("messages of many megabytes", 1)
}

// nonce16 signs under repeating random sources and compares commitments.
func nonce16(t *T, i int) {
	raw, _ := priv16(t)
	seen := map[string]string{}
	note := func(what string, r []byte, id string) {
		t.Eval()
		if old, dup := seen[string(r)]; dup && old != id {
			t.Violate("the signature nonce repeats: %s\n has the commitment of\n %s", id, old)
		}
		seen[string(r)] = id
		t.Count("nonces compared", 1)
	}
	sign := func(key []byte, msg []byte, src *source) []byte {
		sig, err := sign16(t, key, src, split(t, msg))
		ok(t, err)
		return sig[:32]
	}
	seed := t.Rng.Uint64()
	zero := func() *source { return &source{r: zeros{}, flip: -1} }
	// Different messages, same random bytes.
	base := randBytes(t, 1+t.Rng.IntN(150))
	msgs := [][]byte{nil, {0}, {0, 0}, base, append(clone(base), 0), append(clone(base), base...), base[1:], reverse(append(clone(base), 1, 2))}
	for k := range base {
		msgs = append(msgs, flip(base, k, 1<<t.Rng.IntN(8)))
	}
	for k := 0; k < 6; k++ {
		msgs = append(msgs, append(append(randBytes(t, 33), base...), byte(k)))
	}
	for _, m := range msgs {
		note("message", sign(raw, m, newSource(-1, 0, seed)), fmt.Sprintf("message %x under random source 1", m))
		note("message", sign(raw, m, zero()), fmt.Sprintf("message %x under zeros", m))
	}
	// Long messages which differ in one place only.
	long := randBytes(t, []int{64, 128, 129, 256, 1000, 1024, 1025, 2048, 4097, 20_000}[i%10])
	id := func(b []byte) string { return fmt.Sprintf("message of %d bytes %x", len(b), sha256.Sum256(b)) }
	note("message", sign(raw, long, zero()), id(long)+" under zeros")
	note("message", sign(raw, long[:len(long)-1], zero()), id(long[:len(long)-1])+" under zeros")
	at := map[int]bool{len(long) - 1: true, len(long) - 2: true, t.Rng.IntN(len(long)): true, t.Rng.IntN(len(long)): true, len(long) - 33: true}
	for p := 1; p < len(long); p *= 2 {
		at[p], at[p-1] = true, true
	}
	for p := range at {
		m := flip(long, p, 1<<t.Rng.IntN(8))
		note("message", sign(raw, m, zero()), id(m)+" under zeros")
	}
	// Different keys, same message and random bytes.
	for k := 0; k < 10; k++ {
		key := flip(raw, 1+t.Rng.IntN(30), 1<<t.Rng.IntN(8))
		note("key", sign(key, base, zero()), "key "+hexs(ref.Clamp(key))+" over the message under zeros")
	}
	// Same message, one random byte changed.
	s := newSource(-1, 0, seed)
	sign(raw, base, s)
	if s.n < 32 {
		t.Violate("a signature draws only %d random bytes", s.n)
	}
	for k := 0; k < s.n; k++ {
		id := fmt.Sprintf("message %x with random byte %d changed", base, k)
		note("random", sign(raw, base, newSource(k, 1<<t.Rng.IntN(8), seed)), id)
	}
	t.Seen("nonce", i)
}

type zeros struct{}

func (zeros) Read(p []byte) (int, error) {
	clear(p)
	return len(p), nil
}
