package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"

	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"

	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:     "C15",
		Rule:   "Messages of every type are built from generated contents (numbers over the 32-bit range and its edges, absent and zero ids, ciphertexts from nothing to hundreds of kilobytes, unusual key encodings); their bytes are compared with an independent encoder's, parsed back and compared getter by getter. Independently encoded messages (any field order, left-out and unknown fields, long varints) and mutated ones are parsed and compared with an independent parser, and re-serialized. Distinct by (type, ciphertext size class, number classes, presence).",
		Run:    runC15,
		Assume: []string{"distribution ids travel as the 36 characters of their text form, as this library defines them"},
	})
}

var edge32 = []uint32{0, 1, 2, 127, 128, 255, 256, 16383, 16384, 1<<21 - 1, 1 << 21, 1<<28 - 1, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1}

func num32(t *T) uint32 {
	if t.Rng.IntN(2) == 0 {
		return edge32[t.Rng.IntN(len(edge32))]
	}
	return t.Rng.Uint32() >> t.Rng.IntN(32)
}

func cls32(v uint32) int {
	n := 0
	for v >>= 7; v > 0; v >>= 7 {
		n++
	}
	return n
}

func cipher15(t *T) []byte {
	switch t.Rng.IntN(10) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return randBytes(t, 1)
	case 3:
		return randBytes(t, 100000+t.Rng.IntN(300000))
	case 4: // looks like a serialized message itself
		return ref.EncodeSignalBody(randBytes(t, 33), num32(t), num32(t), randBytes(t, 20))
	case 5:
		return randBytes(t, []int{126, 127, 128, 129, 16383, 16384}[t.Rng.IntN(6)])
	}
	return randBytes(t, 16*t.Rng.IntN(40))
}

// pub15 makes a public key, at times of unusual encoding.
func pub15(t *T) curve.PublicKey {
	b := randBytes(t, 32)
	if t.Rng.IntN(3) == 0 {
		b = clone(oddPoints[t.Rng.IntN(len(oddPoints))])
	}
	k, err := curve.NewPublicKey(append([]byte{5}, b...))
	if err != nil || !bytes.Equal(k.Bytes()[1:], b) || k.Bytes()[0] != 5 || !bytes.Equal(k.KeyBytes(), b) {
		t.Violate("the public key 05%x does not keep its value: %v", b, err)
	}
	return k
}

func ident15(t *T) identity.Key {
	b := pub15(t).Bytes()
	k, err := identity.NewKey(b)
	if err != nil || !bytes.Equal(k.Bytes(), b) || !bytes.Equal(k.PublicKey().Bytes(), b) {
		t.Violate("the identity key %x does not keep its value: %v", b, err)
	}
	return k
}

// eq15 compares what the library says with what it should say.
func eq15[X comparable](t *T, what string, got, want X) {
	t.Eval()
	if got != want {
		t.Violate("%s is %v, expected %v", what, got, want)
	}
}

func eqb15(t *T, what string, got, want []byte) {
	t.Eval()
	if !bytes.Equal(got, want) {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		t.Violate("%s differs from byte %d on: %s (%d bytes), expected %s (%d bytes)", what, i, hexs(got), len(got), hexs(want), len(want))
	}
}

// good15 fails the case if the library refused something it has to take.
func good15(t *T, what string, err error) {
	t.Eval()
	if err != nil {
		t.Violate("%s: %v", what, err)
	}
}

func optID(p *prekey.ID) string {
	if p == nil {
		return "absent"
	}
	return fmt.Sprint(uint32(*p))
}

func sig15(t *T, what string, s *message.Signal, w *ref.SignalMsg, wire []byte) {
	eq15(t, what+" type", s.Type(), message.WhisperType)
	eq15(t, what+" version", s.Version(), w.VersionByte>>4)
	eq15(t, what+" counter", s.Counter(), w.Counter)
	eqb15(t, what+" ratchet key", s.SenderRatchetKey().Bytes(), w.RatchetKey[:33])
	eqb15(t, what+" ciphertext", s.Message(), w.Ciphertext)
	eqb15(t, what+" bytes", s.Bytes(), wire)
}

func pre15(t *T, what string, s *message.PreKey, w *ref.PreKeyMsg, wire []byte) {
	eq15(t, what+" type", s.Type(), message.PreKeyType)
	eq15(t, what+" version", s.Version(), w.VersionByte>>4)
	eq15(t, what+" registration id", s.RegistrationID(), w.RegID)
	want := "absent"
	if w.PreKeyID != nil {
		want = fmt.Sprint(*w.PreKeyID)
	}
	eq15(t, what+" pre-key id", optID(s.PreKeyID()), want)
	eq15(t, what+" signed pre-key id", uint32(s.SignedPreKeyID()), w.SignedID)
	eqb15(t, what+" base key", s.BaseKey().Bytes(), w.BaseKey[:33])
	eqb15(t, what+" identity key", s.IdentityKey().Bytes(), w.IdentityKey[:33])
	iw, err := ref.ParseSignal(w.Message)
	if err != nil {
		t.Skip("inner message: %v", err)
	}
	sig15(t, what+" inner", s.Message(), iw, w.Message)
	eqb15(t, what+" bytes", s.Bytes(), wire)
}

func sk15(t *T, what string, s *message.SenderKey, w *ref.SenderKeyMsg, wire []byte) {
	eq15(t, what+" type", s.Type(), message.SenderKeyType)
	eq15(t, what+" version", s.Version(), w.VersionByte>>4)
	eq15(t, what+" distribution", s.DistributionID().String(), dist15(w.Dist))
	eq15(t, what+" chain id", s.ChainID(), w.ChainID)
	eq15(t, what+" iteration", s.Iteration(), w.Iteration)
	eqb15(t, what+" ciphertext", s.Message(), w.Ciphertext)
	eqb15(t, what+" bytes", s.Bytes(), wire)
}

func skd15(t *T, what string, s *message.SenderKeyDistribution, w *ref.SKDMsg, wire []byte) {
	eq15(t, what+" version", s.Version(), w.VersionByte>>4)
	eq15(t, what+" distribution", s.DistributionID().String(), dist15(w.Dist))
	eq15(t, what+" chain id", s.ChainID(), w.ChainID)
	eq15(t, what+" iteration", s.Iteration(), w.Iteration)
	eqb15(t, what+" chain key", s.ChainKey(), w.ChainKey)
	eqb15(t, what+" signing key", s.SigningKey().Bytes(), w.SigningKey[:33])
	eqb15(t, what+" bytes", s.Bytes(), wire)
}

// dist15 brings the text of a distribution id into the standard form.
func dist15(b []byte) string {
	var hex []byte
	for _, c := range bytes.TrimPrefix(bytes.ToLower(b), []byte("urn:uuid:")) {
		if c != '-' && c != '{' && c != '}' {
			hex = append(hex, c)
		}
	}
	if len(hex) != 32 {
		return "not a uuid"
	}
	return fmt.Sprintf("%s-%s-%s-%s-%s", hex[:8], hex[8:12], hex[12:16], hex[16:20], hex[20:])
}

func randDist(t *T) (distribution.ID, string) {
	b := randBytes(t, 16)
	switch t.Rng.IntN(8) {
	case 0:
		b = make([]byte, 16)
	case 1:
		b = bytes.Repeat([]byte{0xff}, 16)
	}
	s := fmt.Sprintf("%x-%x-%x-%x-%x", b[:4], b[4:6], b[6:8], b[8:10], b[10:])
	id, err := distribution.Parse(s)
	if err != nil || id.String() != s {
		t.Violate("the distribution id %s parses to %s, %v", s, id, err)
	}
	id2, err := distribution.ParseBytes([]byte(s))
	if err != nil || id2 != id || id2.String() != s {
		t.Violate("the distribution id bytes %s parse to %s, %v", s, id2, err)
	}
	if id3 := distribution.MustParse(s); id3 != id {
		t.Violate("the distribution id %s parses to %s", s, id3)
	}
	return id, s
}

func runC15(c *C) {
	c.Cases("signal", c.N(3000, 60000), signal15)
	c.Cases("prekey", c.N(3000, 60000), prekey15)
	c.Cases("senderkey", c.N(2000, 40000), senderkey15)
	c.Cases("dist", c.N(3000, 60000), skd15case)
	c.Cases("plaintext", c.N(200, 5000), plaintext15)
	c.Cases("keys", c.N(2000, 40000), keys15)
	c.Cases("foreign", c.N(8000, 200000), foreign15)
	c.Cases("mutated", c.N(1000, 30000), mutated15)
	c.Require("parsed back", 1000)
	c.Require("foreign accepted", 1000)
	c.Require("mutated accepted", 1000)
}

func buildSignal15(t *T) (*message.Signal, []byte) {
	rk, ct, ctr, prev, key := pub15(t), cipher15(t), num32(t), num32(t), randBytes(t, 32)
	from, to := ident15(t), ident15(t)
	c, err := message.NewSignal(message.SignalConfig{Version: 3, MACKey: key, SenderRatchetKey: rk, PreviousCounter: prev, Counter: ctr, Ciphertext: ct, SenderIdentityKey: from, ReceiverIdentityKey: to})
	good15(t, "building a signal message", err)
	s, isSig := c.(*message.Signal)
	if !isSig {
		t.Violate("NewSignal returned a %T", c)
	}
	body := ref.EncodeSignalBody(rk.Bytes(), ctr, prev, ct)
	w, err := ref.ParseSignal(s.Bytes())
	if err != nil || w.Extra || w.VersionByte != 0x33 || !w.HasCounter || !w.HasPrev || w.Counter != ctr || w.Prev != prev || !bytes.Equal(w.Ciphertext, ct) || !bytes.Equal(w.RatchetKey, rk.Bytes()) {
		t.Violate("signal message with counter %d, previous counter %d, key %x, %d bytes of ciphertext is %s on the wire (%v)", ctr, prev, rk.Bytes(), len(ct), hexs(s.Bytes()), err)
	}
	mac := ref.HMAC(key, from.Bytes(), to.Bytes(), w.Body)[:8]
	eqb15(t, "tag of the signal message", w.MAC, mac)
	if len(ct) > 0 { // the canonical encoding of every field present
		eqb15(t, "signal message", w.Body, body)
	}
	want := &ref.SignalMsg{VersionByte: 0x33, Counter: ctr, RatchetKey: rk.Bytes(), Ciphertext: ct}
	sig15(t, "built signal message's", s, want, s.Bytes())
	t.Seen("signal", bucket(len(ct)), cls32(ctr), cls32(prev), ct == nil)
	return s, s.Bytes()
}

func signal15(t *T, i int) {
	s, wire := buildSignal15(t)
	p, err := message.NewSignalFromBytes(clone(wire))
	good15(t, "parsing a built signal message", err)
	w, _ := ref.ParseSignal(wire)
	sig15(t, "parsed signal message's", p.(*message.Signal), w, wire)
	eqb15(t, "parsed again", s.Message(), p.(*message.Signal).Message())
	t.Count("parsed back", 1)
	if t.wantSample() {
		t.Sample(map[string]any{"type": "signal", "counter": s.Counter(), "wire": hexs(wire)})
	}
}

func prekey15(t *T, i int) {
	s, _ := buildSignal15(t)
	reg, signed := num32(t), num32(t)
	var id *prekey.ID
	if t.Rng.IntN(3) > 0 {
		x := prekey.ID(num32(t))
		id = &x
	}
	base, ident := pub15(t), ident15(t)
	c, err := message.NewPreKey(message.PreKeyConfig{Version: 3, RegistrationID: reg, PreKeyID: id, SignedPreKeyID: prekey.ID(signed), BaseKey: base, IdentityKey: ident, Message: s})
	good15(t, "building a pre-key message", err)
	m, isPre := c.(*message.PreKey)
	if !isPre {
		t.Violate("NewPreKey returned a %T", c)
	}
	want := &ref.PreKeyMsg{VersionByte: 0x33, RegID: reg, SignedID: signed, BaseKey: base.Bytes(), IdentityKey: ident.Bytes(), Message: s.Bytes()}
	if id != nil {
		x := uint32(*id)
		want.PreKeyID = &x
	}
	wire := clone(m.Bytes())
	w, err := ref.ParsePreKey(wire)
	good15(t, "reading a pre-key message from the wire", err)
	if w.Extra || !w.HasReg || !w.HasSigned || w.VersionByte != 0x33 || fmtID(w.PreKeyID) != fmtID(want.PreKeyID) || w.RegID != reg || w.SignedID != signed ||
		!bytes.Equal(w.BaseKey, want.BaseKey) || !bytes.Equal(w.IdentityKey, want.IdentityKey) || !bytes.Equal(w.Message, want.Message) {
		t.Violate("pre-key message with registration id %d, pre-key %s, signed pre-key %d is %s on the wire", reg, fmtID(want.PreKeyID), signed, hexs(wire))
	}
	// The numbered fields come in the order of their definition or their number; contents decide, length as well.
	eq15(t, "length of the pre-key message", len(wire), len(ref.EncodePreKey(want)))
	pre15(t, "built pre-key message's", m, want, wire)
	p, err := message.NewPreKeyFromBytes(clone(wire))
	good15(t, "parsing a built pre-key message", err)
	pre15(t, "parsed pre-key message's", p.(*message.PreKey), want, wire)
	t.Count("parsed back", 1)
	t.Seen("prekey", cls32(reg), cls32(signed), fmtID(want.PreKeyID) == "none", want.PreKeyID != nil && *want.PreKeyID == 0)
	if t.wantSample() {
		t.Sample(map[string]any{"type": "prekey", "id": fmtID(want.PreKeyID), "registration": reg, "wire": hexs(wire)})
	}
}

func senderkey15(t *T, i int) {
	id, text := randDist(t)
	chain, iter, ct := num32(t), num32(t), cipher15(t)
	kp := ref.GenKP(t.R)
	priv, err := curve.NewPrivateKey(kp.Priv)
	good15(t, "private key", err)
	s, err := message.NewSenderKey(t.R, message.SenderKeyConfig{Version: 3, DistID: id, ChainID: chain, Iteration: iter, Ciphertext: ct, SignatureKey: priv})
	good15(t, "building a sender-key message", err)
	wire := clone(s.Bytes())
	w, err := ref.ParseSenderKey(wire)
	good15(t, "reading a sender-key message from the wire", err)
	if w.Extra || !w.HasChain || !w.HasIter || w.VersionByte != 0x33 || string(w.Dist) != text || w.ChainID != chain || w.Iteration != iter || !bytes.Equal(w.Ciphertext, ct) {
		t.Violate("sender-key message for %s with chain %d, iteration %d and %d bytes of ciphertext is %s on the wire", text, chain, iter, len(ct), hexs(wire))
	}
	if len(ct) > 0 {
		eqb15(t, "sender-key message", w.Body, ref.EncodeSenderKeyBody([]byte(text), chain, iter, ct))
	}
	if len(ct) < 2000 {
		eq15(t, "signature of the sender-key message valid", ref.XVerify(kp.Pub[1:], w.Body, w.Sig), true)
	}
	sk15(t, "built sender-key message's", s, w, wire)
	p, err := message.NewSenderKeyFromBytes(clone(wire))
	good15(t, "parsing a built sender-key message", err)
	sk15(t, "parsed sender-key message's", p, w, wire)
	valid, err := p.VerifySignature(priv.PublicKey())
	good15(t, "verifying a parsed sender-key message", err)
	eq15(t, "signature of the parsed sender-key message valid", valid, true)
	t.Count("parsed back", 1)
	t.Seen("senderkey", bucket(len(ct)), cls32(chain), cls32(iter), ct == nil)
}

func skd15case(t *T, i int) {
	id, text := randDist(t)
	chain, iter, ck, key := num32(t), num32(t), randBytes(t, 32), pub15(t)
	s, err := message.NewSenderKeyDistribution(message.SenderKeyDistConfig{Version: 3, DistID: id, ChainID: chain, Iteration: iter, ChainKey: ck, SigningKey: key})
	good15(t, "building a distribution message", err)
	wire := clone(s.Bytes())
	eqb15(t, "distribution message", wire, ref.EncodeSKD([]byte(text), chain, iter, ck, key.Bytes()))
	w, err := ref.ParseSKD(wire)
	good15(t, "reading a distribution message from the wire", err)
	skd15(t, "built distribution message's", s, w, wire)
	p, err := message.NewSenderKeyDistributionFromBytes(clone(wire))
	good15(t, "parsing a built distribution message", err)
	skd15(t, "parsed distribution message's", p, w, wire)
	t.Count("parsed back", 1)
	t.Seen("skd", cls32(chain), cls32(iter))
}

func plaintext15(t *T, i int) {
	body := cipher15(t)
	wire := append([]byte{0xC0}, body...)
	p, err := message.NewPlaintextFromBytes(clone(wire))
	good15(t, "parsing a plaintext message", err)
	eqb15(t, "plaintext message's bytes", p.Bytes(), wire)
	eqb15(t, "plaintext message's contents", p.Message(), body)
	eq15(t, "plaintext message's type", p.Type(), message.PlaintextType)
	t.Count("parsed back", 1)
	t.Seen("plaintext", bucket(len(body)))
}

func keys15(t *T, i int) {
	raw := randBytes(t, 32)
	switch t.Rng.IntN(6) {
	case 0:
		raw = clone(oddPoints[t.Rng.IntN(len(oddPoints))])
	case 1:
		raw = bytes.Repeat([]byte{byte(t.Rng.Uint32())}, 32)
	}
	k, err := curve.NewPrivateKey(clone(raw))
	good15(t, "private key", err)
	eqb15(t, "private key", k.Bytes(), ref.Clamp(raw))
	k2, err := curve.NewPrivateKey(k.Bytes())
	good15(t, "private key from its bytes", err)
	eqb15(t, "private key from its bytes", k2.Bytes(), k.Bytes())
	pub := k.PublicKey()
	eqb15(t, "public key", k2.PublicKey().Bytes(), pub.Bytes())
	p2, err := curve.NewPublicKey(pub.Bytes())
	good15(t, "public key from its bytes", err)
	eqb15(t, "public key from its bytes", p2.Bytes(), pub.Bytes())
	eq15(t, "public key from its bytes equal", p2.Equal(pub), true)
	pub15(t)
	ident15(t)
	kp, err := curve.NewKeyPair(k.Bytes(), pub.Bytes())
	good15(t, "key pair", err)
	eqb15(t, "key pair's private key", kp.PrivateKey().Bytes(), k.Bytes())
	eqb15(t, "key pair's public key", kp.PublicKey().Bytes(), pub.Bytes())
	id := prekey.ID(num32(t))
	eq15(t, "pre-key id", id.String(), fmt.Sprintf("%d", uint32(id)))
	back, err := prekey.NewPreKey(id, kp).KeyPair()
	good15(t, "pre-key's pair", err)
	eqb15(t, "pre-key's private key", back.PrivateKey().Bytes(), k.Bytes())
	eqb15(t, "pre-key's public key", back.PublicKey().Bytes(), pub.Bytes())
	back, err = prekey.NewSigned(id, t.Rng.Uint64(), kp, randBytes(t, 64)).KeyPair()
	good15(t, "signed pre-key's pair", err)
	eqb15(t, "signed pre-key's private key", back.PrivateKey().Bytes(), k.Bytes())
	eqb15(t, "signed pre-key's public key", back.PublicKey().Bytes(), pub.Bytes())
	ikp := identity.NewKeyPair(k, must(identity.NewKey(pub.Bytes())))
	eqb15(t, "identity pair's private key", ikp.PrivateKey().Bytes(), k.Bytes())
	eqb15(t, "identity pair's public key", ikp.PublicKey().Bytes(), pub.Bytes())
	eqb15(t, "identity pair's identity key", ikp.IdentityKey().Bytes(), pub.Bytes())
	// Signature bytes and keys survive the trip together.
	msg := randBytes(t, t.Rng.IntN(50))
	sg, err := k2.Sign(t.R, msg)
	good15(t, "signing", err)
	valid, err := p2.VerifySignature(sg, msg)
	good15(t, "verifying", err)
	eq15(t, "signature valid after the keys' round trip", valid, true)
	randDist(t)
	t.Seen("keys", i)
}

// long encodes v as a varint with padding bytes.
func longUint(r *rand.Rand, b []byte, no int, v uint64) []byte {
	b = ref.Varint(b, uint64(no)<<3)
	x := ref.Varint(nil, v)
	for k := r.IntN(3); k > 0 && len(x) < 9; k-- {
		x[len(x)-1] |= 0x80
		x = append(x, 0)
	}
	return append(b, x...)
}

// encode15 writes fields in any order, at times with unknown ones, a superseded earlier value or longer varints.
func encode15(t *T, fs []ref.Field) []byte {
	t.Rng.Shuffle(len(fs), func(a, b int) { fs[a], fs[b] = fs[b], fs[a] })
	var out []byte
	for _, f := range fs {
		if t.Rng.IntN(12) == 0 { // superseded by what follows
			g := f
			g.Num, g.Bytes = uint64(num32(t)), randBytes(t, t.Rng.IntN(40))
			out = append(out, encodeFields([]ref.Field{g})...)
		}
		if t.Rng.IntN(6) == 0 {
			out = append(out, encodeFields([]ref.Field{{No: 7 + t.Rng.IntN(1000), Wire: []int{0, 1, 2, 5}[t.Rng.IntN(4)], Num: t.Rng.Uint64(), Bytes: randBytes(t, t.Rng.IntN(30))}})...)
		}
		if f.Wire == 0 && t.Rng.IntN(5) == 0 {
			out = longUint(t.Rng, out, f.No, f.Num)
		} else {
			out = append(out, encodeFields([]ref.Field{f})...)
		}
	}
	return out
}

func (t *T) optNum(fs []ref.Field, no int) []ref.Field {
	if t.Rng.IntN(6) == 0 {
		return fs
	}
	return append(fs, ref.Field{No: no, Wire: 0, Num: uint64(num32(t))})
}

func (t *T) key(fs []ref.Field, no int) []ref.Field {
	k := append([]byte{5}, randBytes(t, 32)...)
	if t.Rng.IntN(4) == 0 {
		k = append([]byte{5}, oddPoints[t.Rng.IntN(len(oddPoints))]...)
	}
	return append(fs, ref.Field{No: no, Wire: 2, Bytes: k})
}

func vbyte(t *T) byte { return 0x30 | byte(t.Rng.IntN(16)) }

func foreignSignal(t *T) []byte {
	fs := t.key(nil, 1)
	fs = t.optNum(t.optNum(fs, 2), 3)
	if t.Rng.IntN(6) > 0 {
		fs = append(fs, ref.Field{No: 4, Wire: 2, Bytes: cipher15(t)})
	}
	return append(append([]byte{vbyte(t)}, encode15(t, fs)...), randBytes(t, 8)...)
}

func foreign15(t *T, i int) {
	switch i % 4 {
	case 0:
		b := foreignSignal(t)
		w, err := ref.ParseSignal(b)
		if err != nil {
			t.Skip("own message unreadable: %v", err)
		}
		p, err := message.NewSignalFromBytes(clone(b))
		good15(t, "a valid signal message "+hexs(b), err)
		sig15(t, "signal message's", p.(*message.Signal), w, b)
		t.Seen("fsignal", w.HasCounter, w.HasPrev, bucket(len(w.Ciphertext)), cls32(w.Counter), w.Extra)
	case 1:
		fs := t.optNum(t.optNum(t.optNum(nil, 1), 5), 6)
		fs = t.key(t.key(fs, 2), 3)
		fs = append(fs, ref.Field{No: 4, Wire: 2, Bytes: foreignSignal(t)})
		b := append([]byte{vbyte(t)}, encode15(t, fs)...)
		w, err := ref.ParsePreKey(b)
		if err != nil {
			t.Skip("own message unreadable: %v", err)
		}
		p, err := message.NewPreKeyFromBytes(clone(b))
		good15(t, "a valid pre-key message "+hexs(b), err)
		pre15(t, "pre-key message's", p.(*message.PreKey), w, b)
		t.Seen("fprekey", w.HasReg, w.HasSigned, w.PreKeyID != nil, w.Extra)
	case 2:
		_, text := randDist(t)
		fs := []ref.Field{{No: 1, Wire: 2, Bytes: []byte(text)}}
		fs = t.optNum(t.optNum(fs, 2), 3)
		if t.Rng.IntN(6) > 0 {
			fs = append(fs, ref.Field{No: 4, Wire: 2, Bytes: cipher15(t)})
		}
		b := append(append([]byte{vbyte(t)}, encode15(t, fs)...), randBytes(t, 64)...)
		w, err := ref.ParseSenderKey(b)
		if err != nil {
			t.Skip("own message unreadable: %v", err)
		}
		p, err := message.NewSenderKeyFromBytes(clone(b))
		good15(t, "a valid sender-key message "+hexs(b), err)
		sk15(t, "sender-key message's", p, w, b)
		t.Seen("fsender", w.HasChain, w.HasIter, bucket(len(w.Ciphertext)), w.Extra)
	case 3:
		_, text := randDist(t)
		fs := []ref.Field{{No: 1, Wire: 2, Bytes: []byte(text)}, {No: 4, Wire: 2, Bytes: randBytes(t, 32)}}
		fs = t.key(t.optNum(t.optNum(fs, 2), 3), 5)
		b := append([]byte{vbyte(t)}, encode15(t, fs)...)
		w, err := ref.ParseSKD(b)
		if err != nil {
			t.Skip("own message unreadable: %v", err)
		}
		p, err := message.NewSenderKeyDistributionFromBytes(clone(b))
		good15(t, "a valid distribution message "+hexs(b), err)
		skd15(t, "distribution message's", p, w, b)
		t.Seen("fskd", w.HasChain, w.HasIter, w.Extra)
	}
	t.Count("foreign accepted", 1)
}

// mutated15 parses mutated messages: what is accepted has the contents an independent parser finds and the same bytes.
func mutated15(t *T, i int) {
	_, text := randDist(t)
	key := func() []byte { return append([]byte{5}, randBytes(t, 32)...) }
	for j := 0; j < 60; j++ {
		var body []byte
		tail := 0
		switch j % 4 {
		case 0:
			body, tail = ref.EncodeSignalBody(key(), num32(t), num32(t), randBytes(t, 32)), 8
		case 1:
			x := num32(t)
			inner := append(ref.EncodeSignalBody(key(), num32(t), num32(t), randBytes(t, 32)), randBytes(t, 8)...)
			body = ref.EncodePreKey(&ref.PreKeyMsg{RegID: num32(t), PreKeyID: &x, SignedID: num32(t), BaseKey: key(), IdentityKey: key(), Message: inner})
		case 2:
			body, tail = ref.EncodeSenderKeyBody([]byte(text), num32(t), num32(t), randBytes(t, 32)), 64
		case 3:
			body = ref.EncodeSKD([]byte(text), num32(t), num32(t), randBytes(t, 32), key())
		}
		b := append(append([]byte{body[0]}, mutFields(t.Rng, body[1:], 0)...), randBytes(t, tail)...)
		if t.Rng.IntN(3) == 0 {
			b = mutBytes(t.Rng, b, [][]byte{body})
		}
		t.Logf("%s", hexs(b))
		t.Eval()
		acc := false
		switch j % 4 {
		case 0:
			if p, err := message.NewSignalFromBytes(clone(b)); err == nil {
				if w, err := ref.ParseSignal(b); err == nil && len(w.RatchetKey) >= 33 {
					sig15(t, "mutated signal message's", p.(*message.Signal), w, b)
					acc = true
				}
			}
		case 1:
			if p, err := message.NewPreKeyFromBytes(clone(b)); err == nil {
				if w, err := ref.ParsePreKey(b); err == nil && len(w.BaseKey) >= 33 && len(w.IdentityKey) >= 33 {
					if iw, err := ref.ParseSignal(w.Message); err == nil && len(iw.RatchetKey) >= 33 {
						pre15(t, "mutated pre-key message's", p.(*message.PreKey), w, b)
						acc = true
					}
				}
			}
		case 2:
			if p, err := message.NewSenderKeyFromBytes(clone(b)); err == nil {
				if w, err := ref.ParseSenderKey(b); err == nil {
					sk15(t, "mutated sender-key message's", p, w, b)
					acc = true
				}
			}
		case 3:
			if p, err := message.NewSenderKeyDistributionFromBytes(clone(b)); err == nil {
				if w, err := ref.ParseSKD(b); err == nil && len(w.SigningKey) >= 33 {
					skd15(t, "mutated distribution message's", p, w, b)
					acc = true
				}
			}
		}
		if acc {
			t.Count("mutated accepted", 1)
			t.Seen("mut", j%4, len(b))
		} else {
			t.Count("mutated refused", 1)
		}
	}
}
