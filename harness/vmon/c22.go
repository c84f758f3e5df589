package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/curve/curve25519"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:     "C22",
		Level:  "fault_enumeration",
		Rule:   "Every call that takes a random source (key generation, all signatures, handshake, ratchet step, sender-key creation, group message) runs on copies of its state with sources that fail at every byte (alone or together with the last bytes, with errors and ends of file), that split reads in several ways, that differ from a base source in one byte at every position, and with no source; resulting public keys, signatures and stored state are compared. Conversations and generated keys are searched for repeating keys. Distinct by (call, position, way of failing or splitting).",
		Run:    runC22,
		Assume: []string{"the system's random source works and does not repeat"},
	})
}

// stream is a scripted random source.
type stream struct {
	r     io.Reader
	left  int // bytes before it fails, or -1
	err   error
	chunk int  // bytes per read, 0 for all
	zero  bool // an empty read before each read
	with  bool // the error comes with the last bytes
	flip  int  // byte to change, or -1
	n     int
	odd   bool
	once  bool // it fails once and works again afterwards
}

func (s *stream) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if s.zero {
		if s.odd = !s.odd; s.odd {
			return 0, nil
		}
	}
	if s.left == 0 {
		if s.once {
			s.left = -1
		}
		return 0, s.err
	}
	if s.chunk > 0 && len(p) > s.chunk {
		p = p[:s.chunk]
	}
	if s.left > 0 && len(p) > s.left {
		p = p[:s.left]
	}
	n, _ := io.ReadFull(s.r, p)
	if s.flip >= s.n && s.flip < s.n+n {
		p[s.flip-s.n] ^= 0x10 // not one of the bits clamping sets
	}
	s.n += n
	if s.left > 0 {
		s.left -= n
		if s.left == 0 && s.with {
			return n, s.err
		}
	}
	return n, nil
}

var errSource = errors.New("random source broken")

// out22 is what a call produced from the random source: independent keys, and other values.
type out22 struct {
	keys  map[string][]byte
	other []byte
}

func (o out22) String() string {
	s := ""
	for _, k := range keysOf(o.keys) {
		s += fmt.Sprintf("%s=%x ", k, o.keys[k])
	}
	return s + fmt.Sprintf("%x", o.other)
}

func keysOf(m map[string][]byte) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return keys(b)
}

// op22 is a call: run makes it on a fresh copy of the state and also returns a description of how that state changed ("" if not).
type op22 struct {
	name string
	min  int // bytes it draws at least
	run  func(r io.Reader) (out out22, isNil bool, changed string, err error)
	// fallback: without the random bytes the call may do without them
	exact bool
}

func one(name string, k []byte) out22 { return out22{keys: map[string][]byte{name: k}} }

func runC22(c *C) {
	c.Cases("keys", c.N(4, 60), func(t *T, i int) { enumerate22(t, keyOps(t)) })
	c.Cases("signatures", c.N(6, 60), func(t *T, i int) { enumerate22(t, signOps(t)) })
	c.Cases("sessions", c.N(12, 200), func(t *T, i int) { enumerate22(t, sessionOps(t)) })
	c.Cases("groups", c.N(8, 100), func(t *T, i int) { enumerate22(t, groupOps(t)) })
	c.Cases("fresh", c.N(60, 1500), fresh22)
	c.Cases("generated", c.N(8, 100), generated22)
	c.Require("faults injected", 5000)
	c.Require("bytes changed", 1000)
	c.Require("reads split", 300)
	c.Require("archived sessions revived", 20)
	c.Require("ratchet keys compared", 500)
}

func keyOps(t *T) []op22 {
	return []op22{
		{name: "curve.GeneratePrivateKey", min: 32, run: func(r io.Reader) (out22, bool, string, error) {
			k, err := curve.GeneratePrivateKey(r)
			if err != nil {
				return out22{}, nothing(k), "", err
			}
			return out22{keys: map[string][]byte{"key": k.Bytes()}, other: k.PublicKey().Bytes()}, false, "", nil
		}},
		{name: "curve.GenerateKeyPair", min: 32, run: func(r io.Reader) (out22, bool, string, error) {
			k, err := curve.GenerateKeyPair(r)
			if err != nil {
				return out22{}, nothing(k), "", err
			}
			return out22{keys: map[string][]byte{"key": k.PrivateKey().Bytes()}, other: k.PublicKey().Bytes()}, false, "", nil
		}},
		{name: "curve25519.GeneratePrivateKey", min: 32, run: func(r io.Reader) (out22, bool, string, error) {
			k, err := curve25519.GeneratePrivateKey(r)
			if err != nil {
				return out22{}, nothing(k), "", err
			}
			return out22{keys: map[string][]byte{"key": k.Bytes()}, other: k.PublicKeyBytes()}, false, "", nil
		}},
		{name: "identity.GenerateKeyPair", min: 32, run: func(r io.Reader) (out22, bool, string, error) {
			k, err := identity.GenerateKeyPair(r)
			if err != nil {
				return out22{}, nothing(k.PrivateKey()) && nothing(k.PublicKey()), "", err
			}
			return out22{keys: map[string][]byte{"key": k.PrivateKey().Bytes()}, other: k.IdentityKey().Bytes()}, false, "", nil
		}},
	}
}

func signOps(t *T) []op22 {
	raw := randBytes(t, 32)
	msg := randBytes(t, t.Rng.IntN(200))
	kp := must(curve.NewKeyPair(raw, must(curve.NewPrivateKey(raw)).PublicKey().Bytes()))
	ik := identity.NewKeyPair(kp.PrivateKey(), must(identity.NewKey(kp.PublicKey().Bytes())))
	other := must(identity.GenerateKeyPair(t.R)).IdentityKey()
	sig := func(s []byte, err error) (out22, bool, string, error) {
		if err != nil {
			return out22{}, s == nil, "", err
		}
		return one("nonce commitment", s[:32]), false, "", nil
	}
	return []op22{
		{name: "PrivateKey.Sign", min: 64, run: func(r io.Reader) (out22, bool, string, error) { return sig(kp.PrivateKey().Sign(r, msg)) }},
		{name: "KeyPair.Sign", min: 64, run: func(r io.Reader) (out22, bool, string, error) { return sig(kp.Sign(r, msg, nil, msg)) }},
		{name: "curve25519 Sign", min: 64, run: func(r io.Reader) (out22, bool, string, error) {
			return sig(must(curve25519.NewPrivateKey(raw)).Sign(r, msg))
		}},
		{name: "SignAlternateIdentity", min: 64, run: func(r io.Reader) (out22, bool, string, error) { return sig(ik.SignAlternateIdentity(r, other)) }},
		{name: "message.NewSenderKey", min: 64, run: func(r io.Reader) (out22, bool, string, error) {
			m, err := message.NewSenderKey(r, message.SenderKeyConfig{Version: 3, DistID: testDist, ChainID: 5, Iteration: 6, Ciphertext: msg, SignatureKey: kp.PrivateKey()})
			if err != nil {
				return out22{}, m == nil, "", err
			}
			b := m.Bytes()
			return one("nonce commitment", b[len(b)-64:len(b)-32]), false, "", nil
		}},
	}
}

// changed tells whether f changed the stored state of p.
func changed(p *Party, grp []groupKey, f func()) string {
	before := p.snapshot(grp)
	f()
	return diffSnap(before, p.snapshot(grp))
}

// ratchetOf encrypts on a copy of p and returns the keys on the wire.
func ratchetOf(t *T, p *Party, to address.Address) (ratchetKey, base []byte) {
	m, err := p.fork().Session(to).EncryptMessage(ctx, []byte("x"))
	if err != nil {
		t.Skip("cannot encrypt: %v", err)
	}
	b := m.Bytes()
	if m.Type() == message.PreKeyType {
		w, err := ref.ParsePreKey(b)
		if err != nil {
			t.Skip("wire: %v", err)
		}
		base, b = w.BaseKey, w.Message
	}
	w, err := ref.ParseSignal(b)
	if err != nil {
		t.Skip("wire: %v", err)
	}
	return w.RatchetKey, base
}

func sessionOps(t *T) []op22 {
	a, b := newParty(t, "alice", 1), newParty(t, "bob", 1)
	bundleOf := func() *op22 {
		bundle := b.Bundle(t.Rng.IntN(2) == 0)
		s := a.fork()
		return &op22{min: 64, run: func(r io.Reader) (o out22, n bool, ch string, err error) {
			q := s.fork()
			ch = changed(q, nil, func() { err = q.Session(b.Addr).ProcessPreKeyBundle(ctx, r, bundle) })
			if err == nil {
				rk, base := ratchetOf(t, q, b.Addr)
				o = out22{keys: map[string][]byte{"ratchet key": rk, "base key": base}}
			}
			return o, true, ch, err
		}}
	}
	decrypt := func(p *Party, from address.Address, m message.Ciphertext, min int) *op22 {
		s := p.fork()
		return &op22{min: min, run: func(r io.Reader) (o out22, n bool, ch string, err error) {
			q := s.fork()
			var pt []byte
			ch = changed(q, nil, func() { pt, err = q.Session(from).DecryptMessage(ctx, r, m) })
			if err == nil {
				rk, _ := ratchetOf(t, q, from)
				o = one("ratchet key", rk)
			}
			return o, pt == nil, ch, err
		}}
	}
	var ops []op22
	add := func(name string, o *op22) {
		o.name = name
		ops = append(ops, *o)
	}
	know := func(p *Party, x *Party) { p.know(x.Addr) }
	know(a, b)
	know(b, a)
	add("ProcessPreKeyBundle (first)", bundleOf())
	ok(t, a.Session(b.Addr).ProcessPreKeyBundle(ctx, a.R, b.Bundle(true)))
	add("ProcessPreKeyBundle (again)", bundleOf())
	m1 := must(a.Session(b.Addr).EncryptMessage(ctx, []byte("one")))
	add("DecryptMessage (handshake)", decrypt(b, a.Addr, m1, 32))
	must(b.Session(a.Addr).DecryptMessage(ctx, b.R, m1))
	r1 := must(b.Session(a.Addr).EncryptMessage(ctx, []byte("two")))
	add("DecryptMessage (reply)", decrypt(a, b.Addr, r1, 32))
	must(a.Session(b.Addr).DecryptMessage(ctx, a.R, r1))
	m2 := must(a.Session(b.Addr).EncryptMessage(ctx, []byte("three")))
	add("DecryptMessage (step)", decrypt(b, a.Addr, m2, 32))
	must(b.Session(a.Addr).DecryptMessage(ctx, b.R, m2))
	// A message of an archived session makes that session ratchet.
	r2 := must(b.Session(a.Addr).EncryptMessage(ctx, []byte("four")))
	must(a.Session(b.Addr).DecryptMessage(ctx, a.R, r2))
	m3 := must(a.Session(b.Addr).EncryptMessage(ctx, nil))
	for k := 1 + t.Rng.IntN(3); k > 0; k-- {
		ok(t, b.Session(a.Addr).ProcessPreKeyBundle(ctx, b.R, a.Bundle(k%2 == 0)))
	}
	archived22(t, b, a.Addr, m3)
	// A handshake while other sessions are known.
	ok(t, a.Session(b.Addr).ProcessPreKeyBundle(ctx, a.R, b.Bundle(t.Rng.IntN(2) == 0)))
	m4 := must(a.Session(b.Addr).EncryptMessage(ctx, randBytes(t, t.Rng.IntN(50))))
	add("DecryptMessage (another handshake)", decrypt(b, a.Addr, m4, 32))
	// Initialization from parameters.
	base, spk := must(curve.GenerateKeyPair(t.R)), must(curve.GenerateKeyPair(t.R))
	add("InitializeAliceSessionRecord", &op22{min: 32, run: func(r io.Reader) (out22, bool, string, error) {
		rec, err := session.InitializeAliceSessionRecord(r, &ratchet.AliceParameters{OurIdentityKeyPair: a.KP, OurBaseKeyPair: base, TheirIdentityKey: b.KP.IdentityKey(), TheirSignedPreKey: spk.PublicKey(), TheirRatchetKey: spk.PublicKey()})
		if err != nil {
			return out22{}, nothing(rec), "", err
		}
		k, err := rec.State().SenderRatchetKey()
		if err != nil {
			t.Skip("sender ratchet key: %v", err)
		}
		return one("ratchet key", k.Bytes()), false, "", nil
	}})
	return ops
}

// archived22: the sessions tried before the right one may draw from the source too, so only what the call keeps is
// judged: its new ratchet key is 32 bytes of the source, and without the source it fails.
func archived22(t *T, p *Party, from address.Address, m message.Ciphertext) {
	for k, s := range []*stream{{left: -1, flip: -1}, {left: -1, flip: -1, chunk: 1 + t.Rng.IntN(31)}, {left: -1, flip: -1, zero: true}} {
		tee := &tee08{r: s}
		s.r = newReader("c22 archived", t.Rng.Uint64())
		q := p.fork()
		_, err := q.Session(from).DecryptMessage(ctx, tee, m)
		if err != nil {
			t.Skip("message of an archived session: %v", err)
		}
		key, _ := ratchetOf(t, q, from)
		found := false
		for i := 0; i+32 <= len(tee.b) && !found; i++ {
			found = bytes.Equal(ref.KPFrom(ref.Clamp(clone(tee.b[i:i+32]))).Pub, key)
		}
		t.Eval()
		if !found {
			t.Violate("the ratchet key made for a message of an archived session does not come from the random source (variant %d, %d bytes drawn)", k, len(tee.b))
		}
		t.Count("archived sessions revived", 1)
	}
	for n := 0; n < 32; n++ {
		q := p.fork()
		var err error
		var pt []byte
		ch := changed(q, nil, func() {
			pt, err = q.Session(from).DecryptMessage(ctx, &stream{r: newReader("c22 archived", n), left: n, flip: -1, err: errSource}, m)
		})
		t.Eval()
		if err == nil || pt != nil || ch != "" {
			t.Violate("a message of an archived session is decrypted without a working random source (%d bytes): %v, %s", n, err, ch)
		}
		t.Count("faults injected", 1)
	}
}

func groupOps(t *T) []op22 {
	a := newParty(t, "alice", 1)
	grp := []groupKey{{a.Addr, testDist}}
	empty := a.fork(grp...)
	ops := []op22{{name: "NewSenderKeyDistribution", min: 64, run: func(r io.Reader) (o out22, n bool, ch string, err error) {
		q := empty.fork(grp...)
		var m *message.SenderKeyDistribution
		ch = changed(q, grp, func() { m, err = q.Group(a.Addr, testDist).NewSenderKeyDistribution(ctx, r) })
		if err == nil {
			o = out22{keys: map[string][]byte{"chain key": m.ChainKey(), "signing key": m.SigningKey().Bytes()}}
		}
		return o, m == nil, ch, err
	}}}
	must(a.Group(a.Addr, testDist).NewSenderKeyDistribution(ctx, a.R))
	for k := t.Rng.IntN(3); k > 0; k-- {
		must(a.Group(a.Addr, testDist).EncryptMessage(ctx, a.R, []byte("x")))
	}
	for _, pt := range [][]byte{nil, {}, randBytes(t, 16), randBytes(t, t.Rng.IntN(600))} {
		ops = append(ops, groupEncryptOp(a, grp, pt))
	}
	return ops
}

func groupEncryptOp(a *Party, grp []groupKey, pt []byte) op22 {
	return op22{name: "group EncryptMessage", min: 64, run: func(r io.Reader) (o out22, n bool, ch string, err error) {
		q := a.fork(grp...)
		var m *message.SenderKey
		ch = changed(q, grp, func() { m, err = q.Group(a.Addr, testDist).EncryptMessage(ctx, r, pt) })
		if err == nil {
			b := m.Bytes()
			o = one("nonce commitment", b[len(b)-64:len(b)-32])
		}
		return o, m == nil, ch, err
	}}
}

func enumerate22(t *T, ops []op22) {
	for _, op := range ops {
		seed := t.Rng.Uint64()
		src := func() *stream { return &stream{r: newReader("c22", seed), left: -1, flip: -1} }
		s := src()
		base, _, _, err := op.run(s)
		if err != nil {
			t.Skip("%s fails with a working source: %v", op.name, err)
		}
		n := s.n
		t.Logf("%s: %d bytes: %v", op.name, n, base)
		t.Eval()
		if n < op.min {
			t.Violate("%s draws %d bytes from the random source, its secrets have %d", op.name, n, op.min)
		}
		t.Count("calls enumerated", 1)
		for x, k := range base.keys {
			for y, l := range base.keys {
				if x != y && bytes.Equal(k, l) {
					t.Violate("%s: %s and %s are the same: %x", op.name, x, y, k)
				}
			}
		}
		if t.wantSample() {
			t.Sample(map[string]any{"call": op.name, "bytes drawn": n, "result": clip(base.String())})
		}
		// Failing at every byte.
		for k := 0; k < n; k++ {
			for mode := 0; mode < 8; mode++ {
				s := src()
				s.left = k
				s.err = []error{errSource, io.EOF, io.ErrUnexpectedEOF, errSource}[mode%4]
				s.with = mode == 1 || mode == 3 // at the end of a full read such an error means nothing to a source that goes on
				s.chunk = []int{0, 0, 1, 5}[mode%4]
				s.once = mode >= 4
				out, isNil, ch, err := op.run(s)
				t.Eval()
				t.Logf("%s: source fails after %d bytes (%d): %v", op.name, k, mode, err)
				if err == nil {
					t.Violate("%s: the random source fails after %d of %d bytes (%v), the call reports success: %v", op.name, k, n, s.err, out)
				}
				if !isNil {
					t.Violate("%s: the random source fails after %d of %d bytes, the call returns %v together with a result", op.name, k, n, err)
				}
				if ch != "" {
					t.Violate("%s: the random source fails after %d of %d bytes, the stored state changes:\n%s", op.name, k, n, ch)
				}
				t.Count("faults injected", 1)
				t.Seen(op.name, "fail", k, mode)
			}
		}
		// Split reads.
		for mode := 0; mode < 6; mode++ {
			s := src()
			s.chunk = []int{1, 1, 7, 31, 33, 0}[mode]
			s.zero = mode == 1 || mode == 4
			if mode >= 4 { // ends exactly after what is needed
				s.left, s.err, s.with = n, io.EOF, true
			}
			out, _, _, err := op.run(s)
			t.Eval()
			if err != nil || out.String() != base.String() {
				t.Violate("%s: the random source gives the same bytes in other pieces (%d at a time), the result is %v (%v) instead of %v", op.name, s.chunk, out, err, base)
			}
			t.Count("reads split", 1)
			t.Seen(op.name, "split", mode)
		}
		// Every byte counts.
		seen := map[string]int{base.String(): -1}
		for k := 0; k < n; k++ {
			s := src()
			s.flip = k
			out, _, _, err := op.run(s)
			t.Eval()
			if err != nil {
				t.Skip("%s fails with a working source: %v", op.name, err)
			}
			if old, dup := seen[out.String()]; dup {
				t.Violate("%s gives the same result although byte %d of its random bytes was changed (as with change %d): %v", op.name, k, old, out)
			}
			seen[out.String()] = k
			t.Count("bytes changed", 1)
			t.Seen(op.name, "change", k)
		}
		// The system's source.
		all := map[string]bool{}
		for k := 0; k < 3; k++ {
			out, _, _, err := op.run(nil)
			t.Eval()
			if err != nil {
				t.Violate("%s fails without a source: %v", op.name, err)
			}
			for x, key := range out.keys {
				if all[string(key)] {
					t.Violate("%s without a source gives the same %s twice: %x", op.name, x, key)
				}
				all[string(key)] = true
			}
			t.Count("calls without a source", 1)
		}
	}
}

// fresh22 follows a conversation and looks for repeating keys.
func fresh22(t *T, i int) {
	a, b := newParty(t, "alice", 1), newParty(t, "bob", 1)
	parties := []*Party{a, b}
	var random io.Reader = t.R
	if i%3 == 0 {
		random = nil
	}
	used := map[string]string{}
	fresh := func(what string, k []byte) {
		t.Eval()
		if old, dup := used[string(k)]; dup {
			t.Violate("the %s %x was used before as %s", what, k, old)
		}
		used[string(k)] = what
		t.Count("ratchet keys compared", 1)
	}
	for _, p := range parties {
		fresh("identity key of "+p.Addr.Name, p.KP.PublicKey().Bytes())
		fresh("signed pre-key of "+p.Addr.Name, p.Signed[p.curSPK].kp.PublicKey().Bytes())
	}
	current := map[string]string{} // party -> ratchet key in use
	step := 0
	due := map[*Party]bool{} // has to use a new key in its next message
	for op := 0; op < 60; op++ {
		x := parties[t.Rng.IntN(2)]
		y := parties[0]
		if x == y {
			y = parties[1]
		}
		if op == 0 || t.Rng.IntN(8) == 0 {
			bundle := y.Bundle(t.Rng.IntN(2) == 0)
			if bundle.PreKeyPublic != nil {
				fresh("one-time pre-key", bundle.PreKeyPublic.Bytes())
			}
			ok(t, x.Session(y.Addr).ProcessPreKeyBundle(ctx, random, bundle))
			rk, base := ratchetOf(t, x, y.Addr)
			fresh("base key", base)
			fresh("ratchet key of "+x.Addr.Name+" after a handshake", rk)
			current[x.Addr.Name] = string(rk)
			due[x] = false
		}
		if r := x.rawRecord(y.Addr); r == nil || r.State() == nil {
			continue
		}
		m, err := x.Session(y.Addr).EncryptMessage(ctx, []byte("hello"))
		ok(t, err)
		w, err := ref.ParseSignal(inner(m.Type(), m.Bytes()))
		ok(t, err)
		if k := string(w.RatchetKey); k != current[x.Addr.Name] {
			fresh("ratchet key of "+x.Addr.Name, w.RatchetKey)
			current[x.Addr.Name] = k
			step++
		} else if due[x] {
			t.Violate("%s still uses the ratchet key %x after it received a new one from the peer", x.Addr.Name, w.RatchetKey)
		}
		due[x] = false
		had := string(w.RatchetKey)
		_, known := used["seen by peer "+had]
		_, err = y.Session(x.Addr).DecryptMessage(ctx, random, m)
		ok(t, err)
		if !known {
			used["seen by peer "+had] = "-"
			due[y] = true
		}
	}
	t.Seen("fresh", i, step)
	t.Count("ratchet steps", int64(step))
}

func generated22(t *T, i int) {
	used := map[string]bool{}
	note := func(k []byte) {
		t.Eval()
		if used[string(k)] {
			t.Violate("the key %x was generated twice", k)
		}
		used[string(k)] = true
		t.Count("generated keys compared", 1)
	}
	for k := 0; k < 100; k++ {
		var r io.Reader
		if k%2 == 0 {
			r = t.R
		}
		note(must(curve.GeneratePrivateKey(r)).Bytes())
		note(must(curve.GenerateKeyPair(r)).PrivateKey().Bytes())
		note(must(identity.GenerateKeyPair(r)).PrivateKey().Bytes())
	}
	a := newParty(t, "alice", 1)
	for k := 0; k < 30; k++ {
		var r io.Reader
		if k%2 == 0 {
			r = t.R
		}
		d := distribution.MustParse(fmt.Sprintf("00000000-0000-0000-0000-%012d", k))
		m := must(a.Group(a.Addr, d).NewSenderKeyDistribution(ctx, r))
		note(m.ChainKey())
		note(m.SigningKey().Bytes())
	}
	t.Seen("generated", i)
}
