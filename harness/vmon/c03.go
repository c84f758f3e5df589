package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"

	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:     "C03",
		Rule:   "conversations are run to a random point; genuine messages in flight are then altered in every byte, truncated, extended, spliced, moved, reflected, misdirected and forged with partial key knowledge and presented to copies of the receivers; distinct by (kind of forgery, message type, receiver state)",
		Run:    runC03,
		Assume: []string{"the wrapper fields of a pre-key message (registration id, ids) are not authenticated; only the authenticated inner message counts", "an address whose identity is not yet pinned trusts the first key it sees"},
	})
}

// book is everything genuinely sent in a simulation, by receiver, attributed sender and authenticated bytes.
type book map[string][]byte

func bookKey(to, from address.Address, inner []byte) string {
	return fmt.Sprintf("%v|%v|%x", to, from, inner)
}

func (s *Sim) book() book {
	b := book{}
	for _, m := range append(append([]*Msg(nil), s.Flight...), s.Done...) {
		b[bookKey(m.To.Addr, m.From.Addr, m.Inner)] = m.Plain
	}
	return b
}

// present03 gives bytes to a copy of n's party and judges the outcome.
func present03(t *T, n *Node, from address.Address, typ message.CiphertextType, wire []byte, bk book, kind string) {
	t.Eval()
	q := n.P.fork()
	pt, err := q.receive(from, typ, wire)
	t.Count("presented: "+kind, 1)
	if err != nil {
		if pt != nil {
			t.Violate("%s presented to %v as from %v: refused (%v) but a plaintext %s was returned", kind, n.Addr, from, err, hexs(pt))
		}
		return
	}
	in := inner(typ, wire)
	want, ok := bk[bookKey(n.Addr, from, in)]
	if !ok {
		t.Violate("%s presented to %v as from %v was accepted and gave %s: %x", kind, n.Addr, from, hexs(pt), wire)
	}
	if !bytes.Equal(pt, want) {
		t.Violate("%s presented to %v as from %v gave %s, sent was %s", kind, n.Addr, from, hexs(pt), hexs(want))
	}
	t.Count("accepted: authenticated part is genuine", 1)
}

func flip(b []byte, i int, x byte) []byte {
	c := clone(b)
	c[i] ^= x
	return c
}

// scene03 runs a conversation and returns it with some genuine messages not yet delivered.
func scene03(t *T, ops int) *Sim {
	s := newSim(t, "alice 1", "bob 1", "carol 1")
	if t.Rng.IntN(4) == 0 {
		s = newSim(t, "alice 1", "bob 1")
		s.addNode(newPartyKey(t, "alice", 2, s.Nodes[0].P.KP))
	}
	p := profiles[t.Rng.IntN(4)]
	p.ops = ops
	// everybody knows everybody's identity
	for _, a := range s.Nodes {
		for _, b := range s.Nodes {
			if a != b {
				a.P.know(b.Addr)
				a.P.St.in.IdentityStore().Store(ctx, b.Addr, b.P.KP.IdentityKey())
			}
		}
	}
	s.run(p, driver03(t))
	return s
}

func driver03(t *T) driver {
	return driver{
		onSendErr:  func(a, b *Node, err error) { t.Skip("send failed: %v", err) },
		onShakeErr: func(a, b *Node, err error) { t.Skip("handshake failed: %v", err) },
		onDeliver: func(m *Msg, r Result, replay bool) {
			if r.OK != (r.Pred == pAccept) {
				t.Skip("%v: model %v, library err %v", m, r.Pred, r.Err)
			}
			if r.OK && !bytes.Equal(r.Plain, m.Plain) {
				t.Violate("%v gave %s, sent was %s", m, hexs(r.Plain), hexs(m.Plain))
			}
		},
	}
}

// fresh returns an undelivered message which the receiver would accept now.
func (s *Sim) fresh(t *T) *Msg {
	for try := 0; try < 50; try++ {
		if len(s.Flight) > 0 {
			m := s.Flight[t.Rng.IntN(len(s.Flight))]
			if m.Accepted == 0 && len(m.Plain) < 400 {
				if p, _, _, _ := m.To.predict(m.To.Recs[m.From.Addr], m, m.Typ); p == pAccept {
					return m
				}
			}
		}
		a, b := s.pair()
		s.sendSome(a, b, 1, profiles[0], driver03(t))
	}
	return nil
}

func runC03(c *C) {
	c.Cases("tamper", c.N(64, 3000), func(t *T, i int) {
		s := scene03(t, 5+t.Rng.IntN(80))
		m := s.fresh(t)
		if m == nil {
			return
		}
		bk := s.book()
		typ, w := m.Typ, m.Wire
		if m.Typ == message.PreKeyType && i%3 == 0 { // as plain message in an existing session too
			if p, _, _, _ := m.To.predict(m.To.Recs[m.From.Addr], m, message.WhisperType); p == pAccept {
				typ, w = message.WhisperType, m.Inner
			}
		}
		st := m.To.Recs[m.From.Addr]
		np := 0
		if st != nil {
			np = len(st.prev)
		}
		t.Seen("tamper", typ, np, m.Index, len(w))
		bits := i%4 == 0
		for k := range w {
			if bits {
				for b := 0; b < 8; b++ {
					present03(t, m.To, m.From.Addr, typ, flip(w, k, 1<<b), bk, "message with a flipped bit")
				}
				continue
			}
			present03(t, m.To, m.From.Addr, typ, flip(w, k, 1<<t.Rng.IntN(8)), bk, "message with a flipped bit")
			present03(t, m.To, m.From.Addr, typ, flip(w, k, byte(1+t.Rng.IntN(255))), bk, "message with an altered byte")
		}
		for k := 0; k < len(w); k++ {
			if len(w)-k < 40 || t.Rng.IntN(4) == 0 {
				present03(t, m.To, m.From.Addr, typ, w[:k], bk, "truncated message")
			}
		}
		for k := 1; k < 20; k++ {
			ext := make([]byte, k)
			if k%2 == 0 {
				t.R.Read(ext)
			}
			present03(t, m.To, m.From.Addr, typ, append(clone(w), ext...), bk, "extended message")
			present03(t, m.To, m.From.Addr, typ, append(append(clone(w[:len(w)-8]), ext...), w[len(w)-8:]...), bk, "message extended before its tag")
		}
		// the untouched message is accepted, so the oracle was not vacuous
		q := m.To.P.fork()
		if pt, err := q.receive(m.From.Addr, typ, w); err != nil || !bytes.Equal(pt, m.Plain) {
			t.Skip("the untouched message is not accepted: %v", err)
		}
		if t.wantSample() {
			t.Sample(map[string]any{"message": m.String(), "wire": hexs(w)})
		}
	})
	c.Cases("splice", c.N(150, 6000), splice03)
	c.Cases("misdirect", c.N(150, 5000), misdirect03)
	c.Cases("impostor", c.N(120, 4000), impostor03)
	c.Cases("mac", c.N(300, 6000), mac03)
	c.Cases("large", c.N(20, 200), large03)
	c.Require("presented: message with a flipped bit", 10000)
	c.Require("presented: reflected", 50)
	c.Require("presented: misdirected", 50)
	c.Require("MAC verifications", 10000)
}

// splice03 recombines parts of genuine messages.
func splice03(t *T, i int) {
	s := scene03(t, 10+t.Rng.IntN(120))
	m := s.fresh(t)
	if m == nil {
		return
	}
	var pool []*Msg
	for _, x := range append(append([]*Msg(nil), s.Flight...), s.Done...) {
		if x != m {
			pool = append(pool, x)
		}
	}
	if len(pool) == 0 {
		return
	}
	bk := s.book()
	sm, err := ref.ParseSignal(m.Inner)
	if err != nil {
		t.Skip("%v", err)
	}
	give := func(kind string, in []byte) {
		if bytes.Equal(in, m.Inner) {
			return
		}
		present03(t, m.To, m.From.Addr, message.WhisperType, in, bk, kind)
		if m.Typ == message.PreKeyType {
			pm, _ := ref.ParsePreKey(m.Wire)
			pm.Message = in
			present03(t, m.To, m.From.Addr, message.PreKeyType, ref.EncodePreKey(pm), bk, kind)
		}
	}
	join := func(body, mac []byte) []byte { return append(append([]byte{0x33}, body...), mac...) }
	for k := 0; k < 12; k++ {
		o := pool[t.Rng.IntN(len(pool))]
		if k%2 == 0 { // prefer the same chain
			for _, x := range pool {
				if x.Tok == m.Tok && x.HS == m.HS && t.Rng.IntN(3) > 0 {
					o = x
				}
			}
		}
		om, err := ref.ParseSignal(o.Inner)
		if err != nil {
			t.Skip("%v", err)
		}
		t.Seen("splice", o.HS == m.HS, o.Tok == m.Tok, o.Accepted > 0, m.Typ, o.From == m.From)
		give("message with another message's counter", join(ref.EncodeSignalBody(sm.RatchetKey, om.Counter, sm.Prev, sm.Ciphertext), sm.MAC))
		give("message with another message's ratchet key", join(ref.EncodeSignalBody(om.RatchetKey, sm.Counter, sm.Prev, sm.Ciphertext), sm.MAC))
		give("message with another message's ciphertext", join(ref.EncodeSignalBody(sm.RatchetKey, sm.Counter, sm.Prev, om.Ciphertext), sm.MAC))
		give("message with another message's ciphertext and tag", join(ref.EncodeSignalBody(sm.RatchetKey, sm.Counter, sm.Prev, om.Ciphertext), om.MAC))
		give("message with another message's tag", join(ref.EncodeSignalBody(sm.RatchetKey, sm.Counter, sm.Prev, sm.Ciphertext), om.MAC))
		// wrap the other message in this one's handshake
		if m.Typ == message.PreKeyType {
			pm, _ := ref.ParsePreKey(m.Wire)
			pm.Message = o.Inner
			if o.To == m.To && o.From == m.From && o.Accepted > 0 {
				continue // a replay is the business of C02
			}
			present03(t, m.To, m.From.Addr, message.PreKeyType, ref.EncodePreKey(pm), bk, "another message in this handshake")
		}
	}
	for _, d := range []uint32{1, 2, 100, 1 << 31, ^uint32(0)} {
		give("moved in the chain", join(ref.EncodeSignalBody(sm.RatchetKey, sm.Counter+d, sm.Prev, sm.Ciphertext), sm.MAC))
		give("altered previous-chain counter", join(ref.EncodeSignalBody(sm.RatchetKey, sm.Counter, sm.Prev+d, sm.Ciphertext), sm.MAC))
	}
	// same contents in another encoding
	give("extra field", join(ref.PutBytes(clone(sm.Body[1:]), 9, []byte("x")), sm.MAC))
	give("repeated field", join(ref.PutUint(clone(sm.Body[1:]), 2, uint64(sm.Counter)), sm.MAC))
	ct := ref.PutBytes(nil, 4, sm.Ciphertext)
	rest := ref.EncodeSignalBody(sm.RatchetKey, sm.Counter, sm.Prev, nil)
	_ = rest
	reord := ref.PutUint(append(ct, ref.PutBytes(nil, 1, sm.RatchetKey)...), 2, uint64(sm.Counter))
	reord = ref.PutUint(reord, 3, uint64(sm.Prev))
	give("reordered fields", join(reord, sm.MAC))
	if len(sm.Ciphertext) > 16 {
		give("ciphertext cut by a block", join(ref.EncodeSignalBody(sm.RatchetKey, sm.Counter, sm.Prev, sm.Ciphertext[16:]), sm.MAC))
		give("ciphertext cut by a block", join(ref.EncodeSignalBody(sm.RatchetKey, sm.Counter, sm.Prev, sm.Ciphertext[:len(sm.Ciphertext)-16]), sm.MAC))
	}
	give("ciphertext extended by a block", join(ref.EncodeSignalBody(sm.RatchetKey, sm.Counter, sm.Prev, append(clone(sm.Ciphertext), sm.Ciphertext...)), sm.MAC))
	give("empty ciphertext", join(ref.EncodeSignalBody(sm.RatchetKey, sm.Counter, sm.Prev, nil), sm.MAC))
	for _, v := range []byte{0x30, 0x34, 0x3f, 0x32} {
		give("other minor version", append(append([]byte{v}, sm.Body[1:]...), sm.MAC...))
	}
	// forged tags that need no key
	for _, mac := range [][]byte{make([]byte, 8), bytes.Repeat([]byte{0xff}, 8), sm.Body[:8], ref.HMAC(make([]byte, 32), m.From.P.KP.PublicKey().Bytes(), m.To.P.KP.PublicKey().Bytes(), sm.Body)[:8]} {
		body := ref.EncodeSignalBody(sm.RatchetKey, sm.Counter, sm.Prev, sm.Ciphertext)
		give("forged tag", join(body, mac))
	}
	// made-up messages on a known or new ratchet key
	for k := 0; k < 4; k++ {
		rk := sm.RatchetKey
		if k%2 == 1 {
			rk = ref.GenKP(t.R).Pub
		}
		ct := make([]byte, 16*(1+t.Rng.IntN(3)))
		t.R.Read(ct)
		body := ref.EncodeSignalBody(rk, sm.Counter+uint32(k), sm.Prev, ct)
		mac := make([]byte, 8)
		t.R.Read(mac)
		give("made up without keys", join(body, mac))
	}
}

// misdirect03 delivers genuine messages to the wrong place.
func misdirect03(t *T, i int) {
	s := scene03(t, 20+t.Rng.IntN(120))
	bk := s.book()
	msgs := append(append([]*Msg(nil), s.Flight...), s.Done...)
	for k := 0; k < 25 && len(msgs) > 0; k++ {
		m := msgs[t.Rng.IntN(len(msgs))]
		for _, n := range s.Nodes {
			for _, o := range s.Nodes {
				if n == o || (n == m.To && o == m.From) {
					continue
				}
				kind := "misdirected"
				if n == m.From && o == m.To {
					kind = "reflected"
				}
				for _, unwrap := range []bool{false, true} {
					typ, w := m.Typ, m.Wire
					if unwrap {
						typ, w = message.WhisperType, m.Inner
					}
					if typ == message.PreKeyType && n == m.To && idOf(o.P.KP) == idOf(m.From.P.KP) {
						continue // the same user: the identity that speaks is the one attributed
					}
					if typ == message.WhisperType && unwrap && m.Typ != message.PreKeyType {
						continue
					}
					t.Seen(kind, typ, n == m.To, n == m.From, o == m.From, m.Accepted > 0)
					present03(t, n, o.Addr, typ, w, bk, kind)
				}
				// attach one's own handshake to someone else's message
				if o.Recs[n.Addr] != nil && o.Recs[n.Addr].cur != nil {
					h := o.Recs[n.Addr].cur.hs
					if h.alice == o && h.baseKey != nil {
						w := &ref.PreKeyMsg{RegID: o.P.Reg, SignedID: uint32(h.signedID), BaseKey: h.baseKey, IdentityKey: []byte(idOf(o.P.KP)), Message: m.Inner}
						present03(t, n, o.Addr, message.PreKeyType, ref.EncodePreKey(w), bk, kind+" in another handshake")
					}
				}
			}
		}
	}
}

// impostor03: someone without alice's private key claims to be alice.
func impostor03(t *T, i int) {
	s := newSim(t, "alice 1", "bob 1")
	a, b := s.Nodes[0], s.Nodes[1]
	if i%3 > 0 { // bob knows alice
		p := profiles[0]
		p.ops = 10 + t.Rng.IntN(30)
		s.run(p, driver03(t))
	}
	bk := s.book()
	bun := refBundle(b.bundle(i%2 == 0))
	mal := ref.GenKP(t.R)
	base := ref.GenKP(t.R)
	aliceID := a.P.KP.PublicKey().Bytes()
	dh := func(priv, pub []byte) []byte { x, _ := ref.DH(priv, pub); return x }
	dh1 := dh(mal.Priv, bun.SignedKey)
	dh2 := dh(base.Priv, bun.Identity)
	dh3 := dh(base.Priv, bun.SignedKey)
	var dh4 [][]byte
	if bun.PreKey != nil {
		dh4 = [][]byte{dh(base.Priv, bun.PreKey)}
	}
	zero := make([]byte, 32)
	variants := map[string][][]byte{
		"own key in place of hers": {dh1, dh2, dh3},
		"without identity share":   {dh2, dh3},
		"zero identity share":      {zero, dh2, dh3},
		"identity share repeated":  {dh2, dh2, dh3},
		"identity share from base": {dh3, dh2, dh3},
		"only ephemeral shares":    {dh3},
		"no shares":                {},
		"exchanged shares":         {dh2, dh1, dh3},
		"public key as share":      {aliceID[1:], dh2, dh3},
	}
	for name, dhs := range variants {
		for _, w4 := range []bool{true, false} {
			x := append([][]byte(nil), dhs...)
			if w4 {
				x = append(x, dh4...)
			} else if dh4 == nil {
				continue
			}
			m := ref.AliceFromDH(t.R, base, aliceID, a.P.Reg, bun, x)
			_, wire := m.Encrypt([]byte("it is me, alice"))
			t.Seen("impostor", name, w4, len(dh4), i%3 > 0)
			present03(t, b, a.Addr, message.PreKeyType, wire, bk, "impostor: "+name)
			pm, _ := ref.ParsePreKey(wire)
			present03(t, b, a.Addr, message.WhisperType, pm.Message, bk, "impostor: "+name)
		}
	}
	// the impostor's own valid session, with alice's identity key put into the wrapper
	if ms, err := ref.NewAlice(t.R, mal, 7, bun); err == nil {
		_, wire := ms.Encrypt([]byte("hello"))
		pm, _ := ref.ParsePreKey(wire)
		pm.IdentityKey = aliceID
		present03(t, b, a.Addr, message.PreKeyType, ref.EncodePreKey(pm), bk, "impostor: wrapper with her identity")
		if i%3 > 0 && len(b.P.Known) > 0 { // bob has pinned alice's key: the impostor's own identity must not pass for her
			if _, ok, _ := b.P.St.in.IdentityStore().Load(ctx, a.Addr); ok {
				present03(t, b, a.Addr, message.PreKeyType, wire, bk, "impostor: own identity under her address")
			}
		}
	}
	// man in the middle answering alice: she set up a session from bob's bundle; mallory lacks bob's private keys
	if err := s.handshake(a, b, i%2 == 1); err != nil {
		t.Skip("%v", err)
	}
	m, err := s.send(a, b, []byte("for bob only"))
	if err != nil {
		t.Skip("%v", err)
	}
	if pm, err := ref.ParsePreKey(m.Wire); err == nil {
		spk := ref.GenKP(t.R)
		fake := ref.NewBob(t.R, mal, 1, spk, nil, pm.IdentityKey, pm.BaseKey)
		if pt, err := fake.Decrypt(pm.Message); err == nil {
			t.Violate("an outsider decrypts alice's message: %s", pt)
		}
		fake.Local = b.P.KP.PublicKey().Bytes()
		_, w := fake.Encrypt([]byte("it is me, bob"))
		present03(t, a, b.Addr, message.WhisperType, w, bk, "impostor: answering as bob")
	}
}

// mac03 checks what a tag binds, on the message API.
func mac03(t *T, i int) {
	ks := make([]identity.Key, 3)
	for j := range ks {
		ks[j] = must(identity.GenerateKeyPair(t.R)).IdentityKey()
	}
	if i%3 == 1 { // identity keys which are almost the same
		for j := 1; j < len(ks); j++ {
			ks[j] = must(identity.NewKey(flip(ks[0].Bytes(), 1+(i/3+j*11)%32, 1<<t.Rng.IntN(8))))
		}
	}
	rk := must(curve.GenerateKeyPair(t.R)).PublicKey()
	key := make([]byte, 32)
	t.R.Read(key)
	ct := make([]byte, 16*t.Rng.IntN(6))
	t.R.Read(ct)
	snd, rcv := ks[0], ks[1]
	if i%10 == 0 {
		rcv = snd
	}
	msg, err := message.NewSignal(message.SignalConfig{Version: 3, MACKey: key, SenderRatchetKey: rk, PreviousCounter: t.Rng.Uint32() >> t.Rng.IntN(32), Counter: t.Rng.Uint32() >> t.Rng.IntN(32), Ciphertext: ct, SenderIdentityKey: snd, ReceiverIdentityKey: rcv})
	if err != nil {
		t.Skip("NewSignal: %v", err)
	}
	wire := clone(msg.Bytes())
	verify := func(w, k []byte, a, b identity.Key) bool {
		m, err := message.NewSignalFromBytes(clone(w))
		if err != nil {
			return false
		}
		ok, err := m.(*message.Signal).VerifyMAC(clone(k), a, b)
		t.Count("MAC verifications", 1)
		t.Eval()
		if err != nil && ok {
			t.Violate("VerifyMAC says true with error %v", err)
		}
		return ok
	}
	if !verify(wire, key, snd, rcv) {
		t.Skip("genuine tag does not verify")
	}
	sm, _ := ref.ParseSignal(wire)
	if want := ref.HMAC(key, snd.Bytes(), rcv.Bytes(), sm.Body)[:8]; !bytes.Equal(want, sm.MAC) {
		t.Violate("tag %x is not the HMAC over sender, receiver and body (%x)", sm.MAC, want)
	}
	all := append([]identity.Key{}, ks...)
	for _, x := range all {
		for _, y := range all {
			if x.Equal(snd) && y.Equal(rcv) {
				continue
			}
			if verify(wire, key, x, y) {
				t.Violate("a tag made for %x -> %x verifies for %x -> %x", snd.Bytes(), rcv.Bytes(), x.Bytes(), y.Bytes())
			}
		}
	}
	for k := range key {
		for _, x := range []byte{1, 0x80, byte(1 + t.Rng.IntN(255))} {
			if verify(wire, flip(key, k, x), snd, rcv) {
				t.Violate("tag verifies under a key altered in byte %d", k)
			}
		}
	}
	for _, bad := range [][]byte{nil, {}, key[:31], key[:16], append(clone(key), 0), append(clone(key), key...), make([]byte, 32)} {
		if verify(wire, bad, snd, rcv) {
			t.Violate("tag verifies under key %x, made with %x", bad, key)
		}
		m, _ := message.NewSignalFromBytes(clone(wire))
		if _, err := m.(*message.Signal).VerifyMAC(bad, snd, rcv); err == nil && len(bad) != 32 {
			t.Violate("a MAC key of %d bytes is not refused", len(bad))
		}
	}
	for k := range wire {
		for _, x := range []byte{1 << t.Rng.IntN(8), byte(1 + t.Rng.IntN(255))} {
			if verify(flip(wire, k, x), key, snd, rcv) {
				t.Violate("tag verifies after byte %d of the message was altered", k)
			}
		}
	}
	for k := 1; k < 16 && k < len(wire); k++ {
		if verify(wire[:len(wire)-k], key, snd, rcv) {
			t.Violate("tag verifies for a truncated message")
		}
	}
	t.Seen("mac", i)
}

var large03Sizes = []int{500, 1000, 1024, 2048, 4095, 8192, 20_000, 65_536, 70_001, 300_000}

// spots picks places all over a long byte string: near both ends, around powers of two from either end, and at random.
func spots(t *T, n, random int) []int {
	at := map[int]bool{0: true, n - 1: true}
	for p := 1; p < n; p *= 2 {
		at[p], at[p-1], at[n-p], at[n-p-1+p/n] = true, true, true, true
	}
	for ; random > 0; random-- {
		at[t.Rng.IntN(n)] = true
	}
	var out []int
	for p := range at {
		if p >= 0 && p < n {
			out = append(out, p)
		}
	}
	sort.Ints(out)
	return out
}

// large03 tampers with long messages.
func large03(t *T, i int) {
	s := newSim(t, "alice 1", "bob 1")
	a, b := s.Nodes[0], s.Nodes[1]
	ok02(t, s.handshake(a, b, i%2 == 0))
	n := large03Sizes[i%len(large03Sizes)]
	if i%3 > 0 {
		m, err := s.send(a, b, []byte("first"))
		ok02(t, err)
		s.deliver(m, false)
		if i%3 > 1 {
			m, err = s.send(b, a, []byte("reply"))
			ok02(t, err)
			s.deliver(m, false)
		}
	}
	m, err := s.send(a, b, randBytes(t, n))
	ok02(t, err)
	bk := s.book()
	for _, k := range spots(t, len(m.Inner), 30) {
		in := flip(m.Inner, k, 1<<t.Rng.IntN(8))
		present03(t, b, a.Addr, message.WhisperType, in, bk, "long message with a flipped bit")
		if m.Typ == message.PreKeyType {
			present03(t, b, a.Addr, message.PreKeyType, ref.EncodePreKey(func() *ref.PreKeyMsg { w := wrapper(m, nil); w.Message = in; return w }()), bk, "long message with a flipped bit")
		}
	}
	sm, err := ref.ParseSignal(m.Inner)
	ok02(t, err)
	for k := 0; k < 40; k++ { // blocks dropped, doubled, exchanged
		ct := clone(sm.Ciphertext)
		blocks := len(ct) / 16
		x, y := 16*t.Rng.IntN(blocks), 16*t.Rng.IntN(blocks)
		switch k % 4 {
		case 0:
			ct = append(ct[:x], ct[x+16:]...)
		case 1:
			ct = append(ct[:x:x], append(clone(ct[y:y+16]), ct[x:]...)...)
		case 2:
			copy(ct[x:x+16], sm.Ciphertext[y:])
		case 3:
			ct = ct[min(x, y):max(x, y)]
		}
		if bytes.Equal(ct, sm.Ciphertext) {
			continue
		}
		w := append(append([]byte{0x33}, ref.EncodeSignalBody(sm.RatchetKey, sm.Counter, sm.Prev, ct)...), sm.MAC...)
		present03(t, b, a.Addr, message.WhisperType, w, bk, "long message with other blocks")
	}
	q := b.P.fork()
	if pt, err := q.receive(a.Addr, m.Typ, m.Wire); err != nil || !bytes.Equal(pt, m.Plain) {
		t.Skip("the untouched message is not accepted: %v", err)
	}
	t.Seen("large", n, m.Typ, i%3)
}
