package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"

	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:     "C06",
		Rule:   "genuine bundles with ids over the whole 32-bit range, forged bundles (every bit of the signature, every byte of the keys, other signers and signed data), handshakes naming unknown, foreign or spent pre-keys, bundles shared by several initiators, in random histories; pre-key store contents and every deletion are monitored; distinct by (kind, ids class, session shape)",
		Run:    runC06,
		Assume: []string{"bundles with one-time pre-key id 0 are a known finding and judged apart"},
	})
}

func runC06(c *C) {
	c.Cases("forged-bundle", c.N(24, 600), forged06)
	c.Cases("ids", c.N(200, 6000), ids06)
	c.Cases("unknown", c.N(120, 4000), unknown06)
	c.Cases("history", c.N(160, 6000), history06)
	c.Cases("shared", c.N(120, 4000), shared06)
	c.Cases("reissued", c.N(120, 4000), reissued06)
	c.One("id-zero", zero06)
	c.Require("forged bundles refused", 5000)
	c.Require("handshakes parsed", 1000)
	c.Require("later handshake messages after their pre-key was spent", 300)
	c.Require("one-time pre-keys consumed", 500)
	c.Require("handshakes naming unusable pre-keys refused", 500)
}

// forged06 alters a genuine bundle in every way.
func forged06(t *T, i int) {
	s := newSim(t, "alice 1", "bob 1", "carol 1")
	a, b, x := s.Nodes[0], s.Nodes[1], s.Nodes[2]
	if i%2 == 1 { // alice already has a session with bob
		ok02(t, s.handshake(a, b, true))
		if d := s.converse(a, b, 1); d != "" {
			t.Skip("%s", d)
		}
	}
	bun := b.bundle(i%4 < 2)
	a.P.know(b.Addr)
	before := a.P.snapshot(nil)
	n := 0
	give := func(kind string, f prekey.Bundle) {
		err := a.P.Session(b.Addr).ProcessPreKeyBundle(ctx, a.P.R, &f)
		t.Eval()
		if err == nil {
			t.Violate("a bundle with %s was accepted", kind)
		}
		n++
		if n%16 == 0 || !strings.Contains(kind, "bit") {
			if d := diffSnap(before, a.P.snapshot(nil)); d != "" {
				t.Violate("a bundle with %s was refused but changed what is stored:\n%s", kind, d)
			}
		}
		t.Count("forged bundles refused", 1)
	}
	for k := 0; k < 64; k++ {
		for bit := 0; bit < 8; bit++ {
			f := *bun
			f.SignedPreKeySignature = flip(bun.SignedPreKeySignature, k, 1<<bit)
			give(fmt.Sprintf("signature bit %d of byte %d flipped", bit, k), f)
		}
	}
	for k := 0; k < 33; k++ {
		for bit := 0; bit < 8; bit++ {
			if pk, err := curve.NewPublicKey(flip(bun.SignedPreKeyPublic.Bytes(), k, 1<<bit)); err == nil {
				f := *bun
				f.SignedPreKeyPublic = pk
				give(fmt.Sprintf("signed pre-key bit %d of byte %d flipped", bit, k), f)
			}
			if k == 32 && bit == 7 {
				continue // the same curve point in another encoding
			}
			if pk, err := identity.NewKey(flip(bun.IdentityKey.Bytes(), k, 1<<bit)); err == nil {
				f := *bun
				f.IdentityKey = pk
				give(fmt.Sprintf("identity key bit %d of byte %d flipped", bit, k), f)
			}
		}
	}
	sign := func(kp identity.KeyPair, parts ...[]byte) []byte { return must(kp.PrivateKey().Sign(t.R, parts...)) }
	pub := bun.SignedPreKeyPublic.Bytes()
	other := must(curve.GenerateKeyPair(t.R)).PublicKey()
	sigs := map[string][]byte{
		"no signature":                        nil,
		"an empty signature":                  {},
		"a zero signature":                    make([]byte, 64),
		"a signature by someone else":         sign(x.P.KP, pub),
		"a signature by the receiver herself": sign(a.P.KP, pub),
		"a signature over the bare key":       sign(b.P.KP, pub[1:]),
		"a signature over nothing":            sign(b.P.KP),
		"a signature over the identity key":   sign(b.P.KP, bun.IdentityKey.Bytes()),
		"a signature over another key":        sign(b.P.KP, other.Bytes()),
		"a signature over more":               sign(b.P.KP, pub, []byte{0}),
		"a short signature":                   bun.SignedPreKeySignature[:63],
		"a long signature":                    append(clone(bun.SignedPreKeySignature), 0),
		"a doubled signature":                 append(clone(bun.SignedPreKeySignature), bun.SignedPreKeySignature...),
	}
	for kind, sg := range sigs {
		f := *bun
		f.SignedPreKeySignature = sg
		give(kind, f)
		t.Seen("forged", kind, i%4)
	}
	f := *bun
	f.SignedPreKeyPublic = other
	give("another signed pre-key", f)
	f = *bun
	f.IdentityKey = x.P.KP.IdentityKey()
	give("another identity", f)
	if bun.PreKeyPublic != nil {
		f = *bun
		f.SignedPreKeyPublic, f.PreKeyPublic = f.PreKeyPublic, f.SignedPreKeyPublic
		give("exchanged pre-keys", f)
	}
	// carol's whole bundle under bob's identity, and mixes
	xb := x.bundle(true)
	f = *xb
	f.IdentityKey = bun.IdentityKey
	give("someone else's pre-keys under this identity", f)
	f = *bun
	f.SignedPreKeyPublic = xb.SignedPreKeyPublic
	give("someone else's signed pre-key", f)
	f = *bun
	f.SignedPreKeySignature = xb.SignedPreKeySignature
	give("someone else's signature", f)
	// the genuine one is accepted afterwards
	if err := a.P.Session(b.Addr).ProcessPreKeyBundle(ctx, a.P.R, bun); err != nil {
		t.Violate("the genuine bundle is refused: %v", err)
	}
	if t.wantSample() {
		t.Sample(map[string]any{"forged bundles": n, "identity": hexs(bun.IdentityKey.Bytes())})
	}
}

func anyID(t *T) uint32 {
	switch t.Rng.IntN(8) {
	case 0:
		return 1
	case 1:
		return 1<<31 - 1
	case 2:
		return 1 << 31
	case 3:
		return ^uint32(0)
	case 4:
		return 1<<24 + t.Rng.Uint32N(4)
	case 5:
		return 1<<31 | t.Rng.Uint32()
	default:
		return 1 + t.Rng.Uint32()>>t.Rng.IntN(32)
	}
}

// ids06 walks one handshake with given ids through both sides.
func ids06(t *T, i int) {
	s := newSim(t, "alice 1", "bob 1")
	a, b := s.Nodes[0], s.Nodes[1]
	if t.Rng.IntN(3) == 0 {
		s.persistSome()
	}
	a.P.Reg = anyID(t)
	if i%5 == 0 {
		a.P.Reg = 0
	}
	a.P.St.in = newStores(a.P.KP, a.P.Reg).in
	spk := prekey.ID(anyID(t))
	if i%7 == 0 {
		spk = 0
	}
	b.P.AddSigned(spk)
	s.BadWire = func(f string, x ...any) {
		if strings.Contains(f, "handshake") || strings.Contains(f, "base key") {
			t.Violate(f, x...)
		}
	}
	bun := b.P.Bundle(false)
	var id prekey.ID
	if i%3 > 0 {
		id = prekey.ID(anyID(t))
		b.P.AddPreKey(id)
		b.Avail[id] = true
		bun.PreKeyID, bun.PreKeyPublic = &id, b.P.PreKeys[id].PublicKey()
	}
	if err := s.handshakeWith(a, b, bun); err != nil {
		t.Violate("genuine bundle (pre-key %v, signed pre-key %v) refused: %v", bun.PreKeyID, spk, err)
	}
	k := 1 + t.Rng.IntN(5)
	for j := 0; j < k; j++ {
		if _, err := s.send(a, b, plaintextOf(t.Rng, t.R)); err != nil {
			t.Skip("%v", err)
		}
		t.Count("handshakes parsed", 1)
	}
	ms := s.Flight
	s.Flight = nil
	t.Rng.Shuffle(len(ms), func(x, y int) { ms[x], ms[y] = ms[y], ms[x] })
	b.P.St.logging = true
	for j, m := range ms {
		if bun.PreKeyID != nil {
			if _, ok, _ := b.P.St.in.PreKeyStore().Load(ctx, id); ok != (j == 0) {
				t.Violate("one-time pre-key %v present: %v after %d accepted messages", id, ok, j)
			}
		}
		r := s.deliver(m, false)
		t.Eval()
		if !r.OK || !bytes.Equal(r.Plain, m.Plain) {
			t.Violate("handshake with pre-key %v, signed pre-key %v, registration %d is not accepted: %v", bun.PreKeyID, spk, a.P.Reg, r.Err)
		}
	}
	dels := 0
	for _, o := range b.P.St.log {
		if o.Op == "prekey.Delete" {
			dels++
			if bun.PreKeyID == nil || o.Key != fmt.Sprint(id) {
				t.Violate("pre-key %s deleted, the handshake used %v", o.Key, bun.PreKeyID)
			}
		}
	}
	if bun.PreKeyID != nil {
		if _, ok, _ := b.P.St.in.PreKeyStore().Load(ctx, id); ok || dels == 0 {
			t.Violate("one-time pre-key %v is still there after the handshake was accepted (%d deletions)", id, dels)
		}
		t.Count("one-time pre-keys consumed", 1)
	}
	t.Seen("ids", bun.PreKeyID != nil, uint32(id)>>24, uint32(spk)>>24, k)
	if d := s.converse(b, a, 2); d != "" {
		t.Skip("%s", d)
	}
	if t.wantSample() {
		t.Sample(map[string]any{"pre-key": fmt.Sprint(bun.PreKeyID), "signed": fmt.Sprint(spk), "reg": a.P.Reg})
	}
}

// unknown06 presents handshakes made by an independent initiator that name pre-keys which cannot serve.
func unknown06(t *T, i int) {
	s := newSim(t, "alice 1", "bob 1")
	b := s.Nodes[1]
	from := address.Address{Name: "alice", DeviceID: 1}
	b.P.know(from)
	id := ref.GenKP(t.R)
	var had *ref.Session
	if i%3 == 0 { // there is a session already
		rb := refBundle(b.bundle(i%4 < 2))
		ms, err := ref.NewAlice(t.R, id, 5, rb)
		had = ms
		ok02(t, err)
		_, w := ms.Encrypt([]byte("hello"))
		if _, err := b.P.receive(from, message.PreKeyType, w); err != nil {
			t.Violate("genuine handshake refused: %v", err)
		}
		if i%2 == 0 {
			if ct, err := b.P.Session(from).EncryptMessage(ctx, []byte("back")); err == nil {
				ms.Decrypt(inner(ct.Type(), ct.Bytes()))
			}
		}
	}
	spare := b.bundle(true) // another one-time pre-key in the store, to be spared
	_ = spare
	oneTime := i%2 == 0
	rb := refBundle(b.bundle(oneTime))
	ms, err := ref.NewAlice(t.R, id, 5, rb)
	ok02(t, err)
	_, w := ms.Encrypt([]byte("hello"))
	pm, err := ref.ParsePreKey(w)
	ok02(t, err)
	before := b.P.snapshot(nil)
	refuse := func(kind string, m *ref.PreKeyMsg) {
		t.Eval()
		pt, err := b.P.receive(from, message.PreKeyType, ref.EncodePreKey(m))
		if err == nil || pt != nil {
			t.Violate("a handshake with %s was accepted (%s)", kind, hexs(pt))
		}
		if d := diffSnap(before, b.P.snapshot(nil)); d != "" {
			t.Violate("a handshake with %s was refused (%v) but changed what is stored:\n%s", kind, err, d)
		}
		t.Count("handshakes naming unusable pre-keys refused", 1)
		t.Seen("unknown", kind, oneTime, i%3 == 0)
	}
	alter := func(f func(m *ref.PreKeyMsg)) *ref.PreKeyMsg {
		m := *pm
		f(&m)
		return &m
	}
	for k := 0; k < 4; k++ {
		u := t.Rng.Uint32()
		if _, held := b.P.Signed[prekey.ID(u)]; !held {
			refuse("an unknown signed pre-key", alter(func(m *ref.PreKeyMsg) { m.SignedID = u }))
		}
		if _, held := b.P.PreKeys[prekey.ID(u)]; !held && u != 0 {
			refuse("an unknown one-time pre-key", alter(func(m *ref.PreKeyMsg) { m.PreKeyID = &u }))
		}
	}
	refuse("the next signed pre-key", alter(func(m *ref.PreKeyMsg) { m.SignedID++ }))
	old := uint32(b.P.RotateSigned())
	before = b.P.snapshot(nil)
	refuse("a signed pre-key that was not used", alter(func(m *ref.PreKeyMsg) { m.SignedID = old }))
	sp := uint32(*spare.PreKeyID)
	refuse("a one-time pre-key that was not used", alter(func(m *ref.PreKeyMsg) { m.PreKeyID = &sp }))
	if oneTime {
		refuse("the one-time pre-key left out", alter(func(m *ref.PreKeyMsg) { m.PreKeyID = nil }))
	}
	refuse("another base key", alter(func(m *ref.PreKeyMsg) { m.BaseKey = ref.GenKP(t.R).Pub }))
	refuse("another identity", alter(func(m *ref.PreKeyMsg) { m.IdentityKey = ref.GenKP(t.R).Pub }))
	refuse("an altered message", alter(func(m *ref.PreKeyMsg) { m.Message = flip(m.Message, len(m.Message)-1, 1) }))
	if had != nil { // messages of the session that is there, in handshakes that did not establish it
		typ, w := had.Encrypt([]byte("next"))
		next := inner(message.CiphertextType(typ), w)
		for _, x := range []struct {
			kind string
			pre  *uint32
		}{{"without a one-time pre-key", nil}, {"naming a one-time pre-key", &sp}} {
			refuse("a message of another session under a new base key, "+x.kind, alter(func(m *ref.PreKeyMsg) {
				m.Message, m.PreKeyID, m.BaseKey = next, x.pre, ref.GenKP(t.R).Pub
			}))
			refuse("a message of another session under another session's base key, "+x.kind, alter(func(m *ref.PreKeyMsg) {
				m.Message, m.PreKeyID = next, x.pre
			}))
		}
		defer func() {
			if pt, err := b.P.receive(from, message.CiphertextType(typ), w); err != nil || string(pt) != "next" {
				t.Violate("the genuine message is refused after the others: %v", err)
			}
		}()
	}
	// unknown to the recipient although consistently made: keys that were never published, ids not held
	ghost := ref.GenKP(t.R)
	gb := *rb
	u := t.Rng.Uint32() | 1
	if _, held := b.P.PreKeys[prekey.ID(u)]; !held {
		gb.PreKeyID, gb.PreKey = &u, ghost.Pub
		if gm, err := ref.NewAlice(t.R, id, 5, &gb); err == nil {
			_, w := gm.Encrypt([]byte("boo"))
			x, _ := ref.ParsePreKey(w)
			refuse("a one-time pre-key the recipient never had", x)
		}
	}
	// names an unknown one-time pre-key but computed without any
	gb = *rb
	gb.PreKeyID, gb.PreKey = nil, nil
	if gm, err := ref.NewAlice(t.R, id, 5, &gb); err == nil {
		_, w := gm.Encrypt([]byte("boo"))
		x, _ := ref.ParsePreKey(w)
		x.PreKeyID = &u
		if _, held := b.P.PreKeys[prekey.ID(u)]; !held {
			refuse("an unknown one-time pre-key not used in the secret", x)
		}
		x.PreKeyID = &sp
		refuse("a held one-time pre-key not used in the secret", x)
	}
	// the genuine one
	if pt, err := b.P.receive(from, message.PreKeyType, w); err != nil || string(pt) != "hello" {
		t.Violate("the genuine handshake is refused after the others: %v", err)
	}
	if oneTime {
		if _, ok, _ := b.P.St.in.PreKeyStore().Load(ctx, prekey.ID(*rb.PreKeyID)); ok {
			t.Violate("the one-time pre-key was not deleted")
		}
		t.Count("one-time pre-keys consumed", 1)
		// a second session with the spent key
		for k := 0; k < 2; k++ {
			x, err := ref.NewAlice(t.R, id, 5, rb)
			ok02(t, err)
			_, w := x.Encrypt([]byte("again"))
			before = b.P.snapshot(nil)
			m, _ := ref.ParsePreKey(w)
			refuse("a spent one-time pre-key", m)
		}
	}
	if _, ok, _ := b.P.St.in.PreKeyStore().Load(ctx, *spare.PreKeyID); !ok {
		t.Violate("an unused one-time pre-key was deleted")
	}
}

// watchPreKeys compares the pre-key store of every party with the model.
func watchPreKeys(t *T, s *Sim) {
	for _, n := range s.Nodes {
		for id := range n.P.PreKeys {
			_, ok, _ := n.P.St.in.PreKeyStore().Load(ctx, id)
			if ok != n.Avail[id] {
				t.Violate("%v: one-time pre-key %v is in the store: %v; by the accepted messages it should be: %v", n.Addr, id, ok, n.Avail[id])
			}
		}
	}
}

func badHandshake06(t *T) func(string, ...any) {
	return func(f string, x ...any) {
		if strings.Contains(f, "handshake") || strings.Contains(f, "base key") {
			t.Violate(f, x...)
		}
	}
}

// history06 monitors pre-keys and handshakes over random histories.
func history06(t *T, i int) {
	s := randomTopology(t)
	s.persistSome()
	s.BadWire = badHandshake06(t)
	p := profiles[[]int{0, 1, 3, 3, 5}[i%5]]
	p.ops = 180
	p.oneTime = 75
	d := driver03(t)
	d.onDeliver = func(m *Msg, r Result, replay bool) {
		if r.OK != (r.Pred == pAccept) {
			if r.OK && m.Typ == message.PreKeyType && m.HS.preKeyID != nil && !m.To.Avail[*m.HS.preKeyID] {
				if st := m.To.Recs[m.From.Addr]; st == nil || st.find(m.HS) == nil {
					t.Violate("%v established a session with one-time pre-key %v which was spent", m, *m.HS.preKeyID)
				}
			}
			t.Skip("%v: model %v, library %v", m, r.Pred, r.Err)
		}
		if r.OK && r.How.newSession && m.HS.preKeyID != nil {
			t.Count("one-time pre-keys consumed", 1)
		}
		t.Seen("history", r.How.String(), r.Pred, m.HS.preKeyID != nil, replay)
	}
	d.onShakeErr = func(a, b *Node, err error) { t.Violate("genuine bundle refused: %v", err) }
	d.after = func() { watchPreKeys(t, s); t.Eval() }
	s.run(p, d)
	t.Count("handshakes parsed", int64(s.nhs))
}

// shared06: one bundle is handed to several initiators and several times to the same.
func shared06(t *T, i int) {
	s := newSim(t, "alice 1", "bob 1", "carol 1", "dave 1")
	s.BadWire = badHandshake06(t)
	b := s.Nodes[1]
	var ms []*Msg
	for r := 0; r < 3; r++ {
		bun := b.bundle(true)
		for k := 2 + t.Rng.IntN(3); k > 0; k-- {
			a := s.Nodes[[]int{0, 2, 3}[t.Rng.IntN(3)]]
			if err := s.handshakeWith(a, b, bun); err != nil {
				t.Violate("genuine bundle refused: %v", err)
			}
			for j := 1 + t.Rng.IntN(3); j > 0; j-- {
				m, err := s.send(a, b, plaintextOf(t.Rng, t.R))
				ok02(t, err)
				ms = append(ms, m)
			}
		}
	}
	owner := map[prekey.ID]*hs{}
	for pass := 0; pass < 2; pass++ {
		for _, j := range t.Rng.Perm(len(ms)) {
			m := ms[j]
			r := s.deliver(m, false)
			t.Eval()
			if r.OK {
				if o := owner[*m.HS.preKeyID]; o != nil && o != m.HS {
					t.Violate("one-time pre-key %v served handshake %d and then handshake %d", *m.HS.preKeyID, o.id, m.HS.id)
				}
				owner[*m.HS.preKeyID] = m.HS
			} else if r.Pred == pAccept {
				t.Skip("%v refused: %v", m, r.Err)
			}
			watchPreKeys(t, s)
			t.Seen("shared", r.OK, r.Pred, pass)
		}
	}
	t.Count("one-time pre-keys consumed", int64(len(owner)))
}

// reissued06: later messages of a handshake, with the wrapper as sent or altered, never delete a pre-key: neither
// one stored anew under the id the handshake used, nor another one the altered wrapper names.
func reissued06(t *T, i int) {
	b := newParty(t, "bob", 1)
	addr := func(k int) address.Address { return address.Address{Name: fmt.Sprint("peer", k), DeviceID: 1} }
	type msg struct {
		peer int
		w    []byte
		text string
	}
	var late []msg
	held := map[prekey.ID]bool{} // pre-keys that must be in the store
	store := func(what string) {
		t.Eval()
		for id, want := range held {
			k, ok, _ := b.St.in.PreKeyStore().Load(ctx, id)
			if ok != want {
				t.Violate("%s: one-time pre-key %v is in the store: %v, should be: %v", what, id, ok, want)
			}
			if ok && !must(k.KeyPair()).PublicKey().Equal(b.PreKeys[id].PublicKey()) {
				t.Violate("%s: one-time pre-key %v was replaced", what, id)
			}
		}
	}
	first := uint32(10 + t.Rng.IntN(1000))
	ids := []prekey.ID{prekey.ID(first), prekey.ID(first + 1), prekey.ID(first + 2)}
	kps := map[int]*ref.KP{}
	for round := 0; round < 6; round++ {
		id := ids[t.Rng.IntN(len(ids))]
		if !held[id] { // (re-)issue, or use one issued earlier
			b.AddPreKey(id)
			held[id] = true
		}
		spare := ids[t.Rng.IntN(len(ids))]
		if !held[spare] && t.Rng.IntN(2) == 0 {
			b.AddPreKey(spare)
			held[spare] = true
		}
		bun := b.Bundle(false)
		bun.PreKeyID, bun.PreKeyPublic = &id, b.PreKeys[id].PublicKey()
		peer := t.Rng.IntN(3)
		b.know(addr(peer))
		if kps[peer] == nil {
			kp := ref.GenKP(t.R)
			kps[peer] = &kp
		}
		x, err := ref.NewAlice(t.R, *kps[peer], 5, refBundle(bun))
		ok02(t, err)
		var ms []msg
		for k := 1 + t.Rng.IntN(4); k >= 0; k-- {
			text := fmt.Sprint("round ", round, " message ", k)
			_, w := x.Encrypt([]byte(text))
			ms = append(ms, msg{peer, w, text})
		}
		j := t.Rng.IntN(len(ms))
		store("before a handshake")
		if pt, err := b.receive(addr(peer), message.PreKeyType, ms[j].w); err != nil || string(pt) != ms[j].text {
			t.Violate("genuine handshake with one-time pre-key %v refused: %v", id, err)
		}
		held[id] = false
		store("after a handshake")
		t.Count("one-time pre-keys consumed", 1)
		late = append(append(late, ms[:j]...), ms[j+1:]...)
		if t.Rng.IntN(2) == 0 {
			b.AddPreKey(id)
			held[id] = true
		}
		for k := t.Rng.IntN(3); k > 0 && len(late) > 0; k-- {
			j := t.Rng.IntN(len(late))
			m := late[j]
			late = append(late[:j:j], late[j+1:]...)
			pm, err := ref.ParsePreKey(m.w)
			ok02(t, err)
			how := t.Rng.IntN(4)
			switch v := uint32(ids[t.Rng.IntN(len(ids))]); how {
			case 1:
				pm.PreKeyID = &v
			case 2:
				pm.PreKeyID = nil
			case 3:
				pm.SignedID += 7
			}
			again := t.Rng.IntN(2)
			for r := 0; r <= again; r++ {
				pt, err := b.receive(addr(m.peer), message.PreKeyType, ref.EncodePreKey(pm))
				if r == 0 && how == 0 && (err != nil || string(pt) != m.text) {
					t.Violate("a later message of a known handshake was refused: %v", err)
				}
				if err == nil && string(pt) != m.text {
					t.Violate("a later message of a handshake decrypts to %q", pt)
				}
				store(fmt.Sprint("after a later message of a handshake, wrapper variant ", how))
			}
			t.Count("later handshake messages after their pre-key was spent", 1)
			t.Seen("reissued", how, again, held[id])
		}
	}
}

// zero06: the listed finding.
func zero06(t *T) {
	s := newSim(t, "alice 1", "bob 1")
	a, b := s.Nodes[0], s.Nodes[1]
	b.P.AddPreKey(0)
	id := prekey.ID(0)
	bun := b.P.Bundle(false)
	bun.PreKeyID, bun.PreKeyPublic = &id, b.P.PreKeys[0].PublicKey()
	if err := a.P.Session(b.Addr).ProcessPreKeyBundle(ctx, a.P.R, bun); err != nil {
		t.Violate("bundle with one-time pre-key id 0 refused: %v", err)
	}
	m, err := a.P.Session(b.Addr).EncryptMessage(ctx, []byte("zero"))
	if err != nil {
		t.Violate("encrypt: %v", err)
	}
	t.Eval()
	pm, err := ref.ParsePreKey(m.Bytes())
	if err != nil {
		t.Violate("handshake does not parse: %v", err)
	}
	if pm.PreKeyID == nil { // exactly the listed finding: id 0 is taken for no pre-key
		t.Known("a bundle whose one-time pre-key has id 0: the handshake leaves the id out and the recipient cannot decrypt")
		return
	}
	if *pm.PreKeyID != 0 {
		t.Violate("handshake names pre-key %d, the bundle's is 0", *pm.PreKeyID)
	}
	if pt, err := b.P.receive(a.Addr, m.Type(), m.Bytes()); err != nil || string(pt) != "zero" {
		t.Violate("handshake with one-time pre-key id 0 not accepted: %v", err)
	}
}
