package main

import (
	"bytes"
	"fmt"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"

	"verif/harness/ref"
)

// Sim is a network of library parties under an adversarial schedule.
type Sim struct {
	T      *T
	Nodes  []*Node
	Flight []*Msg // sent, not yet dropped; stays here after delivery for replays until dropped
	Done   []*Msg // accepted at least once
	nmsg   int
	nhs    int
	base   map[string]*hs
	// BadWire is told about every deviation of an emitted message from what the model expects.
	BadWire func(f string, a ...any)
}

func newSim(t *T, specs ...string) *Sim {
	s := &Sim{T: t, base: map[string]*hs{}}
	for _, sp := range specs {
		var name string
		var dev uint32
		fmt.Sscanf(sp, "%s %d", &name, &dev)
		s.addNode(newParty(t, name, dev))
	}
	return s
}

func (s *Sim) addNode(p *Party) *Node {
	n := &Node{Sim: s, P: p, Addr: p.Addr, Recs: map[address.Address]*mRecord{}, Avail: map[prekey.ID]bool{}}
	s.Nodes = append(s.Nodes, n)
	return n
}

func idOf(kp identity.KeyPair) string { return string(kp.PublicKey().Bytes()) }

func (n *Node) bundle(oneTime bool) *prekey.Bundle {
	b := n.P.Bundle(oneTime)
	if b.PreKeyID != nil {
		n.Avail[*b.PreKeyID] = true
	}
	return b
}

// handshake makes a fetch a bundle of b and start a session.
func (s *Sim) handshake(a, b *Node, oneTime bool) error {
	bun := b.bundle(oneTime)
	return s.handshakeWith(a, b, bun)
}

func (s *Sim) handshakeWith(a, b *Node, bun *prekey.Bundle) error {
	a.P.bundle = bun
	err := a.P.Session(b.Addr).ProcessPreKeyBundle(a.P.begin("handshake", b.Addr, distribution.ID{}, nil), a.P.R, bun)
	s.T.Logf("%v handshake with %v (one-time %v signed %v) -> %v", a.Addr, b.Addr, bun.PreKeyID != nil, bun.SignedPreKeyID, err)
	watch.err(err)
	a.P.done(nil, err)
	if err != nil {
		return err
	}
	s.nhs++
	h := &hs{id: s.nhs, alice: a, bob: b, aliceID: idOf(a.P.KP), bobID: string(bun.IdentityKey.Bytes()), spk: &tok{pub: bun.SignedPreKeyPublic.Bytes()}, preKeyID: bun.PreKeyID, signedID: bun.SignedPreKeyID, aliceReg: a.P.Reg, aliceAddr: a.Addr}
	st := &mState{hs: h, alice: true, pending: true, peerID: h.bobID}
	st.recv = []*mChain{{tok: h.spk}}
	st.sendTok = &tok{parent: h.spk}
	r := a.Recs[b.Addr]
	if r == nil {
		r = &mRecord{}
	}
	nr := &mRecord{cur: r.cur, prev: r.prev}
	nr.promote(st)
	a.Recs[b.Addr] = nr
	s.T.Count("handshakes", 1)
	return nil
}

// send encrypts and registers a message; nil if the library refused.
func (s *Sim) send(a, b *Node, pt []byte) (*Msg, error) {
	ct, err := a.P.Session(b.Addr).EncryptMessage(a.P.begin("encrypt", b.Addr, distribution.ID{}, pt), clone(pt))
	watch.err(err)
	if err != nil {
		a.P.done(nil, err)
		s.T.Logf("%v send to %v -> error %v", a.Addr, b.Addr, err)
		return nil, err
	}
	a.P.done(ct.Bytes(), nil)
	return s.registerSent(a, b, pt, ct), nil
}

func (s *Sim) registerSent(a, b *Node, pt []byte, ct message.Ciphertext) *Msg {
	rec := a.Recs[b.Addr]
	st := rec.cur.clone()
	m := &Msg{N: s.nmsg, From: a, To: b, Typ: ct.Type(), Wire: clone(ct.Bytes()), Plain: pt, HS: st.hs, Tok: st.sendTok, Index: st.sendN, PrevN: st.prevN, Peer: st.peerID}
	s.nmsg++
	m.Inner = inner(m.Typ, m.Wire)
	s.checkWire(m, st)
	st.sendN++
	a.Recs[b.Addr] = &mRecord{cur: st, prev: rec.prev}
	s.Flight = append(s.Flight, m)
	if s.nmsg < 3000 {
		s.T.Logf("%v sends %v (%d bytes)", a.Addr, m, len(pt))
	}
	s.T.Count("messages sent", 1)
	return m
}

func (s *Sim) bad(f string, a ...any) {
	if s.BadWire != nil {
		s.BadWire(f, a...)
	}
}

// checkWire compares the emitted bytes with the model and learns the public labels.
func (s *Sim) checkWire(m *Msg, st *mState) {
	sm, err := ref.ParseSignal(m.Inner)
	if err != nil {
		s.bad("%v: emitted message does not parse: %v", m, err)
		return
	}
	if st.sendTok.pub == nil {
		st.sendTok.pub = clone(sm.RatchetKey)
	} else if !bytes.Equal(st.sendTok.pub, sm.RatchetKey) {
		s.bad("%v: ratchet key changed within a chain", m)
	}
	if sm.Counter != m.Index || !sm.HasCounter {
		s.bad("%v: message number %d, expected %d", m, sm.Counter, m.Index)
	}
	if sm.Prev != m.PrevN || !sm.HasPrev {
		s.bad("%v: previous-chain counter %d, expected %d", m, sm.Prev, m.PrevN)
	}
	if st.pending != (m.Typ == message.PreKeyType) {
		s.bad("%v: handshake attached: %v, expected %v", m, m.Typ == message.PreKeyType, st.pending)
	}
	if m.Typ == message.PreKeyType {
		pm, err := ref.ParsePreKey(m.Wire)
		if err != nil {
			s.bad("%v: handshake does not parse: %v", m, err)
			return
		}
		h := st.hs
		if h.baseKey == nil {
			h.baseKey = clone(pm.BaseKey)
			if o := s.base[string(h.baseKey)]; o != nil && o != h {
				s.bad("%v: base key of handshake %d used again", m, o.id)
			}
			s.base[string(h.baseKey)] = h
		} else if !bytes.Equal(h.baseKey, pm.BaseKey) {
			s.bad("%v: base key changed within a session", m)
		}
		if string(pm.IdentityKey) != h.aliceID {
			s.bad("%v: handshake names identity %x, expected %x", m, pm.IdentityKey, h.aliceID)
		}
		if !pm.HasReg || pm.RegID != h.aliceReg {
			s.bad("%v: handshake names registration id %d, expected %d", m, pm.RegID, h.aliceReg)
		}
		if !pm.HasSigned || pm.SignedID != uint32(h.signedID) {
			s.bad("%v: handshake names signed pre-key %d, expected %d", m, pm.SignedID, h.signedID)
		}
		if (pm.PreKeyID == nil) != (h.preKeyID == nil) || (pm.PreKeyID != nil && *pm.PreKeyID != uint32(*h.preKeyID)) {
			s.bad("%v: handshake names pre-key %v, expected %v", m, fmtID(pm.PreKeyID), h.preKeyID)
		}
		if pm.VersionByte != 0x33 {
			s.bad("%v: version byte %#x", m, pm.VersionByte)
		}
	}
}

func fmtID(p *uint32) string {
	if p == nil {
		return "<nil>"
	}
	return fmt.Sprint(*p)
}

// Result is what happened at a delivery.
type Result struct {
	Pred  pred
	How   how
	Plain []byte
	Err   error
	OK    bool // the library accepted
	Typ   message.CiphertextType
}

// deliver presents m (as sent, or with its wrapper removed if unwrap) to its addressee and advances the model if the
// model says accept.
func (s *Sim) deliver(m *Msg, unwrap bool) Result {
	typ, wire := m.Typ, m.Wire
	if unwrap {
		typ, wire = message.WhisperType, m.Inner
	}
	n := m.To
	p, next, del, h := n.predict(n.Recs[m.From.Addr], m, typ)
	pt, err := n.P.receive(m.From.Addr, typ, wire)
	s.T.Logf("%v delivered%s: model %v (%v), library %s err=%v", m, map[bool]string{true: " unwrapped"}[unwrap], p, h, hexs(pt), err)
	res := Result{p, h, pt, err, err == nil, typ}
	if p == pAccept && err == nil {
		n.Recs[m.From.Addr] = next
		if del != nil {
			delete(n.Avail, *del)
		}
		m.Accepted++
		if m.Accepted == 1 {
			s.Done = append(s.Done, m)
		}
		s.T.Count("accepted: "+h.String(), 1)
		if h.evicted {
			s.T.Count("skipped keys evicted", 1)
		}
	} else if p == pDuplicate {
		s.T.Count("duplicates presented", 1)
	} else if p == pRefuse {
		s.T.Count("out-of-limits messages presented", 1)
	}
	return res
}

// drop removes message i from the network.
func (s *Sim) drop(i int) {
	s.Flight[i] = s.Flight[len(s.Flight)-1]
	s.Flight = s.Flight[:len(s.Flight)-1]
}

// profile weighs the schedule's actions.
type profile struct {
	name                                      string
	send, deliver, drop, replay, shake, burst int
	rotate, unwrap                            int
	order                                     int // percent of deliveries that take the oldest message
	oneTime                                   int // percent of handshakes with a one-time pre-key
	ops                                       int
	burstMax                                  int
}

var profiles = []profile{
	{name: "chat", send: 40, deliver: 45, drop: 2, replay: 6, shake: 1, rotate: 1, unwrap: 5, order: 50, oneTime: 50, ops: 250},
	{name: "pingpong", send: 30, deliver: 55, drop: 3, replay: 8, shake: 1, rotate: 1, unwrap: 5, order: 75, oneTime: 50, ops: 350},
	{name: "reorder", send: 45, deliver: 40, drop: 4, replay: 10, shake: 2, rotate: 1, unwrap: 8, order: 5, oneTime: 50, ops: 300},
	{name: "handshakes", send: 30, deliver: 30, drop: 4, replay: 8, shake: 20, rotate: 4, unwrap: 5, order: 20, oneTime: 60, ops: 400},
	{name: "bursts", send: 15, deliver: 60, drop: 2, replay: 10, shake: 1, burst: 3, rotate: 1, unwrap: 5, order: 3, oneTime: 50, ops: 200, burstMax: 700},
	{name: "storm", send: 22, deliver: 26, drop: 3, replay: 10, shake: 40, rotate: 4, unwrap: 5, order: 10, oneTime: 70, ops: 600},
}

// profileFor mixes cheap and expensive schedules.
func profileFor(t *T, i int) profile {
	k := i % 12
	switch {
	case k < 9:
		k %= 3
	default:
		k -= 6
	}
	p := profiles[k]
	if t.C.Tier == "thorough" && i%5 == 0 {
		p.ops *= 3
		if p.burstMax > 0 {
			p.burstMax = 3000
		}
	}
	return p
}

// pick returns an index with probability proportional to its weight.
func pick(t *T, w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	k := t.Rng.IntN(sum)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

func (s *Sim) pair() (*Node, *Node) {
	i := s.T.Rng.IntN(len(s.Nodes))
	j := s.T.Rng.IntN(len(s.Nodes) - 1)
	if j >= i {
		j++
	}
	return s.Nodes[i], s.Nodes[j]
}

// driver receives the events of a schedule; each property judges them in its own way.
type driver struct {
	onSendErr  func(a, b *Node, err error)
	onShakeErr func(a, b *Node, err error)
	onDeliver  func(m *Msg, r Result, replay bool)
	after      func()
	extra      func() // extra adversarial action, called with probability 1/8
}

// run executes a random schedule.
func (s *Sim) run(p profile, d driver) {
	t := s.T
	for op := 0; op < p.ops; op++ {
		switch pick(t, p.send, p.deliver, p.drop, p.replay, p.shake, p.burst, p.rotate) {
		case 0:
			a, b := s.pair()
			s.sendSome(a, b, 1, p, d)
		case 1:
			if len(s.Flight) == 0 {
				continue
			}
			i := t.Rng.IntN(len(s.Flight))
			if t.Rng.IntN(100) < p.order { // oldest first
				for j := range s.Flight {
					if s.Flight[j].N < s.Flight[i].N {
						i = j
					}
				}
			}
			m := s.Flight[i]
			unwrap := m.Typ == message.PreKeyType && t.Rng.IntN(100) < p.unwrap
			replay := m.Accepted > 0
			r := s.deliver(m, unwrap)
			t.Eval()
			d.onDeliver(m, r, replay)
			if m.Accepted > 0 && t.Rng.IntN(5) > 0 || t.Rng.IntN(20) == 0 {
				s.drop(i)
			}
		case 2:
			if len(s.Flight) > 0 {
				s.drop(t.Rng.IntN(len(s.Flight)))
			}
		case 3:
			if len(s.Done) == 0 {
				continue
			}
			m := s.Done[t.Rng.IntN(len(s.Done))]
			if t.Rng.IntN(2) == 0 && len(s.Done) > 20 {
				m = s.Done[len(s.Done)-1-t.Rng.IntN(20)]
			}
			r := s.deliver(m, m.Typ == message.PreKeyType && t.Rng.IntN(3) == 0)
			t.Eval()
			d.onDeliver(m, r, true)
		case 4:
			a, b := s.pair()
			if err := s.handshake(a, b, t.Rng.IntN(100) < p.oneTime); err != nil {
				d.onShakeErr(a, b, err)
			}
		case 5:
			a, b := s.pair()
			s.sendSome(a, b, 1+t.Rng.IntN(p.burstMax), p, d)
		case 6:
			n := s.Nodes[t.Rng.IntN(len(s.Nodes))]
			n.P.RotateSigned()
			t.Logf("%v rotates its signed pre-key", n.Addr)
		}
		if d.after != nil {
			d.after()
		}
		if d.extra != nil && t.Rng.IntN(8) == 0 {
			d.extra()
		}
	}
}

func (s *Sim) sendSome(a, b *Node, k int, p profile, d driver) {
	t := s.T
	if r := a.Recs[b.Addr]; r == nil || r.cur == nil {
		if err := s.handshake(a, b, t.Rng.IntN(100) < p.oneTime); err != nil {
			d.onShakeErr(a, b, err)
			return
		}
	}
	for i := 0; i < k; i++ {
		pt := plaintextOf(t.Rng, t.R)
		m, err := s.send(a, b, pt)
		if err != nil {
			d.onSendErr(a, b, err)
			return
		}
		// in a burst most messages are lost
		if k > 10 && m.Index%7 != 0 && i < k-3 && t.Rng.IntN(10) > 0 {
			s.Flight = s.Flight[:len(s.Flight)-1]
		}
	}
}

// randomTopology builds the network of a case.
func randomTopology(t *T) *Sim {
	switch t.Rng.IntN(6) {
	case 0:
		return newSim(t, "alice 1", "bob 1", "carol 1")
	case 1: // two devices of one user, same identity key, and a peer
		s := newSim(t, "alice 1", "bob 1")
		s.addNode(newPartyKey(t, "alice", 2, s.Nodes[0].P.KP))
		return s
	case 2: // names that only differ in a suffix or device
		return newSim(t, "alice 1", "alice 11", "alice1 1")
	case 3: // session with one's own identity
		s := newSim(t, "alice 1")
		s.addNode(newPartyKey(t, "alice", 2, s.Nodes[0].P.KP))
		return s
	}
	return newSim(t, "alice 1", "bob 1")
}

// persistSome makes some parties keep only serialized state between calls.
func (s *Sim) persistSome() {
	for _, n := range s.Nodes {
		if s.T.Rng.IntN(3) == 0 {
			n.P.St.persist = map[address.Address]savedRecord{}
		}
	}
}

// converse exchanges k in-order round trips between a and b (b replies), returning an error description on failure.
func (s *Sim) converse(a, b *Node, k int) string {
	for i := 0; i < k; i++ {
		for _, d := range [][2]*Node{{a, b}, {b, a}} {
			if r := d[0].Recs[d[1].Addr]; r == nil || r.cur == nil {
				return "no session"
			}
			m, err := s.send(d[0], d[1], plaintextOf(s.T.Rng, s.T.R))
			if err != nil {
				return fmt.Sprintf("send: %v", err)
			}
			s.Flight = s.Flight[:len(s.Flight)-1]
			r := s.deliver(m, false)
			if r.Pred != pAccept {
				return "model does not expect acceptance"
			}
			if !r.OK || !bytes.Equal(r.Plain, m.Plain) {
				return fmt.Sprintf("%v: %v", m, r.Err)
			}
		}
	}
	return ""
}
