package main

import (
	"bytes"
	"fmt"

	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/session"
)

func init() {
	register(&Check{
		ID:   "C28",
		Rule: "Random schedules with many simultaneous and repeated handshakes, losses and late deliveries. After every accepted message the receiver's current session is compared with the message's, and its next message is given to a copy of the sender that holds that one session only. At many points all traffic in flight is dropped and the two sides exchange one message and one reply; from then on copies that hold only the current session must read everything. Distinct by the states of both records and how the message was accepted.",
		Run:  runC28,
	})
}

// only is a copy of n's party that holds just one session with the peer; nil if it does not retain that session.
func only28(n *Node, peer *Node, base []byte) *Party {
	rec := n.P.rawRecord(peer.Addr)
	if rec == nil {
		return nil
	}
	var st *session.State
	if rec.State() != nil && bytes.Equal(rec.State().AliceBaseKey(), base) {
		st = rec.State()
	} else {
		prev, err := rec.PreviousStates()
		if err != nil {
			return nil
		}
		for _, x := range prev {
			if bytes.Equal(x.AliceBaseKey(), base) {
				st = x
			}
		}
	}
	if st == nil {
		return nil
	}
	q := n.P.fork()
	one, err := session.NewRecordBytes(st.Bytes())
	if err != nil {
		n.T.Violate("%v: a stored session does not parse: %v", n.Addr, err)
	}
	q.St.persist = nil
	if err := q.St.in.SessionStore().Store(ctx, peer.Addr, one); err != nil {
		n.T.Skip("%v", err)
	}
	return q
}

func current28(n, peer *Node) []byte {
	rec := n.P.rawRecord(peer.Addr)
	if rec == nil || rec.State() == nil {
		return nil
	}
	return clone(rec.State().AliceBaseKey())
}

// follows checks that what n sends to peer now travels in the session named by base.
func follows28(s *Sim, n, peer *Node, base []byte, why string) *Msg {
	t := s.T
	m, err := s.send(n, peer, plaintextOf(t.Rng, t.R))
	if err != nil {
		t.Skip("send: %v", err)
	}
	q := only28(peer, n, base)
	if q == nil {
		return m
	}
	t.Eval()
	if pt, err := q.receive(n.Addr, m.Typ, m.Wire); err != nil || !bytes.Equal(pt, m.Plain) {
		t.Violate("%s %v sent %v, which does not open in that session: %s %v", why, n.Addr, m, hexs(pt), err)
	}
	t.Count("messages read with one session only", 1)
	return m
}

func runC28(c *C) {
	c.Cases("schedule", c.N(120, 5000), schedule28)
	c.Cases("crossing", c.N(200, 8000), crossing28)
	c.Require("messages read with one session only", 2000)
	c.Require("current sessions compared", 4000)
	c.Require("round trips that settled", 300)
	c.Require("settled from different sessions", 100)
}

func (s *Sim) judge28(m *Msg, r Result) {
	t := s.T
	if !r.OK || r.Pred != pAccept {
		return
	}
	t.Eval()
	n, peer := m.To, m.From
	if m.HS.baseKey == nil {
		return
	}
	t.Count("current sessions compared", 1)
	if got := current28(n, peer); !bytes.Equal(got, m.HS.baseKey) {
		t.Violate("%v accepted %v of the session with base key %x, but its current session has base key %x", n.Addr, m, m.HS.baseKey, got)
	}
	rn := n.Recs[peer.Addr]
	t.Seen(r.How.String(), bucket(len(rn.prev)), rn.cur.alice, bucket(int(m.Index)))
}

func schedule28(t *T, i int) {
	s := randomTopology(t)
	if i%4 == 1 {
		s.persistSome()
	}
	p := profiles[[]int{3, 5, 3, 0, 2, 5}[i%6]]
	p.ops = 160
	p.burst = 0
	d := driver{
		onSendErr:  func(a, b *Node, err error) { t.Skip("send: %v", err) },
		onShakeErr: func(a, b *Node, err error) { t.Skip("handshake: %v", err) },
		onDeliver: func(m *Msg, r Result, replay bool) {
			s.judge28(m, r)
			if r.OK && r.Pred == pAccept && m.HS.baseKey != nil && t.Rng.IntN(3) == 0 {
				follows28(s, m.To, m.From, m.HS.baseKey, fmt.Sprintf("after accepting %v", m))
			}
		},
	}
	for k := 0; k < 3; k++ {
		s.run(p, d)
		s.settle(s.pair())
	}
	if t.wantSample() {
		t.Sample(map[string]any{"case": t.Name, "events": tail(t.log, 12)})
	}
}

// settle drops all traffic and lets a and b exchange one message and one reply, after which they must agree.
func (s *Sim) settle(a, b *Node) {
	t := s.T
	if r := a.Recs[b.Addr]; r == nil || r.cur == nil {
		return
	}
	ca, cb := current28(a, b), current28(b, a)
	s.Flight = nil
	m1, err := s.send(a, b, []byte("anyone there?"))
	if err != nil {
		t.Skip("send: %v", err)
	}
	r1 := s.deliver(m1, false)
	if r1.Pred != pAccept {
		return // the peer no longer retains the session
	}
	if !r1.OK {
		t.Skip("%v not accepted: %v", m1, r1.Err)
	}
	s.judge28(m1, r1)
	m2 := follows28(s, b, a, m1.HS.baseKey, "replying to "+m1.String()+",")
	r2 := s.deliver(m2, false)
	if r2.Pred != pAccept {
		return // more than 25,000 or evicted: not in the limits
	}
	if !r2.OK {
		t.Violate("%v: the reply to %v in its session is refused: %v", m2, m1, r2.Err)
	}
	s.judge28(m2, r2)
	t.Eval()
	if x, y := current28(a, b), current28(b, a); !bytes.Equal(x, y) {
		t.Violate("after a message and its reply %v is in session %x and %v in session %x", a.Addr, x, b.Addr, y)
	}
	for k := 0; k < 3; k++ {
		for _, d := range [][2]*Node{{a, b}, {b, a}} {
			m := follows28(s, d[0], d[1], m1.HS.baseKey, "after settling,")
			if m.Typ != message.WhisperType {
				t.Violate("%v: still carries a handshake after both sides settled on the session", m)
			}
			if t.Rng.IntN(3) == 0 {
				continue // lost
			}
			r := s.deliver(m, false)
			if r.Pred == pAccept && !r.OK {
				t.Violate("%v: refused after both sides settled on the session: %v", m, r.Err)
			}
			s.judge28(m, r)
		}
	}
	t.Count("round trips that settled", 1)
	if !bytes.Equal(ca, cb) {
		t.Count("settled from different sessions", 1)
	}
}

// crossing28 has both sides start sessions at the same time, some of it lost, and then talk.
func crossing28(t *T, i int) {
	s := newSim(t, "alice 1", "bob 1")
	if i%3 == 2 {
		s.persistSome()
	}
	a, b := s.Nodes[0], s.Nodes[1]
	for round := 0; round < 1+i%3; round++ {
		var ms []*Msg
		for k := 0; k < 1+t.Rng.IntN(4); k++ {
			x, y := a, b
			if k == 1 || k > 1 && t.Rng.IntN(2) == 0 {
				x, y = b, a
			}
			if err := s.handshake(x, y, t.Rng.IntN(2) == 0); err != nil {
				t.Skip("handshake: %v", err)
			}
			for c := t.Rng.IntN(3); c >= 0; c-- {
				m, err := s.send(x, y, plaintextOf(t.Rng, t.R))
				if err != nil {
					t.Skip("send: %v", err)
				}
				ms = append(ms, m)
			}
		}
		t.Rng.Shuffle(len(ms), func(x, y int) { ms[x], ms[y] = ms[y], ms[x] })
		for _, m := range ms {
			if t.Rng.IntN(4) == 0 {
				continue // lost
			}
			r := s.deliver(m, false)
			s.judge28(m, r)
			if r.OK && m.HS.baseKey != nil && t.Rng.IntN(2) == 0 {
				x := follows28(s, m.To, m.From, m.HS.baseKey, fmt.Sprintf("after accepting %v", m))
				if t.Rng.IntN(2) == 0 {
					s.judge28(x, s.deliver(x, false))
				}
			}
		}
		if t.Rng.IntN(2) == 0 {
			s.settle(a, b)
		} else {
			s.settle(b, a)
		}
	}
}
