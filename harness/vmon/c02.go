package main

import (
	"errors"
	"fmt"

	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/perrors"

	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:     "C02",
		Rule:   "random schedules with heavy replaying (at once, later, unwrapped, re-wrapped, after restarts and new handshakes) plus exhaustive replay sweeps of whole histories; distinct by (how the message had been accepted, replay form, chains and archived sessions since)",
		Run:    runC02,
		Assume: []string{"a session evicted from the 40 archived ones and established without one-time pre-key is out of scope"},
	})
}

// retained says whether the receiver still holds the chain of m (so the duplicate error is due).
func retained(n *Node, m *Msg) (sess, chain bool) {
	rec := n.Recs[m.From.Addr]
	if rec == nil {
		return false, false
	}
	st := rec.find(m.HS)
	if st == nil {
		return false, false
	}
	for _, c := range st.recv {
		if c.tok == m.Tok {
			return true, true
		}
	}
	return true, false
}

// judge02 is the verdict on presenting a message that was accepted before. before/chain: retention before the call.
func judge02(t *T, m *Msg, pt []byte, err error, sess, chain bool, form string) {
	t.Eval()
	protected := protected02(m, sess)
	if err == nil || pt != nil {
		if protected {
			t.Violate("%v was accepted before and presenting it again (%s) yields %s, err %v", m, form, hexs(pt), err)
		}
		return
	}
	if chain && !errors.Is(err, perrors.ErrDuplicateMessage) {
		t.Violate("%v was accepted before and its chain is retained; presenting it again (%s) gives %q instead of the duplicate-message error", m, form, err)
	}
	t.Count("replays refused: "+form, 1)
}

// protected02 says whether the property covers a replay of m: its session has stayed among the retained ones ever
// since (it was not evicted and set up anew from a replayed handshake), or its one-time pre-key is spent.
func protected02(m *Msg, sess bool) bool {
	return m.HS.preKeyID != nil || sess && !m.HS.renewed
}

// replay02 presents an accepted message again in a chosen form.
func replay02(t *T, s *Sim, m *Msg, form int) {
	n := m.To
	sess, chain := retained(n, m)
	if !protected02(m, sess) {
		return // out of scope
	}
	name, typ, wire := replayForm(t, m, form)
	pt, err := n.P.receive(m.From.Addr, typ, wire)
	t.Logf("replay of %v as %s -> %s %v", m, name, hexs(pt), err)
	if form >= 3 && err != nil { // altered wrapper: any refusal will do
		chain = false
	}
	judge02(t, m, pt, err, sess, chain, name)
	rec := n.Recs[m.From.Addr]
	t.Seen(name, sess, chain, len(rec.prev), len(rec.cur.recv), m.HS.preKeyID != nil)
}

func replayForm(t *T, m *Msg, form int) (string, message.CiphertextType, []byte) {
	switch form {
	case 1:
		return "unwrapped", message.WhisperType, m.Inner
	case 2:
		if m.HS.baseKey != nil && m.From == m.HS.alice { // re-attach the handshake it belongs to
			return "re-wrapped", message.PreKeyType, ref.EncodePreKey(wrapper(m, nil))
		}
	case 3:
		if m.HS.baseKey != nil && m.From == m.HS.alice { // handshake without the one-time pre-key
			w := wrapper(m, nil)
			w.PreKeyID = nil
			return "re-wrapped without pre-key", message.PreKeyType, ref.EncodePreKey(w)
		}
	case 4:
		return "re-wrapped with a new base key", message.PreKeyType, ref.EncodePreKey(wrapper(m, ref.GenKP(t.R).Pub))
	case 6:
		if m.HS.baseKey != nil && m.From == m.HS.alice { // the handshake it belongs to, with another registration id
			w := wrapper(m, nil)
			w.RegID = []uint32{0, w.RegID + 1, w.RegID ^ 1<<t.Rng.IntN(14), t.Rng.Uint32()}[t.Rng.IntN(4)]
			return "re-wrapped with another registration id", message.PreKeyType, ref.EncodePreKey(w)
		}
	case 5:
		if m.HS.baseKey != nil {
			w := wrapper(m, nil)
			w.SignedID++
			return "re-wrapped with another signed pre-key", message.PreKeyType, ref.EncodePreKey(w)
		}
	}
	return "verbatim", m.Typ, m.Wire
}

// wrapper builds a handshake around the message's inner bytes, attributed to its sender.
func wrapper(m *Msg, base []byte) *ref.PreKeyMsg {
	w := &ref.PreKeyMsg{RegID: m.From.P.Reg, SignedID: uint32(m.HS.signedID), BaseKey: m.HS.baseKey, IdentityKey: []byte(idOf(m.From.P.KP)), Message: m.Inner}
	if m.HS.preKeyID != nil {
		v := uint32(*m.HS.preKeyID)
		w.PreKeyID = &v
	}
	if base != nil {
		w.BaseKey = base
		if m.To.P.Signed[m.HS.signedID] == nil {
			w.SignedID = uint32(m.To.P.curSPK)
		}
		w.PreKeyID = nil
	}
	return w
}

func runC02(c *C) {
	drv := func(t *T, s *Sim) driver {
		return driver{
			onSendErr:  func(a, b *Node, err error) { t.Skip("send failed: %v", err) },
			onShakeErr: func(a, b *Node, err error) { t.Skip("handshake failed: %v", err) },
			onDeliver: func(m *Msg, r Result, replay bool) {
				if !replay {
					if r.Pred == pAccept && r.Err != nil {
						t.Skip("%v refused: %v", m, r.Err)
					}
					if r.Pred != pAccept && r.OK {
						t.Skip("%v accepted, model says %v", m, r.Pred)
					}
					if r.OK { // at once, again
						for k := t.Rng.IntN(3); k > 0; k-- {
							replay02(t, s, m, t.Rng.IntN(7))
						}
					}
					return
				}
				// deliver advanced the model only if it expected acceptance (out-of-scope re-establishment)
				if r.Pred == pAccept {
					if !r.OK {
						t.Skip("%v: model expects re-establishment, library says %v", m, r.Err)
					}
					m.HS.renewed = true
					return
				}
				sess, chain := retained(m.To, m)
				judge02(t, m, r.Plain, r.Err, sess, chain, "scheduled")
			},
			extra: func() {
				if len(s.Done) == 0 {
					return
				}
				for k := 0; k < 3; k++ {
					replay02(t, s, s.Done[t.Rng.IntN(len(s.Done))], t.Rng.IntN(7))
				}
			},
		}
	}
	c.Cases("sim", c.N(120, 6000), func(t *T, i int) {
		s := randomTopology(t)
		s.persistSome()
		p := profileFor(t, i)
		p.replay *= 3
		s.run(p, drv(t, s))
		// sweep: everything accepted in this history, in every form
		step := 1 + len(s.Done)/50
		for j := 0; j < len(s.Done); j += step {
			for f := 0; f < 7; f++ {
				replay02(t, s, s.Done[j], f)
			}
		}
		// restart of every party, sweep again
		for _, n := range s.Nodes {
			restart(n)
		}
		for j := 0; j < len(s.Done); j += step {
			replay02(t, s, s.Done[j], t.Rng.IntN(7))
		}
		if i < 4 {
			t.Sample(map[string]any{"case": t.Name, "profile": p.name, "events": tail(t.log, 10)})
		}
	})
	c.Require("replays refused: verbatim", 100)
	c.Require("replays refused: unwrapped", 50)
	c.Require("replays refused: re-wrapped", 20)

	// eviction boundaries: chains beyond five, skipped keys beyond 2000, sessions beyond 40
	c.Cases("evicted-chain", c.N(10, 200), func(t *T, i int) {
		s := newSim(t, "alice 1", "bob 1")
		a, b := s.Nodes[0], s.Nodes[1]
		ok02(t, s.handshake(a, b, i%2 == 0))
		for r := 0; r < 9; r++ {
			for _, d := range [][2]*Node{{a, b}, {b, a}} {
				for k := 1 + t.Rng.IntN(3); k > 0; k-- {
					m, err := s.send(d[0], d[1], []byte(fmt.Sprint("r", r)))
					ok02(t, err)
					if x := s.deliver(m, false); !x.OK {
						t.Skip("refused: %v", x.Err)
					}
				}
			}
			for _, m := range s.Done {
				for f := 0; f < 3; f++ {
					replay02(t, s, m, f)
				}
				replay02(t, s, m, 6)
			}
		}
	})
	c.Cases("skipped-window", c.N(3, 12), func(t *T, i int) {
		s := newSim(t, "alice 1", "bob 1")
		a, b := s.Nodes[0], s.Nodes[1]
		ok02(t, s.handshake(a, b, true))
		n := []int{1500, 2001, 2600}[i%3] + t.Rng.IntN(50)
		var ms []*Msg
		for k := 0; k <= n; k++ {
			m, err := s.send(a, b, []byte(fmt.Sprint(k)))
			ok02(t, err)
			ms = append(ms, m)
		}
		for _, k := range []int{n, n - 1, n - 500, n - 1400, 3, 0, n - 1300} {
			r := s.deliver(ms[k], false)
			if r.Pred == pAccept && !r.OK {
				t.Skip("refused: %v", r.Err)
			}
			if r.OK {
				replay02(t, s, ms[k], 0)
			}
		}
		for _, m := range s.Done {
			replay02(t, s, m, t.Rng.IntN(3))
		}
	})
	c.Cases("edges", c.N(27, 108), func(t *T, i int) { oneStream(t, t.Rng.IntN(2) == 0).judge(t, false).edges(t, i) })
	c.One("far", func(t *T) { oneStream(t, true).judge(t, false).far(t, c.N(17, 20)) })
	c.Cases("gaps", c.N(30, 600), func(t *T, i int) { oneStream(t, i%2 == 0).judge(t, false).gaps(t) })
	c.Cases("archive-window", c.N(6, 60), func(t *T, i int) {
		s := newSim(t, "alice 1", "bob 1")
		a, b := s.Nodes[0], s.Nodes[1]
		for k := 0; k < 44; k++ {
			x, y := a, b
			if i%2 == 1 && t.Rng.IntN(2) == 0 {
				x, y = b, a
			}
			ok02(t, s.handshake(x, y, t.Rng.IntN(4) > 0))
			m, err := s.send(x, y, []byte(fmt.Sprint("s", k)))
			ok02(t, err)
			if r := s.deliver(m, false); !r.OK {
				t.Skip("refused: %v", r.Err)
			}
			if k%6 == 5 || k > 38 {
				for _, m := range s.Done {
					replay02(t, s, m, []int{0, 1, 2, 6}[t.Rng.IntN(4)])
				}
			}
		}
	})
}

func ok02(t *T, err error) {
	if err != nil {
		t.Skip("setup failed: %v", err)
	}
}

// restart replaces the party's session objects by what its serialized states give.
func restart(n *Node) {
	if n.P.St.persist != nil {
		return
	}
	for _, a := range n.P.Known {
		if r := n.P.rawRecord(a); r != nil {
			n.P.St.in.SessionStore().Store(ctx, a, save(r).record())
		}
	}
}
