package main

import (
	"context"
	"fmt"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/prekey"

	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:   "C27",
		Rule: "Random mixed one-to-one and group schedules between parties whose names and device numbers nearly coincide and whose distributions nearly coincide. Every store access of every call is logged with its key and context; after every call the contents of all stores of all parties are compared with those before it. Distinct by the call, its outcome and how much the party already stores.",
		Run:  runC27,
		Assume: []string{
			"a context passed to a store may be derived from the caller's, as long as it carries its values and ends when it is cancelled",
		},
	})
}

type ctxKey struct{}

// mon27 watches the calls of one network.
type mon27 struct {
	t       *T
	parties []*Party
	groups  []groupKey
	calls   int

	// the call under way
	who     *Party
	name    string
	allowed map[string]bool
	cancel  context.CancelFunc
	before  []map[string]string
	ctxs    []context.Context
	ctxOps  []string
	bad     []string
	writes  int
}

func key27(kind string, key any) string { return fmt.Sprintf("%s %#v", kind, key) }

// contents lists what a party stores, by key.
func (m *mon27) contents(p *Party) map[string]string {
	out := map[string]string{}
	for _, o := range m.parties {
		if r := p.rawRecord(o.Addr); r != nil {
			sr := save(r)
			out[key27("session", o.Addr)] = fmt.Sprintf("%x %x", sr.cur, sr.prev)
		}
		if k, ok, _ := p.St.in.IdentityStore().Load(ctx, o.Addr); ok {
			out[key27("identity", o.Addr)] = fmt.Sprintf("%x", k.Bytes())
		}
	}
	for id := range p.PreKeys {
		if k, ok, _ := p.St.in.PreKeyStore().Load(ctx, id); ok {
			out[key27("prekey", id)] = dump(k)
		}
	}
	for id := range p.Signed {
		if k, ok, _ := p.St.in.SignedPreKeyStore().Load(ctx, id); ok {
			out[key27("signed", id)] = dump(k)
		}
	}
	for _, g := range m.groups {
		if r, ok, _ := p.St.in.GroupStore().Load(ctx, g.sender, g.dist); ok {
			out[key27("group", g)] = dump(r)
		}
	}
	out["own identity"] = fmt.Sprintf("%x %d", p.St.in.IdentityStore().KeyPair(ctx).PrivateKey().Bytes(), p.St.in.IdentityStore().LocalRegistrationID(ctx))
	return out
}

func (m *mon27) watch(p *Party) {
	m.parties = append(m.parties, p)
	p.onCall = func(call string, remote address.Address, d distribution.ID, msg []byte) context.Context {
		m.close()
		m.calls++
		m.who, m.name = p, fmt.Sprintf("%v: %s with %v", p.Addr, call, remote)
		m.allowed = map[string]bool{}
		switch call {
		case "handshake", "encrypt", "decrypt":
			m.allowed[key27("session", remote)] = true
			m.allowed[key27("identity", remote)] = true
			if pm, err := ref.ParsePreKey(msg); call == "decrypt" && err == nil && pm.PreKeyID != nil {
				m.allowed[key27("prekey", prekey.ID(*pm.PreKeyID))] = true
			}
		default:
			m.allowed[key27("group", groupKey{remote, d})] = true
		}
		for _, q := range m.parties {
			m.before = append(m.before, m.contents(q))
		}
		c, cancel := context.WithCancel(context.WithValue(ctx, ctxKey{}, m.calls))
		m.cancel = cancel
		return c
	}
	p.St.scope = func(c context.Context, op string, key any) {
		if m.who == nil {
			return
		}
		if p != m.who {
			m.bad = append(m.bad, fmt.Sprintf("%s of %v's store", op, p.Addr))
		}
		if op != "identity.Clear" {
			m.ctxs, m.ctxOps = append(m.ctxs, c), append(m.ctxOps, op)
		}
		var kind string
		switch op {
		case "session.Store":
			kind = "session"
		case "group.Store":
			kind = "group"
		case "prekey.Store", "prekey.Delete":
			kind = "prekey"
		case "signed.Store":
			kind = "signed"
		case "identity.Store":
			kind = "identity"
		case "identity.Clear":
			m.bad = append(m.bad, op)
		}
		if kind == "" {
			return
		}
		m.writes++
		if !m.allowed[key27(kind, key)] {
			m.bad = append(m.bad, fmt.Sprintf("%s of %v", op, key))
		}
	}
}

// close judges the call under way.
func (m *mon27) close() {
	if m.who == nil {
		return
	}
	t := m.t
	t.Eval()
	if len(m.bad) > 0 {
		t.Violate("%s reached beyond its own records: %v", m.name, m.bad)
	}
	for i, c := range m.ctxs {
		if c == nil || c.Value(ctxKey{}) != m.calls {
			t.Violate("%s: %s was not given the caller's context", m.name, m.ctxOps[i])
		}
		if err := c.Err(); err != nil {
			t.Violate("%s: %s was given a context that has ended: %v", m.name, m.ctxOps[i], err)
		}
	}
	m.cancel()
	for i, c := range m.ctxs {
		if c.Err() == nil {
			t.Violate("%s: %s was given a context that outlives its caller's", m.name, m.ctxOps[i])
		}
		t.Count("contexts checked", 1)
	}
	changed := 0
	for i, q := range m.parties {
		after := m.contents(q)
		keys := map[string]bool{}
		for k := range m.before[i] {
			keys[k] = true
		}
		for k := range after {
			keys[k] = true
		}
		for k := range keys {
			if m.before[i][k] == after[k] {
				continue
			}
			changed++
			if q != m.who || !m.allowed[k] {
				t.Violate("%s changed %v's %s\nbefore: %s\nafter:  %s", m.name, q.Addr, k, clip(m.before[i][k]), clip(after[k]))
			}
			if _, ok := after[k]; !ok && k[:6] != "prekey" {
				t.Violate("%s removed %v's %s", m.name, q.Addr, k)
			}
		}
		t.Count("records compared", int64(len(keys)))
	}
	t.Count("calls watched", 1)
	if changed > 0 {
		t.Count("calls that changed something", 1)
	}
	t.Seen(m.name, changed, m.writes, bucket(len(m.before[0])))
	m.who, m.bad, m.ctxs, m.ctxOps, m.before, m.writes = nil, nil, nil, nil, nil, 0
}

func runC27(c *C) {
	c.Cases("mixed", c.N(160, 6000), mixed27)
	c.Require("calls watched", 5000)
	c.Require("calls that changed something", 2000)
	c.Require("contexts checked", 10000)
	c.Require("accepted: in-order", 200)
}

// nearDists are distribution ids that nearly coincide.
func nearDists(t *T) []distribution.ID {
	b := randBytes(t, 16)
	id := func() distribution.ID {
		return distribution.MustParse(fmt.Sprintf("%x-%x-%x-%x-%x", b[:4], b[4:6], b[6:8], b[8:10], b[10:]))
	}
	ds := []distribution.ID{id()}
	for _, k := range []int{15, 0, 7} {
		b[k] ^= 1
		ds = append(ds, id())
		b[k] ^= 1
	}
	return ds
}

var near27 = [][]string{
	{"alice 1", "alice 2", "bob 1", "alice 257"},
	{"alice 1", "alice 11", "alice1 1", "alice. 1"},
	{"alice 1", "Alice 1", "alice  1", "alic 1"},
	{"a 0", "a 1", "a 4294967295", "b 0"},
}

func mixed27(t *T, i int) {
	s := newSim(t)
	m := &mon27{t: t}
	names := near27[i%len(near27)]
	n := 2 + t.Rng.IntN(len(names)-1)
	for k, j := range t.Rng.Perm(len(names))[:n] {
		var dev uint32
		name := names[j][:len(names[j])-len(lastWord(names[j]))-1]
		fmt.Sscan(lastWord(names[j]), &dev)
		if k > 0 && t.Rng.IntN(4) == 0 { // another device of the same user
			s.addNode(newPartyKey(t, name, dev, s.Nodes[0].P.KP))
		} else {
			s.addNode(newParty(t, name, dev))
		}
	}
	if t.Rng.IntN(3) == 0 { // pre-key ids nearly coincide, too
		for _, n := range s.Nodes {
			n.P.nextPK, n.P.nextSPK = 1, 2
		}
	}
	g := &GSim{T: t, Cur: map[gkey]*gmRecord{}, Recs: map[*Node]map[gkey]*gmRecord{}, Nodes: s.Nodes, Dists: nearDists(t)}
	for _, n := range s.Nodes {
		g.Recs[n] = map[gkey]*gmRecord{}
		for _, d := range g.Dists {
			m.groups = append(m.groups, groupKey{n.Addr, d})
		}
	}
	for _, n := range s.Nodes {
		m.watch(n.P)
	}
	p := profileFor(t, t.Rng.IntN(3))
	p.ops, p.shake, p.rotate = 40, 8, 2
	gp := gprofiles[t.Rng.IntN(len(gprofiles))]
	gp.ops, gp.burst = 40, 0
	for k := 0; k < 2; k++ {
		s.run(p, driver{
			onSendErr:  func(a, b *Node, err error) {},
			onShakeErr: func(a, b *Node, err error) {},
			onDeliver:  func(*Msg, Result, bool) { m.close() },
			after:      m.close,
			extra: func() { // a forged message, and one in another session
				if len(s.Flight) == 0 {
					return
				}
				x := s.Flight[t.Rng.IntN(len(s.Flight))]
				w := clone(x.Wire)
				if t.Rng.IntN(2) == 0 {
					w = flip(w, t.Rng.IntN(len(w)), 1<<t.Rng.IntN(8))
				}
				to := s.Nodes[t.Rng.IntN(len(s.Nodes))]
				from := s.Nodes[t.Rng.IntN(len(s.Nodes))]
				if to == from || x.To == to && x.From == from {
					return
				}
				// on a copy whose calls are watched the same way
				m.close()
				f := to.P.fork(m.groups...)
				mm := &mon27{t: t, groups: m.groups, calls: m.calls + 1000}
				mm.watch(f)
				for _, o := range s.Nodes {
					if o.P != to.P {
						mm.parties = append(mm.parties, o.P)
					}
				}
				f.receive(from.Addr, x.Typ, w)
				mm.close()
				t.Count("stray messages", 1)
			},
		})
		m.close()
		g.run(gp, gdriver{onProcess: func(*Node, *SKD, error) {}, onDeliver: func(*Node, *GMsg, GResult) {}, after: m.close})
		m.close()
	}
	if t.wantSample() {
		t.Sample(map[string]any{"case": t.Name, "parties": names[:n], "events": tail(t.log, 10)})
	}
}

func lastWord(s string) string {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == ' ' {
			return s[i+1:]
		}
	}
	return s
}
