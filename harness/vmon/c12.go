package main

import (
	"bytes"
	"fmt"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:   "C12",
		Rule: "Random group schedules (many rotations, reused chain ids, late joiners, old and new distribution messages processed again, senders processing their own) in which every stored record is compared after every call with a model of which sender keys it retains and at which iteration; distribution messages are searched for every chain and message key already used; earlier messages are presented to late joiners. Plus random AddState sequences on bare records. Distinct by the shape of the record and the kind of call.",
		Run:  runC12,
		Assume: []string{
			"sender keys are rotated as an application would: load the record, AddState, store",
		},
	})
}

// mon12 watches the records of a group network.
type mon12 struct {
	t    *T
	g    *GSim
	used map[gkey]*spent
}

// states returns the dump of each retained state and the chain position the library reports.
func (m *mon12) compare(who string, rec *session.GroupRecord, model *gmRecord, all map[uint32]bool, what string) {
	t := m.t
	t.Eval()
	n := 0
	if model != nil {
		n = len(model.states)
	}
	if n == 0 {
		return
	}
	if rec == nil {
		t.Violate("%s has no record after %s", who, what)
	}
	for id := range all {
		st := rec.StateForChainID(id)
		ms := model.byChain(id)
		if ms == nil && st != nil {
			t.Violate("%s still retains chain %d after %s, which is not among the five most recently added", who, id, what)
		}
		if ms != nil && st == nil {
			t.Violate("%s has lost chain %d after %s, which is among the %d most recently added", who, id, what, n)
		}
		if ms == nil {
			continue
		}
		m.compareState(who, st, ms, what)
	}
	cur, err := rec.State()
	if err != nil {
		t.Violate("%s has no current sender key after %s: %v", who, what, err)
	}
	m.compareState(who+" (current key)", cur, model.states[n-1], what)
	t.Count("records compared", 1)
	if n == modelMaxSenderKeys {
		t.Count("full records compared", 1)
	}
	t.Seen(what, n, bucket(int(model.states[n-1].next)), len(model.states[n-1].skipped))
}

func (m *mon12) compareState(who string, st *session.GroupState, ms *gmState, what string) {
	pk, err := st.PublicSigningKey()
	if err != nil || !bytes.Equal(pk.Bytes(), ms.ep.sign) || st.ChainID() != ms.ep.chainID {
		m.t.Violate("%s: after %s chain %d with another signing key than that of key%d (chain %d)", who, what, st.ChainID(), ms.ep.id, ms.ep.chainID)
	}
	if it := st.SenderChainKey().Iteration(); it != ms.next {
		m.t.Violate("%s: after %s key%d stands at iteration %d, expected %d", who, what, ms.ep.id, it, ms.next)
	}
}

func (m *mon12) ids(k gkey) map[uint32]bool {
	out := map[uint32]bool{}
	if r := m.g.Cur[k]; r != nil {
		for _, s := range r.states {
			out[s.ep.chainID] = true
		}
	}
	for _, s := range m.g.SKDs {
		if s.K == k {
			out[s.Ep.chainID] = true
		}
	}
	return out
}

func load12(p *Party, k gkey) *session.GroupRecord {
	r, ok, err := p.St.in.GroupStore().Load(ctx, k.from.Addr, k.dist)
	if err != nil || !ok {
		return nil
	}
	return r
}

// all12 dumps each retained state by chain id.
func all12(r *session.GroupRecord, ids map[uint32]bool) map[uint32]string {
	out := map[uint32]string{}
	if r == nil {
		return out
	}
	for id := range ids {
		if st := r.StateForChainID(id); st != nil {
			out[id] = dump(st)
		}
	}
	return out
}

// distribute issues a distribution message and checks that nothing changed and nothing leaked.
func (m *mon12) distribute(k gkey) *SKD {
	t, g := m.t, m.g
	before := load12(k.from.P, k)
	bd := ""
	if before != nil {
		bd = dump(before)
	}
	s := g.distribute(k)
	t.Eval()
	if before != nil {
		if ad := dump(load12(k.from.P, k)); ad != bd {
			t.Violate("issuing a distribution message changed the sender's record\nbefore: %s\nafter:  %s", clip(bd), clip(ad))
		}
		t.Count("distribution messages issued from an existing key", 1)
	}
	m.compare(k.from.Addr.String(), load12(k.from.P, k), g.Cur[k], m.ids(k), "issuing a distribution message")
	p, err := ref.ParseSKD(s.Wire)
	if err != nil {
		t.Skip("%v", err)
	}
	if u := m.used[k]; u != nil {
		if x, found := u.find(s.Wire); found {
			t.Violate("a distribution message issued at iteration %d contains %s", s.Iter, x.what)
		}
		// and nothing it derives to is a key already used
		ck := p.ChainKey
		for j := 0; j < 8; j++ {
			if x, found := u.find(ck); found {
				t.Violate("a distribution message issued at iteration %d yields %s", s.Iter, x.what)
			}
			ck = ref.NextChain(ck)
		}
	}
	return s
}

func (m *mon12) send(k gkey, pt []byte) *GMsg {
	if m.g.Cur[k] == nil {
		m.distribute(k)
	}
	st, err := load12(k.from.P, k).State()
	if err != nil {
		m.t.Skip("no state: %v", err)
	}
	ck := clone(st.SenderChainKey().Seed())
	x := m.g.send(k, pt)
	u := m.used[k]
	if u == nil {
		u = newSpent()
		m.used[k] = u
	}
	spend13(u, ck, x.String())
	m.compare(k.from.Addr.String(), load12(k.from.P, k), m.g.Cur[k], m.ids(k), "sending")
	return x
}

// spend13 records the keys of one group message.
func spend13(u *spent, ck []byte, what string) {
	iv, key := ref.SenderMsgKeys(ck)
	u.add(nil, "the chain key of "+what, ck)
	u.add(nil, "the message key seed of "+what, ref.HMAC(ck, []byte{1}))
	u.add(nil, "the cipher key of "+what, key)
	u.add(nil, "the IV of "+what, iv)
}

// process has n process s; own lets the sender process its own message.
func (m *mon12) process(n *Node, s *SKD) {
	t, g := m.t, m.g
	ids := m.ids(s.K)
	model := g.Recs[n][s.K]
	own := n == s.K.from
	if own {
		model = g.Cur[s.K]
	}
	before := all12(load12(n.P, s.K), ids)
	known := model != nil && model.byEpoch(s.Ep) != nil
	what := "processing a distribution message with a new key"
	if known {
		what = "processing a distribution message of a known key"
	}
	if own {
		what = "processing its own distribution message"
		msg, err := message.NewSenderKeyDistributionFromBytes(clone(s.Wire))
		if err == nil {
			err = n.P.Group(s.K.from.Addr, distribution.ID{}).ProcessSenderKeyDistribution(ctx, msg)
		}
		t.Logf("%v processes its own distribution of key%d at %d -> %v", n.Addr, s.Ep.id, s.Iter, err)
		if err != nil {
			t.Skip("own distribution message refused: %v", err)
		}
		model.add(s.Ep, s.Iter)
		t.Count("own distribution messages processed", 1)
	} else {
		if err := g.process(n, s); err != nil {
			t.Skip("distribution message refused: %v", err)
		}
		model = g.Recs[n][s.K]
	}
	after := all12(load12(n.P, s.K), ids)
	t.Eval()
	for id, d := range after {
		b, was := before[id]
		if !was || (id == s.Ep.chainID && !known) {
			continue
		}
		if b != d {
			t.Violate("%v: %s (key%d at %d) changed retained chain %d\nbefore: %s\nafter:  %s", n.Addr, what, s.Ep.id, s.Iter, id, clip(b), clip(d))
		}
		t.Count("retained chains unchanged by processing", 1)
	}
	m.compare(n.Addr.String(), load12(n.P, s.K), model, ids, what)
}

func (m *mon12) deliver(n *Node, x *GMsg) {
	t, g := m.t, m.g
	r := g.deliver(n, x)
	t.Eval()
	if r.Pred == pAccept && !r.OK {
		t.Skip("%v refused: %v", x, r.Err)
	}
	if r.Pred != pAccept && r.OK && x.Accepted[n] == 0 {
		switch r.Pred {
		case pDuplicate:
			t.Violate("%v opens %v, which was sent before the distribution message it joined by (%s)", n.Addr, x, r.How)
		default:
			t.Violate("%v opens %v without retaining its sender key (%s)", n.Addr, x, r.How)
		}
	}
	if r.Pred != pAccept && x.Accepted[n] == 0 && r.How != "no record" {
		t.Count("messages from before the distribution message refused", 1)
	}
	m.compare(n.Addr.String(), load12(n.P, x.K), g.Recs[n][x.K], m.ids(x.K), "receiving")
}

func runC12(c *C) {
	c.Cases("history", c.N(200, 4000), func(t *T, i int) {
		g := newGSim(t, 2+t.Rng.IntN(3), 1+t.Rng.IntN(2))
		g.Bad = func(f string, a ...any) { t.Violate(f, a...) }
		m := &mon12{t, g, map[gkey]*spent{}}
		senders := 1 + t.Rng.IntN(2)
		key := func() gkey { k := g.anyKey(); k.from = g.Nodes[t.Rng.IntN(senders)]; return k }
		rot, reuse := []int{2, 10, 14, 5}[i%4], []int{10, 40, 5, 60}[i%4]
		for op := 0; op < 220; op++ {
			switch pick(t, 40, 12, 26, 10, 4, 40, rot) {
			case 0:
				m.send(key(), plaintextOf(t.Rng, t.R))
			case 1:
				m.distribute(key())
			case 2:
				if len(g.SKDs) > 0 {
					s := g.SKDs[len(g.SKDs)-1-t.Rng.IntN(min(4, len(g.SKDs)))]
					m.process(g.other(s.K.from), s)
				}
			case 3:
				if len(g.SKDs) > 0 {
					s := g.SKDs[t.Rng.IntN(len(g.SKDs))]
					m.process(g.other(s.K.from), s)
				}
			case 4:
				if len(g.SKDs) > 0 {
					s := g.SKDs[t.Rng.IntN(len(g.SKDs))]
					if g.Cur[s.K].byEpoch(s.Ep) != nil {
						m.process(s.K.from, s)
						m.send(s.K, []byte("still sending"))
					}
				}
			case 5:
				if len(g.Msgs) > 0 {
					x := g.Msgs[t.Rng.IntN(len(g.Msgs))]
					if t.Rng.IntN(2) == 0 {
						x = g.Msgs[len(g.Msgs)-1-t.Rng.IntN(min(15, len(g.Msgs)))]
					}
					m.deliver(g.other(x.K.from), x)
				}
			case 6:
				k := key()
				if g.Cur[k] != nil {
					g.rotate(k, t.Rng.IntN(100) < reuse)
					m.compare(k.from.Addr.String(), load12(k.from.P, k), g.Cur[k], m.ids(k), "rotating")
				}
			}
		}
		if t.wantSample() {
			t.Sample(map[string]any{"case": t.Name, "records": g.shape(), "events": tail(t.log, 10)})
		}
	})
	c.Cases("join", c.N(40, 400), join12)
	c.Cases("record", c.N(300, 6000), record12)
	c.Cases("first", c.N(20, 100), first12)
	c.Cases("distant", c.N(60, 600), distant12)
	c.Require("distant distribution messages processed", 300)
	c.Require("full records compared", 300)
	c.Require("known sender keys processed again", 200)
	c.Require("sender keys replaced under the same chain id", 20)
	c.Require("own distribution messages processed", 50)
	c.Require("messages from before the distribution message refused", 300)
	c.Require("bare records compared", 5000)
	c.Require("late joiners", 100)
}

// join12: members joining at every point of a chain read exactly what is sent from then on.
func join12(t *T, i int) {
	g := newGSim(t, 2, 1)
	g.Bad = func(f string, a ...any) { t.Violate(f, a...) }
	m := &mon12{t, g, map[gkey]*spent{}}
	k := gkey{g.Nodes[0], g.Dists[0]}
	var joins []*SKD
	joins = append(joins, m.distribute(k))
	n := 3 + t.Rng.IntN(12)
	for j := 0; j < n; j++ {
		if i%4 == 3 && j == n/2 {
			g.rotate(k, false)
		}
		m.send(k, []byte(fmt.Sprint("message ", j)))
		joins = append(joins, m.distribute(k))
	}
	for _, s := range joins {
		p := newParty(t, "joiner", 1)
		x := &Node{P: p, Addr: p.Addr}
		g.Nodes = append(g.Nodes, x)
		g.Recs[x] = map[gkey]*gmRecord{}
		m.process(x, s)
		t.Count("late joiners", 1)
		for _, q := range t.Rng.Perm(len(g.Msgs)) {
			m.deliver(x, g.Msgs[q])
		}
		// a distribution message from before or after does not move it
		m.process(x, joins[t.Rng.IntN(len(joins))])
		for _, q := range t.Rng.Perm(len(g.Msgs)) {
			m.deliver(x, g.Msgs[q])
		}
	}
}

// record12: random sequences of AddState on a bare record.
func record12(t *T, i int) {
	rec := session.NewGroupRecord()
	model := &gmRecord{}
	m := &mon12{t: t}
	var keys []*curve.KeyPair
	for j := 0; j < 3; j++ {
		keys = append(keys, must(curve.GenerateKeyPair(t.R)))
	}
	nids := []int{1, 2, 4, 6, 9, 30}[i%6]
	var ids []uint32
	all := map[uint32]bool{}
	for j := 0; j < nids; j++ {
		id := t.Rng.Uint32()
		if t.Rng.IntN(3) == 0 {
			id = uint32(j)
		}
		if all[id] {
			continue
		}
		ids = append(ids, id)
		all[id] = true
	}
	eps := map[string]*epoch{}
	for j := 0; j < 40; j++ {
		id := ids[t.Rng.IntN(len(ids))]
		kp := keys[t.Rng.IntN(len(keys))]
		it := uint32(t.Rng.IntN(1000))
		seed := randBytes(t, 32)
		cfg := session.GroupStateConfig{MessageVersion: message.SenderKeyVersion, ChainID: id, Iteration: it, ChainKey: seed, SignatureKey: kp.PublicKey()}
		if j%2 == 0 {
			cfg.SignaturePrivateKey = kp.PrivateKey()
		}
		before := all12(rec, all)
		if err := rec.AddState(session.NewGroupState(cfg)); err != nil {
			t.Skip("AddState: %v", err)
		}
		ek := fmt.Sprintf("%d %x", id, kp.PublicKey().Bytes())
		ep := eps[ek]
		if ep == nil {
			ep = &epoch{id: len(eps), chainID: id, sign: kp.PublicKey().Bytes()}
			eps[ek] = ep
		}
		known := model.byEpoch(ep) != nil
		model.add(ep, it)
		t.Logf("AddState chain %d key %x iteration %d (known %v)", id, kp.PublicKey().Bytes()[:4], it, known)
		m.compare("a bare record", rec, model, all, "adding a state")
		t.Count("bare records compared", 1)
		for x, d := range all12(rec, all) {
			if b, was := before[x]; was && b != d && (x != id || known) {
				t.Violate("AddState of chain %d changed retained chain %d", id, x)
			}
		}
		if !known && !bytes.Equal(rec.StateForChainID(id).SenderChainKey().Seed(), seed) {
			t.Violate("AddState of chain %d retained another chain key than it was given", id)
		}
		// keys are removed
		if j > 4 && t.Rng.IntN(5) == 0 {
			remove12(t, m, rec, model, all, ids[t.Rng.IntN(len(ids))], keys[t.Rng.IntN(len(keys))])
		}
		// chains move on between additions
		if t.Rng.IntN(2) == 0 && len(model.states) > 0 {
			s := model.states[t.Rng.IntN(len(model.states))]
			st := rec.StateForChainID(s.ep.chainID)
			st.SetSenderChainKey(st.SenderChainKey().Next())
			s.next++
		}
	}
}

// first12: the first distribution message makes one key and repeated issuing does not make another; records of
// other senders and distributions are untouched.
func first12(t *T, i int) {
	g := newGSim(t, 3, 3)
	g.Bad = func(f string, a ...any) { t.Violate(f, a...) }
	m := &mon12{t, g, map[gkey]*spent{}}
	n := g.Nodes[2]
	var ks []gkey
	for _, a := range g.Nodes[:2] {
		for _, d := range g.Dists {
			k := gkey{a, d}
			ks = append(ks, k)
			s := m.distribute(k)
			if t.Rng.IntN(2) == 0 {
				m.process(n, s)
				m.deliver(n, m.send(k, []byte("x")))
			}
		}
	}
	for op := 0; op < 30; op++ {
		k := ks[t.Rng.IntN(len(ks))]
		other := ks[t.Rng.IntN(len(ks))]
		if other == k {
			continue
		}
		var before []string
		for _, p := range g.Nodes {
			before = append(before, dump(load12(p.P, other)))
		}
		switch t.Rng.IntN(3) {
		case 0:
			m.process(n, m.distribute(k))
		case 1:
			m.send(k, []byte("y"))
		case 2:
			g.rotate(k, t.Rng.IntN(2) == 0)
			m.distribute(k)
		}
		t.Eval()
		for j, p := range g.Nodes {
			if d := dump(load12(p.P, other)); d != before[j] {
				t.Violate("%v: work on %v/%s changed the record of %v/%s", p.Addr, k.from.Addr, k.dist, other.from.Addr, other.dist)
			}
		}
		t.Count("unrelated records unchanged", 1)
	}
}

// distant12: distribution messages of a known key from far ahead or behind leave the receiver's chain where it is, and
// near-identical chain ids stay apart.
func distant12(t *T, i int) {
	p := newParty(t, "bob", 1)
	from := address.Address{Name: "alice", DeviceID: address.DeviceID(1 + t.Rng.IntN(3))}
	dist := newDist(t)
	start := []uint32{0, 1, 1000, 30_000, 1 << 20, 1<<31 - 5, 1<<32 - 100_000}[i%7]
	s := &ref.GroupSender{Dist: []byte(dist.String()), ChainID: t.Rng.Uint32() >> t.Rng.IntN(20), CK: randBytes(t, 32), N: start, Sign: ref.GenKP(t.R)}
	process := func(x *ref.GroupSender) error {
		m, err := message.NewSenderKeyDistributionFromBytes(x.SKD())
		if err != nil {
			return err
		}
		return p.Group(from, distribution.ID{}).ProcessSenderKeyDistribution(ctx, m)
	}
	load := func() *session.GroupRecord {
		r, ok, err := p.St.in.GroupStore().Load(ctx, from, dist)
		if err != nil || !ok {
			t.Skip("no record: %v", err)
		}
		return r
	}
	ok02(t, process(s))
	var ms [][]byte
	for j := 0; j < 20; j++ {
		ms = append(ms, s.Encrypt([]byte(fmt.Sprint("m", j)), randBytes(t, 64)))
	}
	open := func(w []byte) ([]byte, error) {
		m, err := message.NewSenderKeyFromBytes(clone(w))
		if err != nil {
			return nil, err
		}
		return p.Group(from, dist).DecryptMessage(ctx, m)
	}
	for _, j := range []int{0, 4} {
		if pt, err := open(ms[j]); err != nil || string(pt) != fmt.Sprint("m", j) {
			t.Skip("message refused: %v", err)
		}
	}
	for _, d := range []int64{1, 2, 100, 1999, 2000, 2001, 24_999, 25_000, 25_001, 25_100, 50_001, 1 << 16, 1 << 20, 1 << 31, -1, -2, -100, -25_001, -1 << 20} {
		it := int64(start) + 20 + d
		if it < 0 || it >= 1<<32 {
			continue
		}
		x := *s
		x.N = uint32(it)
		if d > 0 && d < 60_000 {
			x.CK = clone(s.CK)
			for k := int64(0); k < d; k++ {
				x.CK = ref.NextChain(x.CK)
			}
		} else {
			x.CK = randBytes(t, 32) // cannot be told from the real one
		}
		before := dump(load())
		if err := process(&x); err != nil {
			t.Skip("distribution message refused: %v", err)
		}
		t.Eval()
		t.Count("distant distribution messages processed", 1)
		t.Seen("distant", start, d)
		if a := dump(load()); a != before {
			t.Violate("processing a distribution message of a known sender key, %d iterations from the receiver's, changed the record\nbefore: %s\nafter:  %s", d, clip(before), clip(a))
		}
	}
	// other keys of the sender whose chain ids differ in one bit each
	near := *s
	for k := 0; k < 3; k++ {
		near.ChainID ^= 1 << []int{31, 0, 7, 8, 15, 16, 24, 30}[(i+3*k)%8]
		near.Sign, near.CK, near.N = ref.GenKP(t.R), randBytes(t, 32), 0
		old := load().StateForChainID(s.ChainID)
		if old == nil {
			t.Violate("chain %d is lost although only %d others were added", s.ChainID, k)
		}
		before := dump(old)
		if near.ChainID == s.ChainID {
			break
		}
		ok02(t, process(&near))
		st := load().StateForChainID(s.ChainID)
		t.Eval()
		if st == nil || dump(st) != before {
			t.Violate("adding chain %#x changed chain %#x", near.ChainID, s.ChainID)
		}
		if cur, err := load().State(); err != nil || cur.ChainID() != near.ChainID {
			t.Violate("chain %#x was added last but is not the current one", near.ChainID)
		}
		w := near.Encrypt([]byte("near"), randBytes(t, 64))
		if pt, err := open(w); err != nil || string(pt) != "near" {
			t.Violate("a message under chain %#x, added next to %#x, gives %q, %v", near.ChainID, s.ChainID, pt, err)
		}
	}
	for _, j := range t.Rng.Perm(20) {
		if j == 0 || j == 4 {
			continue
		}
		t.Eval()
		if pt, err := open(ms[j]); err != nil || string(pt) != fmt.Sprint("m", j) {
			t.Violate("after distant distribution messages, message %d gives %q, %v", j, pt, err)
		}
	}
}

// remove12 removes the sender keys with a chain id from a bare record, or only that with a given signing key.
func remove12(t *T, m *mon12, rec *session.GroupRecord, model *gmRecord, all map[uint32]bool, id uint32, kp *curve.KeyPair) {
	ms := model.byChain(id)
	before := all12(rec, all)
	what := "removing a chain"
	gone := ms != nil
	if t.Rng.IntN(2) == 0 {
		what = "removing a sender key"
		st := rec.StateForChainID(id)
		gone = ms != nil && bytes.Equal(ms.ep.sign, kp.PublicKey().Bytes())
		got, ok := rec.RemoveState(id, kp.PublicKey())
		if ok != gone {
			t.Violate("RemoveState of chain %d tells %v, must tell %v", id, ok, gone)
		}
		if gone && (got == nil || dump(got) != dump(st)) {
			t.Violate("RemoveState of chain %d gives another state than the one removed", id)
		}
	} else {
		want := 0
		if gone {
			want = 1
		}
		if n := rec.RemoveStates(id); n != want {
			t.Violate("RemoveStates of chain %d tells %d, must tell %d", id, n, want)
		}
	}
	t.Logf("%s %d: removed %v", what, id, gone)
	if gone {
		for i, s := range model.states {
			if s == ms {
				model.states = append(model.states[:i:i], model.states[i+1:]...)
				break
			}
		}
		if rec.StateForChainID(id) != nil {
			t.Violate("chain %d is still there after %s", id, what)
		}
	}
	m.compare("a bare record", rec, model, all, what)
	if len(model.states) == 0 {
		if st, err := rec.State(); err == nil {
			t.Violate("an emptied record still has a current sender key (chain %d)", st.ChainID())
		}
	}
	for x, d := range all12(rec, all) {
		if b, was := before[x]; !was || b != d {
			t.Violate("%s %d changed retained chain %d", what, id, x)
		}
	}
	t.Count("sender keys removed from bare records", 1)
}
