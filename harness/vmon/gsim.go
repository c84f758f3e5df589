package main

import (
	"bytes"
	"fmt"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/perrors"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/harness/ref"

	"errors"
)

const modelMaxSenderKeys = 5

// epoch is one sender key.
type epoch struct {
	id      int
	chainID uint32
	sign    []byte // public signing key
	next    uint32 // the sender's next iteration
}

// gmState is a receiver's (or the sender's) view of an epoch.
type gmState struct {
	ep      *epoch
	next    uint32
	skipped []uint32
	gen     *int // identity of this copy of the key, from being added to being dropped
}

func (s *gmState) clone() *gmState {
	c := *s
	c.skipped = append([]uint32(nil), s.skipped...)
	return &c
}

// gmRecord is the model of a group record: newest last.
type gmRecord struct{ states []*gmState }

func (r *gmRecord) byChain(id uint32) *gmState {
	for _, s := range r.states {
		if s.ep.chainID == id {
			return s
		}
	}
	return nil
}

func (r *gmRecord) byEpoch(e *epoch) *gmState {
	for _, s := range r.states {
		if s.ep == e {
			return s
		}
	}
	return nil
}

func (r *gmRecord) add(e *epoch, iter uint32) {
	var existing *gmState
	var keep []*gmState
	for _, s := range r.states {
		if s.ep == e {
			existing = s
		} else if s.ep.chainID != e.chainID {
			keep = append(keep, s)
		}
	}
	if existing == nil {
		existing = &gmState{ep: e, next: iter, gen: new(int)}
	}
	if len(keep) >= modelMaxSenderKeys {
		keep = keep[1:]
	}
	r.states = append(keep, existing)
}

// gkey names a sender's distribution.
type gkey struct {
	from *Node
	dist distribution.ID
}

// GMsg is a group message.
type GMsg struct {
	N        int
	K        gkey
	Ep       *epoch
	Iter     uint32
	Wire     []byte
	Plain    []byte
	Accepted map[*Node]int
	Gen      map[*Node]*int // the copy of the key that opened it
}

func (m *GMsg) String() string {
	return fmt.Sprintf("g%d %v/%s key%d iter%d", m.N, m.K.from.Addr, m.K.dist.String()[:4], m.Ep.id, m.Iter)
}

// SKD is a distribution message.
type SKD struct {
	K    gkey
	Ep   *epoch
	Iter uint32
	Wire []byte
}

// GSim is a network of group members.
type GSim struct {
	T     *T
	Nodes []*Node
	Dists []distribution.ID
	Cur   map[gkey]*gmRecord           // sender's own record
	Recs  map[*Node]map[gkey]*gmRecord // receivers' records
	Msgs  []*GMsg
	SKDs  []*SKD
	ep    int
	// Bad is told when an emitted message deviates from the model.
	Bad func(f string, a ...any)
}

func newDist(t *T) distribution.ID {
	b := randBytes(t, 16)
	return distribution.MustParse(fmt.Sprintf("%x-%x-%x-%x-%x", b[:4], b[4:6], b[6:8], b[8:10], b[10:]))
}

func newGSim(t *T, members, dists int) *GSim {
	g := &GSim{T: t, Cur: map[gkey]*gmRecord{}, Recs: map[*Node]map[gkey]*gmRecord{}}
	names := []string{"alice", "bob", "alice", "carol", "alic", "dave"}
	devs := []uint32{1, 1, 2, 1, 1, 7}
	for i := 0; i < members; i++ {
		p := newParty(t, names[i], devs[i])
		n := &Node{P: p, Addr: p.Addr}
		g.Nodes = append(g.Nodes, n)
		g.Recs[n] = map[gkey]*gmRecord{}
	}
	for i := 0; i < dists; i++ {
		g.Dists = append(g.Dists, newDist(t))
	}
	return g
}

func (g *GSim) bad(f string, a ...any) {
	if g.Bad != nil {
		g.Bad(f, a...)
	}
}

// distribute issues a distribution message (making the first sender key if there is none).
func (g *GSim) distribute(k gkey) *SKD {
	m, err := k.from.P.Group(k.from.Addr, k.dist).NewSenderKeyDistribution(k.from.P.begin("distribute", k.from.Addr, k.dist, nil), k.from.P.R)
	if err != nil {
		k.from.P.done(nil, err)
		g.T.Logf("%v/%s distribution -> %v", k.from.Addr, k.dist, err)
		g.bad("cannot issue a distribution message: %v", err)
		g.T.Skip("cannot issue a distribution message: %v", err)
	}
	w := clone(m.Bytes())
	k.from.P.done(w, nil)
	p, err := ref.ParseSKD(w)
	if err != nil {
		g.bad("distribution message does not parse: %v", err)
		g.T.Skip("distribution message does not parse: %v", err)
	}
	r := g.Cur[k]
	if r == nil {
		r = &gmRecord{}
		g.ep++
		r.add(&epoch{id: g.ep, chainID: p.ChainID, sign: clone(p.SigningKey)}, 0)
		g.Cur[k] = r
	}
	cur := r.states[len(r.states)-1]
	if p.ChainID != cur.ep.chainID || !bytes.Equal(p.SigningKey, cur.ep.sign) {
		g.bad("distribution message carries sender key %d, the current one is %d", p.ChainID, cur.ep.chainID)
	}
	if p.Iteration != cur.ep.next {
		g.bad("distribution message issued at iteration %d, the sender is at %d", p.Iteration, cur.ep.next)
	}
	if string(p.Dist) != k.dist.String() {
		g.bad("distribution message names %q, not %s", p.Dist, k.dist)
	}
	s := &SKD{K: k, Ep: cur.ep, Iter: cur.ep.next, Wire: w}
	g.SKDs = append(g.SKDs, s)
	g.T.Logf("%v/%s issues distribution of key%d at %d", k.from.Addr, k.dist.String()[:4], s.Ep.id, s.Iter)
	g.T.Count("distribution messages issued", 1)
	return s
}

// rotate adds a sender key to the sender's record, as an application does; chain reuses the chain id of a retained one.
func (g *GSim) rotate(k gkey, reuse bool) {
	r := g.Cur[k]
	if r == nil {
		return
	}
	rec := loadGroup(k.from.P, k.from.Addr, k.dist)
	kp := must(curve.GenerateKeyPair(k.from.P.R))
	id := g.T.Rng.Uint32() >> g.T.Rng.IntN(2)
	switch near := r.states[g.T.Rng.IntN(len(r.states))].ep.chainID; g.T.Rng.IntN(6) { // ids that differ little
	case 0:
		id = near ^ 1<<g.T.Rng.IntN(32)
	case 1:
		id = near ^ 1<<31
	case 2:
		id = near ^ 1<<g.T.Rng.IntN(8)
	}
	if reuse {
		id = r.states[g.T.Rng.IntN(len(r.states))].ep.chainID
	}
	iter := uint32(0)
	if g.T.Rng.IntN(4) == 0 {
		iter = g.T.Rng.Uint32N(1000)
	}
	st := session.NewGroupState(session.GroupStateConfig{MessageVersion: message.SenderKeyVersion, ChainID: id, Iteration: iter, ChainKey: randBytes(g.T, 32), SignatureKey: kp.PublicKey(), SignaturePrivateKey: kp.PrivateKey()})
	if err := rec.AddState(st); err != nil {
		g.T.Skip("AddState: %v", err)
	}
	if err := k.from.P.St.in.GroupStore().Store(ctx, k.from.Addr, k.dist, rec); err != nil {
		g.T.Skip("store: %v", err)
	}
	g.ep++
	r.add(&epoch{id: g.ep, chainID: id, sign: kp.PublicKey().Bytes(), next: iter}, iter)
	g.T.Logf("%v/%s rotates to key%d (chain %d, iteration %d, reuse %v)", k.from.Addr, k.dist.String()[:4], g.ep, id, iter, reuse)
	g.T.Count("sender keys rotated", 1)
}

// send encrypts a group message; nil if there is no sender key.
func (g *GSim) send(k gkey, pt []byte) *GMsg {
	r := g.Cur[k]
	if r == nil {
		return nil
	}
	m, err := k.from.P.Group(k.from.Addr, k.dist).EncryptMessage(k.from.P.begin("group encrypt", k.from.Addr, k.dist, pt), k.from.P.R, clone(pt))
	if err != nil {
		k.from.P.done(nil, err)
		g.T.Logf("%v/%s send -> %v", k.from.Addr, k.dist, err)
		g.bad("cannot send: %v", err)
		g.T.Skip("cannot send: %v", err)
	}
	cur := r.states[len(r.states)-1]
	w := clone(m.Bytes())
	k.from.P.done(w, nil)
	x := &GMsg{N: len(g.Msgs), K: k, Ep: cur.ep, Iter: cur.ep.next, Wire: w, Plain: pt, Accepted: map[*Node]int{}, Gen: map[*Node]*int{}}
	p, err := ref.ParseSenderKey(w)
	if err != nil {
		g.bad("emitted group message does not parse: %v", err)
		g.T.Skip("emitted group message does not parse: %v", err)
	}
	if p.ChainID != cur.ep.chainID || p.Iteration != cur.ep.next || string(p.Dist) != k.dist.String() {
		g.bad("%v emitted as %s chain %d iteration %d, expected chain %d iteration %d", x, p.Dist, p.ChainID, p.Iteration, cur.ep.chainID, cur.ep.next)
	}
	cur.ep.next++
	cur.next = cur.ep.next
	g.Msgs = append(g.Msgs, x)
	if len(g.Msgs) < 3000 {
		g.T.Logf("sends %v (%d bytes)", x, len(pt))
	}
	g.T.Count("group messages sent", 1)
	return x
}

// process makes n process a distribution message attributed to its issuer.
func (g *GSim) process(n *Node, s *SKD) error {
	m, err := message.NewSenderKeyDistributionFromBytes(clone(s.Wire))
	if err == nil {
		err = n.P.Group(s.K.from.Addr, distribution.ID{}).ProcessSenderKeyDistribution(n.P.begin("process", s.K.from.Addr, m.DistributionID(), m.Bytes()), m)
		n.P.done(nil, err)
	}
	g.T.Logf("%v processes distribution of %v/%s key%d at %d -> %v", n.Addr, s.K.from.Addr, s.K.dist.String()[:4], s.Ep.id, s.Iter, err)
	watch.err(err)
	if err != nil {
		return err
	}
	r := g.Recs[n][s.K]
	if r == nil {
		r = &gmRecord{}
		g.Recs[n][s.K] = r
	}
	if r.byEpoch(s.Ep) != nil {
		g.T.Count("known sender keys processed again", 1)
	}
	if o := r.byChain(s.Ep.chainID); o != nil && o.ep != s.Ep {
		g.T.Count("sender keys replaced under the same chain id", 1)
	}
	if len(r.states) == modelMaxSenderKeys && r.byChain(s.Ep.chainID) == nil {
		g.T.Count("sender keys evicted", 1)
	}
	r.add(s.Ep, s.Iter)
	g.T.Count("distribution messages processed", 1)
	return nil
}

// GResult is what happened at a delivery.
type GResult struct {
	Pred  pred
	How   string
	Plain []byte
	Err   error
	OK    bool
}

// predict says what n must do with m; next is the state after acceptance.
func (g *GSim) predict(n *Node, m *GMsg) (p pred, next *gmState, how string) {
	r := g.Recs[n][m.K]
	if r == nil {
		return pRefuse, nil, "no record"
	}
	st := r.byChain(m.Ep.chainID)
	if st == nil || st.ep != m.Ep {
		return pRefuse, nil, "sender key not held"
	}
	s := st.clone()
	how = "current"
	if r.states[len(r.states)-1] != st {
		how = "older key"
	}
	if m.Iter < s.next {
		for i, k := range s.skipped {
			if k == m.Iter {
				s.skipped = append(s.skipped[:i], s.skipped[i+1:]...)
				return pAccept, s, how + " late"
			}
		}
		return pDuplicate, nil, how + " duplicate"
	}
	if m.Iter-s.next > modelMaxJump {
		return pRefuse, nil, how + " too far"
	}
	if m.Iter > s.next {
		how += " jump"
	}
	for s.next < m.Iter {
		s.skipped = append(s.skipped, s.next)
		s.next++
		if len(s.skipped) > modelMaxSkipped {
			s.skipped = s.skipped[1:]
		}
	}
	s.next++
	return pAccept, s, how
}

func (g *GSim) open(n *Node, from address.Address, wire []byte) ([]byte, error) {
	m, err := message.NewSenderKeyFromBytes(clone(wire))
	if err != nil {
		watch.err(err)
		return nil, err
	}
	pt, err := n.P.Group(from, distribution.ID{}).DecryptMessage(n.P.begin("group decrypt", from, m.DistributionID(), m.Bytes()), m)
	watch.err(err)
	n.P.done(pt, err)
	return pt, err
}

// deliver presents m to n.
func (g *GSim) deliver(n *Node, m *GMsg) GResult {
	p, next, how := g.predict(n, m)
	pt, err := g.open(n, m.K.from.Addr, m.Wire)
	g.T.Logf("%v at %v: model %v (%s), library %s err=%v", m, n.Addr, p, how, hexs(pt), err)
	if p == pAccept && err == nil {
		r := g.Recs[n][m.K]
		for i, s := range r.states {
			if s.ep == m.Ep {
				r.states[i] = next
			}
		}
		m.Accepted[n]++
		m.Gen[n] = next.gen
		g.T.Count("accepted: "+how, 1)
	} else {
		g.T.Count("presented: "+how, 1)
	}
	return GResult{p, how, pt, err, err == nil}
}

// held reports whether n accepted m and has retained the sender key that opened it ever since.
func (g *GSim) held(n *Node, m *GMsg) bool {
	r := g.Recs[n][m.K]
	if r == nil || m.Accepted[n] == 0 {
		return false
	}
	s := r.byEpoch(m.Ep)
	return s != nil && s.gen == m.Gen[n]
}

func isDup(err error) bool { return errors.Is(err, perrors.ErrDuplicateMessage) }

// gdriver receives the events of a group schedule.
type gdriver struct {
	onDeliver func(n *Node, m *GMsg, r GResult)
	onProcess func(n *Node, s *SKD, err error)
	after     func()
	extra     func()
}

type gprofile struct {
	send, distribute, process, reprocess, deliver, replay, rotate int
	reuse                                                         int // percent of rotations that reuse a chain id
	order                                                         int // percent of deliveries in order of sending
	ops                                                           int
	burst                                                         int // largest burst
}

var gprofiles = []gprofile{
	{send: 40, distribute: 4, process: 10, reprocess: 4, deliver: 60, replay: 8, rotate: 1, order: 30, ops: 260, burst: 1},
	{send: 30, distribute: 10, process: 25, reprocess: 10, deliver: 60, replay: 8, rotate: 6, reuse: 30, order: 10, ops: 320, burst: 1},
	{send: 30, distribute: 4, process: 12, reprocess: 8, deliver: 70, replay: 8, rotate: 1, order: 3, ops: 260, burst: 30},
	{send: 25, distribute: 14, process: 30, reprocess: 8, deliver: 60, replay: 8, rotate: 14, reuse: 10, order: 10, ops: 400, burst: 1},
}

func (g *GSim) anyKey() gkey {
	return gkey{g.Nodes[g.T.Rng.IntN(len(g.Nodes))], g.Dists[g.T.Rng.IntN(len(g.Dists))]}
}

func (g *GSim) other(n *Node) *Node {
	for {
		if x := g.Nodes[g.T.Rng.IntN(len(g.Nodes))]; x != n {
			return x
		}
	}
}

func (g *GSim) run(p gprofile, d gdriver) {
	t := g.T
	senders := 1 + t.Rng.IntN(len(g.Nodes)) // few talkative senders make long chains
	key := func() gkey {
		k := g.anyKey()
		k.from = g.Nodes[t.Rng.IntN(senders)]
		return k
	}
	for op := 0; op < p.ops; op++ {
		switch pick(t, p.send, p.distribute, p.process, p.reprocess, p.deliver, p.replay, p.rotate) {
		case 0:
			k := key()
			if g.Cur[k] == nil {
				s := g.distribute(k)
				for _, n := range g.Nodes {
					if n != k.from && t.Rng.IntN(3) > 0 {
						err := g.process(n, s)
						d.onProcess(n, s, err)
					}
				}
			}
			c := 1
			if p.burst > 1 && t.Rng.IntN(6) == 0 {
				c += t.Rng.IntN(p.burst)
			}
			for ; c > 0; c-- {
				g.send(k, plaintextOf(t.Rng, t.R))
			}
		case 1:
			g.distribute(key())
		case 2: // a recent distribution message
			if len(g.SKDs) > 0 {
				s := g.SKDs[len(g.SKDs)-1-t.Rng.IntN(min(4, len(g.SKDs)))]
				n := g.other(s.K.from)
				err := g.process(n, s)
				d.onProcess(n, s, err)
			}
		case 3: // any distribution message, again
			if len(g.SKDs) > 0 {
				s := g.SKDs[t.Rng.IntN(len(g.SKDs))]
				n := g.other(s.K.from)
				err := g.process(n, s)
				d.onProcess(n, s, err)
			}
		case 4, 5:
			if len(g.Msgs) == 0 {
				continue
			}
			m := g.Msgs[t.Rng.IntN(len(g.Msgs))]
			if t.Rng.IntN(2) == 0 {
				m = g.Msgs[len(g.Msgs)-1-t.Rng.IntN(min(15, len(g.Msgs)))]
			}
			n := g.other(m.K.from)
			if t.Rng.IntN(100) < p.order {
				for _, x := range g.Msgs {
					if x.K == m.K && x.Ep == m.Ep && x.Accepted[n] == 0 {
						if q, _, _ := g.predict(n, x); q == pAccept {
							m = x
							break
						}
					}
				}
			}
			r := g.deliver(n, m)
			t.Eval()
			d.onDeliver(n, m, r)
		case 6:
			g.rotate(key(), t.Rng.IntN(100) < p.reuse)
		}
		if d.after != nil {
			d.after()
		}
		if d.extra != nil && t.Rng.IntN(6) == 0 {
			d.extra()
		}
	}
}

func (g *GSim) shape() string {
	s := ""
	for _, n := range g.Nodes {
		for _, r := range g.Recs[n] {
			s += fmt.Sprint(len(r.states), ":")
			for _, st := range r.states {
				s += fmt.Sprint(bucket(int(st.next)), "/", len(st.skipped), " ")
			}
		}
	}
	return s
}
