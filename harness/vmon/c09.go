package main

import (
	"bytes"
	"fmt"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:   "C09",
		Rule: "Random schedules of several group senders, receivers and distributions (sends, reordered and lost deliveries, late joiners, repeated distribution messages, key rotations with and without reuse of chain ids) judged by a delivery model that knows who holds which sender key from which iteration on; plus directed runs at the limits. Distinct by the shape of all receivers' chains.",
		Run:  runC09,
		Assume: []string{
			"sender keys are rotated as an application would: load the record, AddState, store",
		},
	})
	register(&Check{
		ID:   "C10",
		Rule: "Random group schedules in which every accepted message is presented again: at once, at random later points, after the same and later distribution messages of its sender key were processed again, and at the end of the history. Distinct by the shape of the receivers' chains and the way the message was first accepted.",
		Run:  runC10,
	})
}

func judge09(t *T, n *Node, m *GMsg, r GResult) {
	if r.Pred != pAccept {
		return
	}
	if !r.OK {
		t.Violate("%v refused by %v (%s): %v", m, n.Addr, r.How, r.Err)
	}
	if !bytes.Equal(r.Plain, m.Plain) {
		t.Violate("%v decrypted by %v to %x, was %x", m, n.Addr, r.Plain, m.Plain)
	}
}

func driver09(t *T) gdriver {
	return gdriver{
		onDeliver: func(n *Node, m *GMsg, r GResult) { judge09(t, n, m, r) },
		onProcess: func(n *Node, s *SKD, err error) {
			if err != nil {
				t.Violate("%v refuses a genuine distribution message of %v: %v", n.Addr, s.K.from.Addr, err)
			}
		},
	}
}

func runC09(c *C) {
	c.Cases("history", c.N(220, 5000), func(t *T, i int) {
		g := newGSim(t, 2+t.Rng.IntN(4), 1+t.Rng.IntN(3))
		g.Bad = func(f string, a ...any) { t.Violate(f, a...) }
		d := driver09(t)
		g.run(gprofiles[i%len(gprofiles)], d)
		// at the end everything that is still within the limits arrives, in random order
		for _, j := range t.Rng.Perm(len(g.Msgs)) {
			m := g.Msgs[j]
			for _, n := range g.Nodes {
				if n == m.K.from || m.Accepted[n] > 0 {
					continue
				}
				if p, _, _ := g.predict(n, m); p == pAccept {
					r := g.deliver(n, m)
					t.Eval()
					d.onDeliver(n, m, r)
				}
			}
		}
		t.Seen(g.shape())
		if t.wantSample() {
			t.Sample(map[string]any{"case": t.Name, "messages": len(g.Msgs), "events": tail(t.log, 10)})
		}
	})
	c.Cases("limits", c.N(10, 40), limits09)
	c.Cases("window", c.N(8, 80), window09)
	c.Cases("iterations", c.N(6, 6), iterations09)
	c.Cases("edges", c.N(27, 108), func(t *T, i int) { groupStream(t).judge(t, true).edges(t, i) })
	c.Cases("big", c.N(5, 20), big09)
	c.One("far", func(t *T) { groupStream(t).judge(t, true).far(t, c.N(17, 20)) })
	c.Cases("gaps", c.N(30, 600), func(t *T, i int) { groupStream(t).judge(t, true).gaps(t) })
	c.Cases("many", c.N(6, 30), func(t *T, i int) { // one long chain, received in blocks shuffled within a window
		g := newGSim(t, 3, 1)
		g.Bad = func(f string, a ...any) { t.Violate(f, a...) }
		k := gkey{g.Nodes[0], g.Dists[0]}
		skd := g.distribute(k)
		for _, n := range g.Nodes[1:] {
			if err := g.process(n, skd); err != nil {
				t.Violate("distribution refused: %v", err)
			}
		}
		var block []*GMsg
		for j := 0; j < 1500; j++ {
			block = append(block, g.send(k, []byte(fmt.Sprint("m", j))))
			if len(block) == 1+t.Rng.IntN(300) || j == 1499 {
				for _, n := range g.Nodes[1:] {
					for _, x := range t.Rng.Perm(len(block)) {
						judge09(t, n, block[x], g.deliver(n, block[x]))
					}
				}
				block = nil
			}
		}
		t.Seen("many", i)
	})
	c.Require("group messages sent", 3000)
	c.Require("accepted: current", 1000)
	c.Require("accepted: current late", 300)
	c.Require("accepted: current jump", 300)
	c.Require("accepted: older key", 20)
	c.Require("sender keys evicted", 5)
	c.Require("limits reached", 8)
}

// limits09: messages exactly at each limit are delivered.
func limits09(t *T, i int) {
	g := newGSim(t, 3, 2)
	g.Bad = func(f string, a ...any) { t.Violate(f, a...) }
	k := gkey{g.Nodes[0], g.Dists[0]}
	n := g.Nodes[1]
	give := func(m *GMsg, what string) {
		r := g.deliver(n, m)
		t.Eval()
		if r.Pred != pAccept {
			t.Skip("the model does not expect %v (%s) to be accepted", m, what)
		}
		if !r.OK || !bytes.Equal(r.Plain, m.Plain) {
			t.Violate("%s: %v refused: %v", what, m, r.Err)
		}
		t.Count("limits reached", 1)
	}
	join := func(s *SKD) {
		if err := g.process(n, s); err != nil {
			t.Violate("distribution refused: %v", err)
		}
	}
	fast := func(num int) { // messages that are lost
		for j := 0; j < num; j++ {
			g.send(k, []byte("lost"))
		}
	}
	join(g.distribute(k))
	switch i % 5 {
	case 0: // 25,000 ahead, from the first message and again
		fast(modelMaxJump)
		give(g.send(k, []byte("far")), "25,000 ahead")
		if i%2 == 1 {
			fast(modelMaxJump)
			give(g.send(k, []byte("far again")), "25,000 ahead again")
		}
	case 1: // the 2,000 most recently skipped
		give(g.send(k, []byte("first")), "first")
		first := len(g.Msgs)
		fast(2000 + t.Rng.IntN(200))
		give(g.send(k, []byte("jump")), "jump")
		last := len(g.Msgs) - 1
		for _, j := range t.Rng.Perm(2000) {
			if j < 30 || j > 1970 || j%97 == 0 {
				give(g.Msgs[last-1-j], "recently skipped")
			}
		}
		_ = first
	case 2: // five keys, messages of the oldest arrive last
		var old []*GMsg
		for e := 0; e < 5; e++ {
			if e > 0 {
				g.rotate(k, false)
				join(g.distribute(k))
			}
			for j := 0; j < 4; j++ {
				old = append(old, g.send(k, []byte(fmt.Sprint("key", e, "msg", j))))
			}
		}
		for _, j := range t.Rng.Perm(len(old)) {
			give(old[j], "one of five keys")
		}
	case 3: // using a key again keeps it among the five: process the oldest distribution again, then add one more
		first := g.SKDs[0]
		var ms []*GMsg
		ms = append(ms, g.send(k, []byte("k0 a")), g.send(k, []byte("k0 b")), g.send(k, []byte("k0 c")))
		give(ms[1], "first key")
		for e := 1; e < 5; e++ {
			g.rotate(k, false)
			join(g.distribute(k))
			ms = append(ms, g.send(k, []byte(fmt.Sprint("k", e))))
		}
		join(first)
		g.rotate(k, false)
		join(g.distribute(k))
		ms = append(ms, g.send(k, []byte("k5")))
		for _, j := range t.Rng.Perm(len(ms)) {
			m := ms[j]
			if m.Accepted[n] > 0 {
				continue
			}
			if p, _, _ := g.predict(n, m); p == pAccept {
				give(m, "after re-adding the oldest key")
			}
		}
	case 4: // skipping in several steps, with keys spread over the window
		var keep []*GMsg
		for s := 0; s < 6; s++ {
			for j := 0; j < 300; j++ {
				m := g.send(k, []byte("x"))
				if j%60 == 0 {
					keep = append(keep, m)
				}
			}
			give(g.send(k, []byte("step")), "step")
		}
		for _, j := range t.Rng.Perm(len(keep)) {
			give(keep[j], "within the window")
		}
	}
	t.Seen("limit", i)
}

// iterations09: chains whose iteration numbers are large.
func iterations09(t *T, i int) {
	g := newGSim(t, 2, 1)
	k := gkey{g.Nodes[0], g.Dists[0]}
	g.distribute(k)
	start := []uint32{1<<7 - 10, 1<<14 - 10, 1<<21 - 10, 1<<28 - 10, 1<<31 - 10, 1<<32 - 60}[i]
	a := k.from.P
	rec := loadGroup(a, k.from.Addr, k.dist)
	sign := ref.GenKP(t.R)
	_ = sign
	cur := must(rec.State())
	priv := must(cur.PrivateSigningKey())
	st := session.NewGroupState(session.GroupStateConfig{MessageVersion: message.SenderKeyVersion, ChainID: cur.ChainID() ^ 1, Iteration: start, ChainKey: randBytes(t, 32), SignatureKey: priv.PublicKey(), SignaturePrivateKey: priv})
	if err := rec.AddState(st); err != nil {
		t.Skip("%v", err)
	}
	a.St.in.GroupStore().Store(ctx, k.from.Addr, k.dist, rec)
	g.ep++
	g.Cur[k].add(&epoch{id: g.ep, chainID: cur.ChainID() ^ 1, sign: priv.PublicKey().Bytes(), next: start}, start)
	if err := g.process(g.Nodes[1], g.distribute(k)); err != nil {
		t.Violate("distribution at iteration %d refused: %v", start, err)
	}
	var ms []*GMsg
	for j := 0; j < 40; j++ {
		ms = append(ms, g.send(k, []byte(fmt.Sprint("m", j))))
	}
	for _, j := range t.Rng.Perm(40) {
		r := g.deliver(g.Nodes[1], ms[j])
		t.Eval()
		judge09(t, g.Nodes[1], ms[j], r)
	}
	t.Count("chains crossing a large iteration", 1)
	t.Seen("iteration", start)
}

func judge10(t *T, g *GSim, n *Node, m *GMsg, what string) {
	p, _, _ := g.predict(n, m)
	pt, err := g.open(n, m.K.from.Addr, m.Wire)
	t.Eval()
	t.Count("accepted messages presented again", 1)
	if pt != nil || err == nil {
		t.Violate("%v accepted again by %v %s", m, n.Addr, what)
	}
	if p == pDuplicate && !isDup(err) {
		t.Violate("%v presented again to %v %s: refused with %q, not as a duplicate", m, n.Addr, what, err)
	}
}

func runC10(c *C) {
	c.Cases("history", c.N(220, 5000), func(t *T, i int) {
		g := newGSim(t, 2+t.Rng.IntN(3), 1+t.Rng.IntN(2))
		var done []*GMsg
		where := map[*GMsg]*Node{}
		held := g.held
		d := gdriver{
			onDeliver: func(n *Node, m *GMsg, r GResult) {
				if r.Pred == pAccept {
					if !r.OK {
						t.Skip("%v refused: %v", m, r.Err)
					}
					done = append(done, m)
					where[m] = n
					judge10(t, g, n, m, "at once")
					t.Seen(r.How, len(g.Recs[n][m.K].states), bucket(int(m.Iter)))
					return
				}
				if m.Accepted[n] > 0 && held(n, m) {
					if r.OK {
						t.Violate("%v accepted again by %v", m, n.Addr)
					}
					if !isDup(r.Err) {
						t.Violate("%v presented again to %v: refused with %q, not as a duplicate", m, n.Addr, r.Err)
					}
				}
			},
			onProcess: func(n *Node, s *SKD, err error) {
				if err != nil {
					t.Skip("distribution refused: %v", err)
				}
				// what was accepted under this key stays refused
				cnt := 0
				for j := len(g.Msgs) - 1; j >= 0 && cnt < 6; j-- {
					if m := g.Msgs[j]; m.Ep == s.Ep && m.Accepted[n] > 0 && held(n, m) {
						judge10(t, g, n, m, "after its distribution message was processed again")
						t.Count("presented again after redistribution", 1)
						cnt++
					}
				}
			},
			extra: func() {
				if len(done) > 0 {
					m := done[t.Rng.IntN(len(done))]
					if n := where[m]; held(n, m) {
						judge10(t, g, n, m, "later")
					}
				}
			},
		}
		g.run(gprofiles[i%len(gprofiles)], d)
		for _, m := range g.Msgs {
			for _, n := range g.Nodes {
				if m.Accepted[n] > 0 && held(n, m) {
					judge10(t, g, n, m, "at the end")
				}
			}
		}
		if t.wantSample() {
			t.Sample(map[string]any{"case": t.Name, "accepted": len(done), "events": tail(t.log, 8)})
		}
	})
	c.Cases("edges", c.N(27, 108), func(t *T, i int) { groupStream(t).judge(t, false).edges(t, i) })
	c.One("far", func(t *T) { groupStream(t).judge(t, false).far(t, c.N(17, 20)) })
	c.Cases("gaps", c.N(30, 600), func(t *T, i int) { groupStream(t).judge(t, false).gaps(t) })
	c.Cases("deep", c.N(6, 24), func(t *T, i int) { // replays of late messages once the window has moved on
		g := newGSim(t, 2, 1)
		k := gkey{g.Nodes[0], g.Dists[0]}
		n := g.Nodes[1]
		s := g.distribute(k)
		if err := g.process(n, s); err != nil {
			t.Skip("%v", err)
		}
		var all []*GMsg
		for j := 0; j < 2500; j++ {
			all = append(all, g.send(k, []byte(fmt.Sprint(j))))
		}
		order := append([]int{0, 2400}, t.Rng.Perm(2400)...)
		taken := 0
		for _, j := range order {
			m := all[j]
			if m.Accepted[n] > 0 {
				continue
			}
			if p, _, _ := g.predict(n, m); p != pAccept {
				continue
			}
			if r := g.deliver(n, m); !r.OK {
				t.Skip("%v refused: %v", m, r.Err)
			}
			judge10(t, g, n, m, "at once")
			taken++
			if taken > 150 {
				break
			}
		}
		if i%2 == 0 {
			g.process(n, s)
		}
		for _, m := range all {
			if m.Accepted[n] > 0 {
				judge10(t, g, n, m, "at the end")
			}
		}
		g.deliver(n, all[2499])
		for _, m := range all {
			if m.Accepted[n] > 0 {
				judge10(t, g, n, m, "after the chain moved on")
			}
		}
		t.Seen("deep", i)
	})
	c.Require("accepted messages presented again", 5000)
	c.Require("presented again after redistribution", 300)
	c.Require("known sender keys processed again", 200)
}

// window09: the window of skipped messages is filled, thinned out and moved on, again and again; at the end exactly the
// 2,000 most recently skipped ones are still owed.
func window09(t *T, i int) {
	p := newParty(t, "bob", 1)
	from := address.Address{Name: "alice", DeviceID: 1}
	dist := newDist(t)
	s := &ref.GroupSender{Dist: []byte(dist.String()), ChainID: t.Rng.Uint32(), CK: randBytes(t, 32), Sign: ref.GenKP(t.R)}
	skd, err := message.NewSenderKeyDistributionFromBytes(s.SKD())
	ok(t, err)
	ok(t, p.Group(from, distribution.ID{}).ProcessSenderKeyDistribution(ctx, skd))
	open := func(w []byte) ([]byte, error) {
		m, err := message.NewSenderKeyFromBytes(clone(w))
		if err != nil {
			return nil, err
		}
		return p.Group(from, dist).DecryptMessage(ctx, m)
	}
	type held struct {
		it   uint32
		wire []byte // made for some only
	}
	var owed []held
	take := func(j int) {
		h := owed[j]
		pt, err := open(h.wire)
		t.Eval()
		if err != nil || string(pt) != fmt.Sprint("m", h.it) {
			t.Violate("message %d is among the 2,000 most recently skipped ones (position %d of %d) but gives %q, %v", h.it, j, len(owed), pt, err)
		}
		t.Count("limits reached", 1)
		owed = append(owed[:j:j], owed[j+1:]...)
	}
	for round := 0; round < 5; round++ {
		skip := []int{1990, 300, 100 + t.Rng.IntN(900), 25, 2000 + t.Rng.IntN(100)}[(round+i/2)%5]
		if i%2 == 0 && round == 0 {
			skip = 1990
		}
		for k := 0; k < skip; k++ {
			h := held{it: s.N}
			if t.Rng.IntN(12) == 0 || k < 2 || k > skip-3 {
				h.wire = s.Encrypt([]byte(fmt.Sprint("m", s.N)), randBytes(t, 64))
			} else {
				s.CK = ref.NextChain(s.CK)
				s.N++
			}
			owed = append(owed, h)
		}
		w := s.Encrypt([]byte("jump"), randBytes(t, 64))
		pt, err := open(w)
		t.Eval()
		if err != nil || string(pt) != "jump" {
			t.Violate("a message %d ahead gives %q, %v", skip, pt, err)
		}
		if len(owed) > 2000 {
			owed = owed[len(owed)-2000:]
		}
		// thin out: some of the middle, the oldest, the newest
		for k := 0; k < 12; k++ {
			j := t.Rng.IntN(len(owed))
			for d := 0; d < len(owed); d++ {
				if x := (j + d) % len(owed); owed[x].wire != nil {
					take(x)
					break
				}
			}
		}
		t.Seen("window", round, len(owed)/100)
	}
	var idx []int
	for j, h := range owed {
		if h.wire != nil {
			idx = append(idx, j)
		}
	}
	for k := len(idx) - 1; k >= 0; k-- {
		take(idx[k])
	}
}

// big09: plaintexts of many megabytes arrive intact.
func big09(t *T, i int) {
	g := newGSim(t, 3, 1)
	k := gkey{g.Nodes[0], g.Dists[0]}
	a := g.Nodes[0].P
	skd := g.distribute(k)
	for _, n := range g.Nodes[1:] {
		if err := g.process(n, skd); err != nil {
			t.Violate("distribution refused: %v", err)
		}
	}
	n := []int{1<<20 + 5, 2 << 20, 4<<20 - 1, 5<<20 + 3, 17<<20 + 1}[i%5]
	for _, n := range []int{n, n + t.Rng.IntN(17)} {
		pt := randBytes(t, n)
		m, err := a.Group(a.Addr, g.Dists[0]).EncryptMessage(ctx, a.R, clone(pt))
		if err != nil {
			t.Violate("a group message of %d bytes cannot be sent: %v", n, err)
		}
		for _, b := range g.Nodes[1:] {
			t.Eval()
			x, err := message.NewSenderKeyFromBytes(clone(m.Bytes()))
			if err != nil {
				t.Violate("a group message of %d bytes cannot be parsed: %v", n, err)
			}
			got, err := b.P.Group(a.Addr, g.Dists[0]).DecryptMessage(ctx, x)
			if err != nil || !bytes.Equal(got, pt) {
				t.Violate("a group message of %d bytes is read as %d bytes, %v", n, len(got), err)
			}
			t.Count("messages of megabytes", 1)
		}
	}
	t.Seen("big", n)
}
