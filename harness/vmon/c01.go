package main

import (
	"bytes"
	"fmt"
	"io"
	"slices"
	"sort"

	"google.golang.org/protobuf/proto"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:     "C01",
		Rule:   "random schedules of sends, deliveries, losses, replays and handshakes between 2-3 parties plus exact-boundary scenarios; every delivery is judged against the crypto-free delivery model; a case is counted as distinct by its sequence of (how the message was found, chains, archived sessions)",
		Run:    runC01,
		Assume: []string{"the network delivers the bytes the library emitted", "stores behave as maps"},
	})
}

// judge01 is the verdict of C01 on one delivery.
func judge01(t *T, m *Msg, r Result, replay bool) {
	if r.Pred == pAccept {
		if r.Err != nil {
			t.Violate("%v is within the retention limits (%v) but was refused: %v", m, r.How, r.Err)
		}
		if !bytes.Equal(r.Plain, m.Plain) {
			t.Violate("%v decrypted to %s, sent was %s", m, hexs(r.Plain), hexs(m.Plain))
		}
		return
	}
	if r.OK {
		t.Skip("%v accepted although the model says %v", m, r.Pred)
	}
}

func driver01(t *T) driver {
	return driver{
		onSendErr: func(a, b *Node, err error) {
			t.Violate("%v cannot encrypt for %v in an established session: %v", a.Addr, b.Addr, err)
		},
		onShakeErr: func(a, b *Node, err error) {
			t.Violate("%v cannot establish a session from a genuine bundle of %v: %v", a.Addr, b.Addr, err)
		},
		onDeliver: func(m *Msg, r Result, replay bool) {
			judge01(t, m, r, replay)
			if r.OK {
				rec := m.To.Recs[m.From.Addr]
				t.Seen(r.How.String(), len(rec.cur.recv), len(rec.prev), m.Index > 0, r.How.jump)
			}
		},
	}
}

func runC01(c *C) {
	c.Cases("sim", c.N(240, 12000), func(t *T, i int) {
		s := randomTopology(t)
		s.persistSome()
		p := profileFor(t, i)
		s.run(p, driver01(t))
		// at the end everything still in flight and within limits must arrive
		for len(s.Flight) > 0 {
			j := t.Rng.IntN(len(s.Flight))
			m := s.Flight[j]
			rep := m.Accepted > 0
			r := s.deliver(m, false)
			t.Eval()
			judge01(t, m, r, rep)
			s.drop(j)
		}
		if i < 6 && t.wantSample() {
			t.Sample(map[string]any{"case": t.Name, "profile": p.name, "events": tail(t.log, 12)})
		}
	})
	c.Require("accepted: in-order", 100)
	c.Require("accepted: late", 50)
	c.Require("handshakes", 100)

	c.One("plaintext-lengths", func(t *T) {
		s := newSim(t, "alice 1", "bob 1")
		a, b := s.Nodes[0], s.Nodes[1]
		ok(t, s.handshake(a, b, true))
		max := c.N(260, 1100)
		for n := 0; n <= max; n++ {
			send01(t, s, a, b, randBytes(t, n))
			if n%5 == 0 {
				send01(t, s, b, a, randBytes(t, n))
			}
			t.Seen("len", n)
		}
		for _, n := range []int{4095, 4096, 4097, 65535, 65536, 65537, 1 << 20, 3<<20 + 7} {
			send01(t, s, a, b, randBytes(t, n))
			send01(t, s, b, a, randBytes(t, n))
			t.Seen("len", n)
		}
		for v := 0; v < 256; v++ {
			for _, n := range []int{1, 15, 16, 17, 32} {
				send01(t, s, a, b, bytes.Repeat([]byte{byte(v)}, n))
			}
		}
		send01(t, s, a, b, nil)
	})

	for _, k := range []int{1, 255, 256, 1999, 2000, 2001, 2500, 4100} {
		c.One(fmt.Sprintf("skipped-%d", k), func(t *T) { skipped01(t, k) })
	}
	for _, k := range []int{24999, 25000} {
		c.One(fmt.Sprintf("jump-%d", k), func(t *T) { jump01(t, k, false) })
	}
	for _, k := range []int{60_000, 100_001, c.N(330_000, 3_000_000)} {
		c.One(fmt.Sprintf("self-far-%d", k), func(t *T) { selfFar01(t, k) })
	}
	for _, k := range []int{25001, c.N(30000, 120000)} {
		c.One(fmt.Sprintf("self-jump-%d", k), func(t *T) { jump01(t, k, true) })
	}
	c.Cases("chains", c.N(24, 300), func(t *T, i int) { chains01(t, i) })
	c.Cases("archive", c.N(16, 120), func(t *T, i int) { archive01(t, i) })
	c.One("long-chain", func(t *T) { longChain01(t, c.N(66000, 300000)) })
	for _, base := range []uint32{127, 255, 16383, 32767, 65535, 1<<24 - 1, 1<<31 - 1, 1<<31 + 5, 1<<32 - 60} {
		c.One(fmt.Sprintf("index-%d", base), func(t *T) { bigIndex01(t, base) })
	}
	c.Cases("window", c.N(8, 80), window01)
	c.Cases("edges", c.N(27, 108), func(t *T, i int) { oneStream(t, t.Rng.IntN(2) == 0).judge(t, true).edges(t, i) })
	c.One("far", func(t *T) { oneStream(t, true).judge(t, true).far(t, c.N(17, 20)) })
	c.Cases("gaps", c.N(30, 600), func(t *T, i int) { oneStream(t, i%2 == 0).judge(t, true).gaps(t) })
	c.One("apart", func(t *T) { apart01(t, 65536) })
	c.Cases("simultaneous", c.N(60, 2000), func(t *T, i int) { simultaneous01(t, i) })
}

func tail(l []string, n int) []string {
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return append([]string(nil), l...)
}

func randBytes(t *T, n int) []byte {
	b := make([]byte, n)
	io.ReadFull(t.R, b)
	return b
}

// ok: the operation must succeed for the property under check.
func ok(t *T, err error) {
	if err != nil {
		t.Violate("a well-formed call failed: %v", err)
	}
}

func mustSend(t *T, s *Sim, a, b *Node, pt []byte) *Msg {
	m, err := s.send(a, b, pt)
	if err != nil {
		t.Violate("%v cannot encrypt for %v: %v", a.Addr, b.Addr, err)
	}
	s.Flight = s.Flight[:len(s.Flight)-1]
	return m
}

func mustDeliver(t *T, s *Sim, m *Msg) {
	r := s.deliver(m, false)
	t.Eval()
	if r.Pred != pAccept {
		if r.OK {
			panic(fmt.Sprintf("scenario error: model says %v for %v", r.Pred, m))
		}
		// sent within the limits, but so that nobody can read it
		t.Violate("%v, sent and delivered within the limits, is refused: %v (model: %v)", m, r.Err, r.Pred)
	}
	judge01(t, m, r, false)
	t.Seen("scenario", t.Name, r.How.String())
}

func send01(t *T, s *Sim, a, b *Node, pt []byte) { mustDeliver(t, s, mustSend(t, s, a, b, pt)) }

// skipped01: k messages are skipped, then all retained ones arrive in random order.
func skipped01(t *T, k int) {
	s := newSim(t, "alice 1", "bob 1")
	a, b := s.Nodes[0], s.Nodes[1]
	ok(t, s.handshake(a, b, true))
	if t.Rng.IntN(2) == 0 {
		send01(t, s, a, b, []byte("x"))
		send01(t, s, b, a, []byte("y"))
	}
	var ms []*Msg
	for i := 0; i <= k; i++ {
		ms = append(ms, mustSend(t, s, a, b, []byte(fmt.Sprint("msg ", i))))
	}
	mustDeliver(t, s, ms[k])
	late := ms[:k]
	if k > modelMaxSkipped {
		late = ms[k-modelMaxSkipped : k]
	}
	for _, j := range t.Rng.Perm(len(late)) {
		mustDeliver(t, s, late[j])
	}
	if d := s.converse(a, b, 2); d != "" {
		t.Violate("conversation after %d skipped messages broke: %s", k, d)
	}
	t.Count("skipped messages delivered late", int64(len(late)))
}

func jump01(t *T, k int, self bool) {
	s := newSim(t, "alice 1")
	a := s.Nodes[0]
	var b *Node
	if self {
		b = s.addNode(newPartyKey(t, "alice", 2, a.P.KP))
	} else {
		b = s.addNode(newParty(t, "bob", 1))
	}
	ok(t, s.handshake(a, b, true))
	send01(t, s, a, b, []byte("first"))
	send01(t, s, b, a, []byte("reply"))
	var last *Msg
	var some []*Msg
	for i := 0; i <= k; i++ {
		last = mustSend(t, s, a, b, []byte(fmt.Sprint("msg ", i)))
		if i > k-modelMaxSkipped && i < k && t.Rng.IntN(100) == 0 {
			some = append(some, last)
		}
	}
	mustDeliver(t, s, last)
	for _, m := range some {
		mustDeliver(t, s, m)
	}
	if d := s.converse(b, a, 2); d != "" {
		t.Violate("conversation after a jump of %d broke: %s", k, d)
	}
	t.Count("jumps at the limit accepted", 1)
}

// chains01: messages of the five most recent receiving chains arrive late.
func chains01(t *T, i int) {
	s := newSim(t, "alice 1", "bob 1")
	if i%3 == 2 {
		s.persistSome()
	}
	a, b := s.Nodes[0], s.Nodes[1]
	ok(t, s.handshake(a, b, i%2 == 0))
	send01(t, s, a, b, []byte("hello"))
	recv, sendr := b, a
	if i%4 >= 2 {
		recv, sendr = a, b
	}
	if recv == a {
		send01(t, s, b, a, []byte("re"))
	}
	rounds := 5 + t.Rng.IntN(10)
	type held struct {
		m     *Msg
		round int
	}
	var hold []held
	for r := 0; r < rounds; r++ {
		// one chain of sendr: several messages, some withheld; one is delivered so that the ratchet turns
		k := 2 + t.Rng.IntN(4)
		var ms []*Msg
		for j := 0; j < k; j++ {
			ms = append(ms, mustSend(t, s, sendr, recv, []byte(fmt.Sprintf("round %d msg %d", r, j))))
		}
		d := t.Rng.IntN(k)
		mustDeliver(t, s, ms[d])
		for j, m := range ms {
			if j != d {
				hold = append(hold, held{m, r})
			}
		}
		// anything within the last five chains may arrive now
		var keep []held
		for _, h := range hold {
			age := r - h.round
			if age == 4 || (age < 4 && t.Rng.IntN(6) == 0) { // age 4: the fifth most recent chain
				mustDeliver(t, s, h.m)
				t.Count(fmt.Sprintf("late message from chain of age %d", age), 1)
			} else if age < 4 {
				keep = append(keep, h)
			}
		}
		hold = keep
		if r < rounds-1 {
			send01(t, s, recv, sendr, []byte("turn"))
		}
	}
	for _, h := range hold {
		mustDeliver(t, s, h.m)
	}
}

// archive01: messages of the 40 most recently archived sessions still arrive.
func archive01(t *T, i int) {
	s := newSim(t, "alice 1", "bob 1")
	if i%2 == 1 {
		s.persistSome()
	}
	a, b := s.Nodes[0], s.Nodes[1]
	var hold []*Msg
	n := 41
	if i >= 8 {
		n = 2 + t.Rng.IntN(60)
	}
	for k := 0; k < n; k++ {
		var from, to = a, b
		if i%4 >= 2 && t.Rng.IntN(2) == 0 {
			from, to = b, a
		}
		ok(t, s.handshake(from, to, t.Rng.IntN(3) > 0))
		m1 := mustSend(t, s, from, to, []byte(fmt.Sprint("first of session ", k)))
		m2 := mustSend(t, s, from, to, []byte(fmt.Sprint("second of session ", k)))
		mustDeliver(t, s, m1)
		if t.Rng.IntN(3) == 0 {
			send01(t, s, to, from, []byte("reply"))
		}
		hold = append(hold, m2)
	}
	// Deliver what the model says is retained, oldest first (each delivery promotes its session).
	if len(hold) > 41 {
		hold = hold[len(hold)-41:]
	}
	if i%2 == 0 {
		t.Rng.Shuffle(len(hold), func(x, y int) { hold[x], hold[y] = hold[y], hold[x] })
	}
	for _, m := range hold {
		r := s.deliver(m, false)
		t.Eval()
		judge01(t, m, r, false)
		if r.Pred == pAccept {
			t.Seen("archive", len(m.To.Recs[m.From.Addr].prev), r.How.String())
			t.Count("messages of archived sessions delivered", 1)
		}
	}
	// after all that, replies flow on the promoted session
	send01(t, s, b, a, []byte("still there"))
}

// longChain01 sends a long one-directional chain with sparse deliveries.
func longChain01(t *T, n int) {
	s := newSim(t, "alice 1", "bob 1")
	a, b := s.Nodes[0], s.Nodes[1]
	ok(t, s.handshake(a, b, true))
	var lates []*Msg
	for i := 0; i < n; i++ {
		m := mustSend(t, s, a, b, []byte(fmt.Sprint(i)))
		if i%997 == 500 {
			lates = append(lates, m)
		}
		if i%1000 == 0 || (i > 65530 && i < 65545) || (i > 255 && i < 260) || i == n-1 {
			mustDeliver(t, s, m)
		}
		if len(lates) > 1 && lates[0].Index+1500 < m.Index {
			mustDeliver(t, s, lates[0])
			lates = lates[1:]
		}
	}
	t.Count("messages in the longest chain", int64(n))
}

// bigIndex01 lets a chain cross a large message number. The number is set in the stored state of both ends, standing
// for a chain that has carried that many messages.
func bigIndex01(t *T, base uint32) {
	s := newSim(t, "alice 1", "bob 1")
	a, b := s.Nodes[0], s.Nodes[1]
	ok(t, s.handshake(a, b, true))
	send01(t, s, a, b, []byte("1"))
	send01(t, s, b, a, []byte("2"))
	send01(t, s, a, b, []byte("3"))
	start := base - 20
	// sender
	ra := a.P.rawRecord(b.Addr)
	sa := structOf(ra.State())
	sa.SenderChain.ChainKey.Index = start
	ra.SetSessionState(session.NewState(sa))
	a.P.St.in.SessionStore().Store(ctx, b.Addr, ra)
	// receiver
	rb := b.P.rawRecord(a.Addr)
	sb := structOf(rb.State())
	found := false
	for _, c := range sb.ReceiverChains {
		if bytes.Equal(c.SenderRatchetKey, sa.SenderChain.SenderRatchetKey) {
			c.ChainKey.Index = start
			found = true
		}
	}
	if !found || !proto.Equal(sa.SenderChain.ChainKey, sb.ReceiverChains[len(sb.ReceiverChains)-1].ChainKey) {
		t.Skip("cannot place the chains at index %d", start)
	}
	rb.SetSessionState(session.NewState(sb))
	b.P.St.in.SessionStore().Store(ctx, a.Addr, rb)
	ma := a.Recs[b.Addr].cur.clone()
	ma.sendN = start
	a.Recs[b.Addr] = &mRecord{cur: ma}
	mb := b.Recs[a.Addr].cur.clone()
	mb.recv[len(mb.recv)-1].next = start
	b.Recs[a.Addr] = &mRecord{cur: mb}
	var ms []*Msg
	for i := 0; i < 40; i++ {
		ms = append(ms, mustSend(t, s, a, b, []byte(fmt.Sprint("big ", i))))
	}
	mustDeliver(t, s, ms[3])
	mustDeliver(t, s, ms[39])
	for _, j := range t.Rng.Perm(39) {
		if j != 3 {
			mustDeliver(t, s, ms[j])
		}
	}
	if d := s.converse(b, a, 2); d != "" {
		t.Violate("conversation at message number %d broke: %s", base, d)
	}
	t.Count("crossings of large message numbers", 1)
}

// simultaneous01: both sides initiate at once and their messages cross in every order.
func simultaneous01(t *T, i int) {
	s := newSim(t, "alice 1", "bob 1")
	if i%3 == 0 {
		s.persistSome()
	}
	a, b := s.Nodes[0], s.Nodes[1]
	rounds := 1 + t.Rng.IntN(4)
	for r := 0; r < rounds; r++ {
		ok(t, s.handshake(a, b, t.Rng.IntN(2) == 0))
		ok(t, s.handshake(b, a, t.Rng.IntN(2) == 0))
		var ms []*Msg
		for k := 1 + t.Rng.IntN(3); k > 0; k-- {
			ms = append(ms, mustSend(t, s, a, b, plaintextOf(t.Rng, t.R)))
		}
		for k := 1 + t.Rng.IntN(3); k > 0; k-- {
			ms = append(ms, mustSend(t, s, b, a, plaintextOf(t.Rng, t.R)))
		}
		for _, j := range t.Rng.Perm(len(ms)) {
			mustDeliver(t, s, ms[j])
			if t.Rng.IntN(3) == 0 {
				x := []*Node{a, b}[t.Rng.IntN(2)]
				y := a
				if x == a {
					y = b
				}
				send01(t, s, x, y, plaintextOf(t.Rng, t.R))
			}
		}
	}
	if d := s.converse(a, b, 3); d != "" {
		t.Violate("conversation after simultaneous initiation broke: %s", d)
	}
	t.Count("simultaneous initiations", int64(rounds))
}

var _ = message.WhisperType

// selfFar01: in a session with one's own identity any distance is caught up with.
func selfFar01(t *T, k int) {
	p := newParty(t, "me", 1)
	peer := address.Address{Name: "me", DeviceID: 2}
	rs, err := ref.NewAlice(t.R, ref.KPFrom(p.KP.PrivateKey().Bytes()), 1, refBundle(p.Bundle(true)))
	if err != nil {
		t.Skip("reference: %v", err)
	}
	recv := func(what string, typ int, w, want []byte) {
		t.Eval()
		pt, err := p.receive(peer, message.CiphertextType(typ), w)
		if err != nil || !bytes.Equal(pt, want) {
			t.Violate("%s in a session with oneself gives %q, %v", what, pt, err)
		}
		t.Count("far jumps in sessions with oneself", 1)
	}
	next := func(what string) {
		pt := randBytes(t, 1+t.Rng.IntN(40))
		typ, w := rs.Encrypt(pt)
		recv(what, int(typ), w, pt)
	}
	next("the first message")
	rs.Skip(k - 1501)
	var pts [][]byte
	type sent struct {
		typ int
		w   []byte
	}
	var ws []sent
	for j := 0; j < 1500; j++ {
		if j%150 != 7 {
			rs.Skip(1)
			continue
		}
		pt := randBytes(t, 10)
		typ, w := rs.Encrypt(pt)
		pts, ws = append(pts, pt), append(ws, sent{int(typ), w})
	}
	next(fmt.Sprintf("a message %d ahead", k))
	for _, j := range t.Rng.Perm(len(ws)) {
		recv("a skipped message", ws[j].typ, ws[j].w, pts[j])
	}
	next("the message after")
	ct, err := p.Session(peer).EncryptMessage(ctx, []byte("back"))
	if err != nil {
		t.Violate("cannot reply: %v", err)
	}
	if pt, err := rs.Decrypt(inner(ct.Type(), ct.Bytes())); err != nil || string(pt) != "back" {
		t.Violate("the reply does not decrypt: %v", err)
	}
	t.Seen("self-far", k)
}

// refPeer01 is a party that receives from a reference sender.
type refPeer01 struct {
	t    *T
	p    *Party
	peer address.Address
	rs   *ref.Session
}

func newRefPeer01(t *T) *refPeer01 {
	p := newParty(t, "bob", 1)
	rs, err := ref.NewAlice(t.R, ref.GenKP(t.R), 1, refBundle(p.Bundle(true)))
	if err != nil {
		t.Skip("reference: %v", err)
	}
	return &refPeer01{t, p, address.Address{Name: "alice", DeviceID: 1}, rs}
}

func (r *refPeer01) take(what string, typ int, w, want []byte) {
	r.t.Eval()
	pt, err := r.p.receive(r.peer, message.CiphertextType(typ), w)
	if err != nil || !bytes.Equal(pt, want) {
		r.t.Violate("%s gives %q, %v", what, pt, err)
	}
}

func (r *refPeer01) next(what string) {
	pt := randBytes(r.t, 1+r.t.Rng.IntN(40))
	typ, w := r.rs.Encrypt(pt)
	r.take(what, int(typ), w, pt)
}

// window01: the window of skipped messages is filled, thinned out and moved on, again and again.
func window01(t *T, i int) {
	r := newRefPeer01(t)
	r.next("the first message")
	if i%2 == 1 { // the window is in a later chain
		ct, err := r.p.Session(r.peer).EncryptMessage(ctx, []byte("back"))
		ok(t, err)
		if _, err := r.rs.Decrypt(inner(ct.Type(), ct.Bytes())); err != nil {
			t.Violate("the reply does not decrypt: %v", err)
		}
	}
	type held struct {
		n   int
		typ int
		w   []byte // made for some only
		pt  []byte
	}
	var owed []held
	n := 0
	take := func(j int) {
		h := owed[j]
		r.take(fmt.Sprintf("message %d, among the 2,000 most recently skipped ones (position %d of %d)", h.n, j, len(owed)), h.typ, h.w, h.pt)
		t.Count("skipped messages delivered late", 1)
		owed = append(owed[:j:j], owed[j+1:]...)
	}
	for round := 0; round < 5; round++ {
		skip := []int{1990, 300, 100 + t.Rng.IntN(900), 25, 2000 + t.Rng.IntN(100)}[(round+i/2)%5]
		for k := 0; k < skip; k++ {
			h := held{n: n}
			if t.Rng.IntN(12) == 0 || k < 2 || k > skip-3 {
				h.pt = []byte(fmt.Sprint("m", n))
				typ, w := r.rs.Encrypt(h.pt)
				h.typ, h.w = int(typ), w
			} else {
				r.rs.Skip(1)
			}
			owed = append(owed, h)
			n++
		}
		r.next(fmt.Sprintf("a message %d ahead", skip))
		n++
		if len(owed) > modelMaxSkipped {
			owed = owed[len(owed)-modelMaxSkipped:]
		}
		for k := 0; k < 12; k++ {
			j := t.Rng.IntN(len(owed))
			for d := 0; d < len(owed); d++ {
				if x := (j + d) % len(owed); owed[x].w != nil {
					take(x)
					break
				}
			}
		}
		t.Seen("window", i%2, round, len(owed)/100)
	}
	var idx []int
	for j, h := range owed {
		if h.w != nil {
			idx = append(idx, j)
		}
	}
	for k := len(idx) - 1; k >= 0; k-- {
		take(idx[k])
	}
}

// apart01: two messages of one chain stay behind whose numbers differ by a power of two, while everything between them
// arrives in order.
func apart01(t *T, far int) {
	r := newRefPeer01(t)
	r.next("the first message")
	var pts, ws [][]byte
	var typs []int
	hold := map[int]bool{5: true}
	for d := 256; d <= far; d *= 2 {
		hold[5+d] = true
	}
	for n := 1; n <= far+8; n++ {
		if !hold[n] {
			r.next(fmt.Sprintf("message %d", n))
			continue
		}
		pt := []byte(fmt.Sprint("held ", n))
		typ, w := r.rs.Encrypt(pt)
		pts, ws, typs = append(pts, pt), append(ws, w), append(typs, int(typ))
	}
	r.p.know(r.peer)
	now := r.p
	for order := 0; order < 6; order++ { // newest first, oldest first, others
		r.p = now.fork()
		seq := t.Rng.Perm(len(ws))
		if order < 2 {
			sort.Ints(seq)
		}
		if order == 0 {
			slices.Reverse(seq)
		}
		for _, j := range seq {
			r.take(string(pts[j]), typs[j], ws[j], pts[j])
			t.Seen("apart", order, j)
		}
	}
	t.Count("messages in the longest chain", int64(far))
}
