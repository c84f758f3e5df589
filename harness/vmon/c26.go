package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"

	"google.golang.org/protobuf/proto"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/session"
)

func init() {
	register(&Check{
		ID:   "C26",
		Rule: "Two copies of a pair of parties run the same script of handshakes, sends, deliveries in any order, replays and alterations; in one copy sessions are serialized and restored after calls (after every one, after some, on one or both sides, from records kept as objects or as stored), in the other never. Every call must end alike in both: same acceptance, plaintext and kind of error. Restored states must serialize to the same contents and answer the same through every accessor. Also long scripts up to the retention limits, and generated states with extreme field values. Distinct by (shape of the restored session, what was done with it next).",
		Run:  runC26,
	})
}

func runC26(c *C) {
	c.Cases("twin", c.N(400, 12000), twin26)
	c.Cases("limits", c.N(14, 70), limits26)
	c.Cases("contents", c.N(400, 8000), contents26)
	c.Require("sessions restored", 8000)
	c.Require("calls compared", 20000)
	c.Require("accepted", 3000)
	c.Require("refused", 800)
}

// state26 is what a state's accessors tell.
func state26(st *session.State) string {
	if st == nil {
		return "none"
	}
	var b bytes.Buffer
	key := func(k interface{ Bytes() []byte }, err error) {
		if err != nil {
			fmt.Fprintf(&b, " error")
			return
		}
		fmt.Fprintf(&b, " %x", k.Bytes())
	}
	fmt.Fprintf(&b, "version %d prev %d reg %d base %x", st.Version(), st.PreviousCounter(), st.LocalRegistrationID(), st.AliceBaseKey())
	if k, ok, err := st.RemoteIdentityKey(); ok || err != nil {
		key(k, err)
	}
	if k, err := st.LocalIdentityKey(); err == nil {
		key(k, nil)
	}
	if k, err := st.RootKey(); err == nil {
		fmt.Fprintf(&b, " root %x", k.Bytes())
	}
	if k, err := st.SenderRatchetPrivateKey(); err == nil {
		key(k, nil)
	}
	if k, err := st.SenderRatchetKey(); err == nil {
		key(k, nil)
	}
	if c, err := st.SenderChainKey(); err == nil {
		fmt.Fprintf(&b, " send %x/%d", c.Key(), c.Index())
	}
	for _, ch := range structOf(st).ReceiverChains {
		if k, err := curve.NewPublicKey(ch.SenderRatchetKey); err == nil {
			c, ok, err := st.ReceiverChainKey(k)
			fmt.Fprintf(&b, " recv %x/%d %v %v", c.Key(), c.Index(), ok, err != nil)
		}
	}
	if u, err := st.UnacknowledgedPreKeyMessages(); err == nil && u != nil {
		fmt.Fprintf(&b, " pending %s %d %x", optID(u.PreKeyID()), u.SignedPreKeyID(), u.BaseKey().Bytes())
	}
	return b.String()
}

// restore26 restores a state from its serialization and compares it with the original.
func restore26(t *T, st *session.State) *session.State {
	b := st.Bytes()
	r, err := session.NewRecordBytes(clone(b))
	if err != nil {
		t.Violate("a session's serialization does not restore: %v\n%x", err, b)
	}
	n := r.State()
	if n == nil {
		t.Violate("a restored session has no current state")
	}
	x, y := new(v1.SessionStructure), new(v1.SessionStructure)
	if proto.Unmarshal(b, x) != nil || proto.Unmarshal(n.Bytes(), y) != nil || !proto.Equal(x, y) {
		t.Violate("a restored session serializes to other contents:\n%x\n%x", b, n.Bytes())
	}
	if v, w := state26(st), state26(n); v != w {
		t.Violate("a restored session differs:\noriginal %s\nrestored %s", v, w)
	}
	t.Eval()
	t.Count("sessions restored", 1)
	return n
}

// restoreRecord26 rebuilds a record from the serializations of its states.
func restoreRecord26(t *T, r *session.Record) *session.Record {
	prev, err := r.PreviousStates()
	if err != nil {
		t.Violate("archived states do not restore: %v", err)
	}
	if len(prev) == 0 && r.State() != nil { // as a caller does who knows of the current state only
		n := restore26(t, r.State())
		x, err := session.NewRecordBytes(n.Bytes())
		if err != nil {
			t.Violate("a session's serialization does not restore: %v", err)
		}
		return x
	}
	out := session.NewRecord(nil)
	for _, p := range prev {
		out.PromoteState(restore26(t, p))
	}
	if r.State() != nil {
		out.PromoteState(restore26(t, r.State()))
	}
	return out
}

func shape26(r *session.Record) string {
	if r == nil {
		return "none"
	}
	s := ""
	prev, _ := r.PreviousStates()
	if st := r.State(); st != nil {
		p := structOf(st)
		s = fmt.Sprintf("pending %v prev %d send %d", p.PendingPreKey != nil, p.PreviousCounter, p.SenderChain.GetChainKey().GetIndex())
		for _, c := range p.ReceiverChains {
			s += fmt.Sprintf(" recv %d+%d", c.GetChainKey().GetIndex(), len(c.MessageKeys))
		}
	}
	return fmt.Sprintf("%s archived %d", s, len(prev))
}

type flying26 struct {
	to   int
	typ  message.CiphertextType
	wire []byte
	pt   []byte
}

// pair26 is one of the two copies.
type pair26 struct {
	ps  []*Party
	fly []flying26
}

// step26 is one step of the script, the same for both copies.
type step26 struct {
	op    int // 0 handshake, 1 send, 2 deliver, 3 deliver altered, 4 deliver the inner message
	who   int
	which int
	one   bool
	pt    []byte
	pos   int
	bit   byte
}

func (w *pair26) do(t *T, s step26) string {
	p, q := w.ps[s.who], w.ps[1-s.who]
	switch s.op {
	case 0:
		return "handshake " + class21(p.Session(q.Addr).ProcessPreKeyBundle(ctx, p.R, q.Bundle(s.one)))
	case 1:
		m, err := p.Session(q.Addr).EncryptMessage(ctx, clone(s.pt))
		if err != nil {
			return "send " + class21(err)
		}
		w.fly = append(w.fly, flying26{1 - s.who, m.Type(), clone(m.Bytes()), s.pt})
		return fmt.Sprintf("send type %v, %d bytes", m.Type(), len(m.Bytes())/8)
	}
	if len(w.fly) == 0 {
		return "nothing to deliver"
	}
	f := w.fly[s.which%len(w.fly)]
	wire, typ := f.wire, f.typ
	if s.op == 4 {
		wire, typ = inner(typ, wire), message.WhisperType
	}
	if s.op == 3 {
		in := inner(typ, wire)
		in = flip(in, len(in)-1-s.pos%(8+16), s.bit) // tag or last cipher block
		wire, typ = in, message.WhisperType
	}
	r := w.ps[f.to]
	pt, err := r.receive(w.ps[1-f.to].Addr, typ, wire)
	return fmt.Sprintf("deliver %d: %x %s", s.which%len(w.fly), pt, class21(err))
}

func twin26(t *T, i int) {
	mode := i % 6
	self := t.Rng.IntN(10) == 0
	a := newParty(t, "alice", 1)
	var b *Party
	if self {
		b = newPartyKey(t, "alice", 2, a.KP)
	} else {
		b = newParty(t, "bob", 1)
	}
	edge := func(p *Party) {
		switch t.Rng.IntN(6) {
		case 0:
			p.AddSigned(1 << 31)
		case 1:
			p.AddSigned(1<<32 - 1)
		case 2:
			p.AddSigned(0)
		}
		if t.Rng.IntN(6) == 0 {
			p.nextPK = 1<<32 - 9
		}
	}
	edge(a)
	edge(b)
	orig := &pair26{ps: []*Party{a, b}}
	a.know(b.Addr)
	b.know(a.Addr)
	twin := &pair26{ps: []*Party{a.fork(), b.fork()}}
	for k, p := range twin.ps {
		orig.ps[k].R = newReader("orig", t.C.Seed, t.Name, k)
		p.R = newReader("orig", t.C.Seed, t.Name, k)
		if i%2 == 1 {
			p.R = newReader("twin", t.C.Seed, t.Name, k)
		}
	}
	ptrs := mode == 5 // no refused calls: those may leave a record which the caller handed out half changed
	if ptrs {
		for _, p := range append(append([]*Party{}, orig.ps...), twin.ps...) {
			p.St.ptrs = map[address.Address]*session.Record{}
		}
	}
	accepted := map[int]bool{}
	steps := 40 + t.Rng.IntN(60)
	burst := 0
	var bs step26
	has := [2]bool{}
	lastShape := ""
	deep, turn, newSession := i%7 >= 4, 0, 25
	if deep {
		newSession = 90
	}
	for n := 0; n < steps; n++ {
		s := step26{who: t.Rng.IntN(2), which: t.Rng.IntN(1 << 20), one: t.Rng.IntN(2) == 0, pt: plaintextOf(t.Rng, t.R), pos: t.Rng.IntN(24), bit: 1 << t.Rng.IntN(8)}
		switch {
		case burst > 0:
			burst--
			s = bs
			s.pt = randBytes(t, 20)
		case !has[0] && !has[1] || t.Rng.IntN(newSession) == 0:
			s.op = 0
		case deep && turn == 0 && t.Rng.IntN(12) > 0: // alternate, so that many receiving chains arise; some messages stay behind
			s.op = 1
			if len(orig.fly) > 0 && t.Rng.IntN(5) > 0 {
				s.who = orig.fly[len(orig.fly)-1].to
			}
			if !has[s.who] {
				s.who = 1 - s.who
			}
			if t.Rng.IntN(4) > 0 {
				turn = 1
			}
		case deep && turn == 1 && t.Rng.IntN(12) > 0:
			s.op = 2
			s.which = max(0, len(orig.fly)-1-t.Rng.IntN(2)*t.Rng.IntN(2))
			turn = 0
		case t.Rng.IntN(2) == 0 && has[s.who]:
			s.op = 1
			if t.Rng.IntN(8) == 0 {
				burst, bs = t.Rng.IntN(20), s
				bs.op = 1
			}
		default:
			s.op = []int{2, 2, 2, 2, 3, 4}[t.Rng.IntN(6)]
			if t.Rng.IntN(3) == 0 { // the latest ones
				s.which = max(0, len(orig.fly)-1-t.Rng.IntN(3))
			}
		}
		if ptrs && s.op >= 2 {
			if len(orig.fly) == 0 {
				continue
			}
			s.op = 2
			s.which %= len(orig.fly)
			if accepted[s.which] {
				continue
			}
		}
		x := orig.do(t, s)
		y := twin.do(t, s)
		t.Logf("%d: op %d by %d: original: %s / restored: %s", n, s.op, s.who, clip(x), clip(y))
		t.Eval()
		t.Count("calls compared", 1)
		if x != y {
			t.Violate("step %d: the original session: %s; the restored one: %s", n, clip(x), clip(y))
		}
		ok := len(x) > 3 && x[len(x)-3:] == " ok"
		if s.op >= 2 && len(orig.fly) > 0 {
			f := orig.fly[s.which%len(orig.fly)]
			if ok {
				accepted[s.which%len(orig.fly)] = true
				has[f.to] = true
				t.Count("accepted", 1)
				if !bytes.Contains([]byte(x), []byte(fmt.Sprintf(": %x ", f.pt))) {
					t.Skip("a message decrypts to something else in both copies")
				}
			} else {
				t.Count("refused", 1)
				if ptrs {
					t.Count("script ended by a refused call on records kept as objects", 1)
					return
				}
			}
			t.Seen(lastShape, s.op, ok)
		}
		if s.op == 0 && ok {
			has[s.who] = true
		}
		for k, p := range twin.ps {
			do := false
			switch mode {
			case 0:
				do = true
			case 1:
				do = k == 0
			case 2:
				do = k == 1
			case 3, 5:
				do = t.Rng.IntN(3) == 0
			case 4:
				do = t.Rng.IntN(15) == 0
			}
			if !do {
				continue
			}
			peer := twin.ps[1-k].Addr
			r := p.rawRecord(peer)
			if r == nil {
				continue
			}
			nr := restoreRecord26(t, r)
			if err := (sessStore{p.St}).Store(ctx, peer, nr); err != nil {
				t.Skip("%v", err)
			}
			t.Logf("   party %d saved and restored: %s", k, shape26(nr))
			lastShape = shape26(nr)
			t.Seen("restored", lastShape)
			if o := orig.ps[k].rawRecord(orig.ps[1-k].Addr); o == nil || shape26(o) != lastShape {
				t.Violate("after step %d the original and the restored session differ in shape:\noriginal %s\nrestored %s", n, shape26(o), lastShape)
			}
		}
	}
	if t.wantSample() {
		t.Sample(map[string]any{"case": t.Name, "steps": steps, "self": self, "last": tail(t.log, 8)})
	}
}

// limits26 restores sessions which have reached the limits of what is retained.
func limits26(t *T, i int) {
	a, b := newParty(t, "alice", 1), newParty(t, "bob", 1)
	if err := a.Session(b.Addr).ProcessPreKeyBundle(ctx, t.R, b.Bundle(true)); err != nil {
		t.Skip("%v", err)
	}
	type sent struct {
		typ  message.CiphertextType
		wire []byte
		pt   []byte
	}
	var fly []sent
	send := func(p, q *Party) sent {
		pt := randBytes(t, 10)
		m, err := p.Session(q.Addr).EncryptMessage(ctx, pt)
		if err != nil {
			t.Skip("%v", err)
		}
		return sent{m.Type(), clone(m.Bytes()), pt}
	}
	recv := func(p, q *Party, m sent) string {
		pt, err := p.receive(q.Addr, m.typ, m.wire)
		return fmt.Sprintf("%x %s", pt, class21(err))
	}
	switch i % 7 {
	case 6: // every receiving chain full of skipped messages
		for n := 0; n < 5; n++ {
			for k := modelMaxSkipped; k >= 0; k-- {
				fly = append(fly, send(a, b))
			}
			recv(b, a, fly[len(fly)-1])
			recv(a, b, send(b, a))
		}
	case 0: // skipped keys beyond the limit of a chain
		for n := 0; n < 2100; n++ {
			fly = append(fly, send(a, b))
		}
		recv(b, a, fly[2099])
	case 1: // more receiving chains than are kept, each with skipped messages
		for n := 0; n < 8; n++ {
			for k := 0; k < 3; k++ {
				fly = append(fly, send(a, b))
			}
			recv(b, a, fly[len(fly)-1])
			recv(a, b, send(b, a))
		}
	case 2: // more archived sessions than are kept
		for n := 0; n < 44; n++ {
			if n > 0 {
				if err := a.Session(b.Addr).ProcessPreKeyBundle(ctx, t.R, b.Bundle(n%2 == 0)); err != nil {
					t.Skip("%v", err)
				}
			}
			for k := 0; k < 2; k++ {
				fly = append(fly, send(a, b))
			}
			recv(b, a, fly[len(fly)-1])
		}
	case 4, 5: // many skipped messages in every receiving chain, of two sessions
		for n := 0; n < 13; n++ {
			if n == 6 {
				if i%7 == 4 {
					continue
				}
				if err := a.Session(b.Addr).ProcessPreKeyBundle(ctx, t.R, b.Bundle(true)); err != nil {
					t.Skip("%v", err)
				}
			}
			for k := []int{3, 40, 120, 400}[t.Rng.IntN(4)] + t.Rng.IntN(60); k > 0; k-- {
				fly = append(fly, send(a, b))
			}
			recv(b, a, fly[len(fly)-1])
			recv(a, b, send(b, a))
		}
	case 3: // far ahead
		for n := 0; n < 24_900; n++ {
			m := send(a, b)
			if n > 24_890 || n%1000 == 0 {
				fly = append(fly, m)
			}
		}
		recv(b, a, fly[1])
	}
	twin := b.fork()
	r := twin.rawRecord(a.Addr)
	if r == nil {
		t.Skip("no session")
	}
	n := restoreRecord26(t, r)
	if err := (sessStore{twin.St}).Store(ctx, a.Addr, n); err != nil {
		t.Skip("%v", err)
	}
	t.Seen("limits", i%7, shape26(n))
	var idx []int
	for k := range fly {
		idx = append(idx, k)
	}
	rand.New(rand.NewPCG(t.Rng.Uint64(), 1)).Shuffle(len(idx), func(x, y int) { idx[x], idx[y] = idx[y], idx[x] })
	if i%7 == 6 {
		idx = idx[:150] // each call copies megabytes
	}
	for _, k := range idx {
		x, y := recv(b, a, fly[k]), recv(twin, a, fly[k])
		t.Eval()
		t.Count("calls compared", 1)
		if x != y {
			t.Violate("message %d of %d: the original session: %s; the restored one: %s", k, len(fly), x, y)
		}
	}
	if x, y := shape26(b.rawRecord(a.Addr)), shape26(twin.rawRecord(a.Addr)); x != y {
		t.Violate("the original and the restored session differ in the end:\n%s\n%s", x, y)
	}
	// What the restored party sends reaches the peer.
	p := a.fork()
	m := send(twin, a)
	if got, want := recv(p, b, m), fmt.Sprintf("%x ok", m.pt); got != want {
		x := send(b, a)
		if recv(a.fork(), b, x) == fmt.Sprintf("%x ok", x.pt) {
			t.Violate("the peer does not accept what the restored session sends, but what the original one sends: %s", got)
		}
	}
}

// contents26 restores generated states, also with absent and extreme fields.
func contents26(t *T, i int) {
	s := randStruct(t)
	e := func() uint32 { return num32(t) }
	s.PreviousCounter, s.RemoteRegistrationId, s.LocalRegistrationId = e(), e(), e()
	s.SenderChain.ChainKey.Index = e()
	for _, c := range s.ReceiverChains {
		c.ChainKey.Index = e()
		for _, k := range c.MessageKeys {
			k.Index = e()
		}
	}
	if s.PendingPreKey != nil {
		s.PendingPreKey.PreKeyId = e()
		s.PendingPreKey.SignedPreKeyId = int32(e())
		if t.Rng.IntN(3) == 0 {
			s.PendingPreKey.PreKeyId = 0
		}
	}
	if i%40 == 7 { // as large as a session gets
		for len(s.ReceiverChains) < 5 {
			s.ReceiverChains = append(s.ReceiverChains, proto.Clone(s.SenderChain).(*v1.SessionStructure_Chain))
			s.ReceiverChains[len(s.ReceiverChains)-1].SenderRatchetKey = append([]byte{5}, randBytes(t, 32)...)
		}
		for _, c := range s.ReceiverChains {
			for len(c.MessageKeys) < modelMaxSkipped {
				c.MessageKeys = append(c.MessageKeys, &v1.SessionStructure_Chain_MessageKey{Index: uint32(len(c.MessageKeys)), CipherKey: randBytes(t, 32), MacKey: randBytes(t, 32), Iv: randBytes(t, 16)})
			}
		}
		t.Count("sessions of the largest size", 1)
	}
	switch t.Rng.IntN(8) {
	case 0:
		s.SenderChain = nil
	case 1:
		s.ReceiverChains = nil
	case 2:
		s.RemoteIdentityPublic = nil
	case 3:
		s.RootKey = nil
	case 4:
		s.AliceBaseKey = nil
	}
	kp := must(identity.GenerateKeyPair(t.R))
	st := session.NewState(s)
	r := session.NewRecord(st)
	n := restore26(t, st)
	x := new(v1.SessionStructure)
	if proto.Unmarshal(n.Bytes(), x) != nil || !proto.Equal(x, s) {
		t.Violate("a state serializes and restores to other contents:\n%v\n%v", s, x)
	}
	// Restored records still know their sessions.
	rr := restoreRecord26(t, r)
	for _, base := range [][]byte{s.AliceBaseKey, kp.IdentityKey().Bytes(), nil} {
		for _, v := range []uint32{2, 3, 4} {
			a, e1 := r.HasSessionState(v, base)
			b, e2 := rr.HasSessionState(v, base)
			t.Eval()
			if a != b || (e1 == nil) != (e2 == nil) {
				t.Violate("the restored record answers otherwise: has session %d %x: %v, %v", v, base, a, b)
			}
		}
	}
	t.Seen("contents", s.SenderChain != nil, len(s.ReceiverChains), s.PendingPreKey != nil, cls32(s.PreviousCounter), cls32(s.LocalRegistrationId))
}
