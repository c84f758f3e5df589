package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/direction"
	"github.com/RTann/libsignal-go/protocol/distribution"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/perrors"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:   "C29",
		Rule: "Random conversations under changing trust decisions, with replays, altered and stray messages, missing sessions and failing stores. What a call reports is compared with what the monitor saw: the trust decisions given during the call, the sessions and chain positions stored before it, and the faults injected. Distinct by the call, what it reported and what was stored.",
		Run:  runC29,
		Assume: []string{
			"a handshake message naming an identity other than its session's may be reported as untrusted or as any other failure",
		},
	})
}

// call29 is one call under way.
type call29 struct {
	p       *Party
	what    string
	remote  address.Address
	typ     message.CiphertextType
	msg     []byte
	v       *view
	has     bool
	refused int
	asked   int
}

type mon29 struct {
	t    *T
	s    *Sim
	no   map[string]bool // party, address and direction whose identity is refused
	call *call29
}

func (m *mon29) watch(p *Party) {
	p.onCall = func(call string, remote address.Address, _ distribution.ID, msg []byte) context.Context {
		m.begin(p, call, remote, msg)
		return ctx
	}
	m.decide(p)
}

// decide makes p's trust decisions those of the monitor.
func (m *mon29) decide(p *Party) {
	p.St.trust = func(a address.Address, k identity.Key, d direction.Direction) (bool, error) {
		yes := !m.no[fmt.Sprint(p.Addr, a, d)]
		if m.call != nil && m.call.p == p {
			m.call.asked++
			if !yes {
				m.call.refused++
			}
		}
		return yes, nil
	}
}

func (m *mon29) begin(p *Party, call string, remote address.Address, msg []byte) {
	if m.call != nil { // it succeeded
		m.judge(m.call.typ, nil, nil)
	}
	r := p.rawRecord(remote)
	m.call = &call29{p: p, what: call, remote: remote, msg: clone(msg), v: viewOf(r), has: r != nil && r.State() != nil}
}

// passed tells whether a session's chain has passed the message's position, and its key is gone.
func passed29(v *view, sm *ref.SignalMsg) (bool, *v1.SessionStructure) {
	for _, s := range append([]*v1.SessionStructure{v.cur}, v.prev...) {
		if s == nil {
			continue
		}
		for _, c := range s.ReceiverChains {
			// bytes after a key are ignored
			if !bytes.HasPrefix(sm.RatchetKey, c.SenderRatchetKey) || c.ChainKey.GetIndex() <= sm.Counter {
				continue
			}
			gone := true
			for _, k := range c.MessageKeys {
				gone = gone && k.Index != sm.Counter
			}
			if gone {
				return true, s
			}
		}
	}
	return false, nil
}

// judge compares what the call reported with what happened.
func (m *mon29) judge(typ message.CiphertextType, out []byte, err error) {
	c, t := m.call, m.t
	m.call = nil
	if c == nil {
		return
	}
	t.Eval()
	t.Count("calls judged", 1)
	what := fmt.Sprintf("%v: %s with %v", c.p.Addr, c.what, c.remote)
	if err != nil && out != nil {
		t.Violate("%s failed (%v) and returned %d bytes", what, err, len(out))
	}
	if c.refused > 0 && err == nil {
		t.Violate("%s succeeded although the identity was refused", what)
	}
	untrusted, dup := perrors.IsErrUntrustedIdentity(err), errors.Is(err, perrors.ErrDuplicateMessage)
	missing := errors.Is(err, perrors.ErrSessionNotFound(c.remote))
	for _, n := range m.s.Nodes {
		if n.Addr != c.remote && (errors.Is(err, perrors.ErrSessionNotFound(n.Addr)) || errors.Is(err, perrors.ErrUntrustedIdentity(n.Addr))) {
			t.Violate("%s reports %q, of another address", what, err)
		}
	}
	if untrusted && !errors.Is(err, perrors.ErrUntrustedIdentity(c.remote)) {
		t.Violate("%s reports %q, not of its remote address", what, err)
	}
	var sm *ref.SignalMsg
	var pm *ref.PreKeyMsg
	if c.what == "decrypt" {
		in := c.msg
		if typ == message.PreKeyType {
			if x, e := ref.ParsePreKey(c.msg); e == nil {
				pm, in = x, x.Message
			}
		}
		if x, e := ref.ParseSignal(in); e == nil {
			sm = x
		}
	}
	// untrusted
	var held *v1.SessionStructure
	if pm != nil {
		held = c.v.find(pm.BaseKey)
	}
	switch {
	case c.refused > 0 && !untrusted:
		t.Violate("%s: the identity was refused, but it reports %q", what, err)
	case c.refused == 0 && untrusted:
		if pm == nil || held == nil || bytes.Equal(held.RemoteIdentityPublic, pm.IdentityKey) {
			t.Violate("%s reports an untrusted identity, but none was refused (%d decisions)", what, c.asked)
		}
	}
	// no session
	if need := c.what == "encrypt" || c.what == "decrypt" && typ == message.WhisperType; need && !c.has != missing {
		t.Violate("%s: session stored: %v, reported: %v", what, c.has, err)
	} else if !need && missing {
		t.Violate("%s reports a missing session: %v", what, err)
	}
	// duplicates
	if dup && c.what != "decrypt" {
		t.Violate("%s reports a duplicate", what)
	}
	if c.what == "decrypt" && sm != nil {
		was, _ := passed29(c.v, sm)
		if dup && !was {
			t.Violate("%s: a message whose position no chain has passed is reported as a duplicate", what)
		}
		if was && !dup && c.refused == 0 && (typ == message.WhisperType || held != nil && bytes.Equal(held.RemoteIdentityPublic, pm.IdentityKey)) {
			t.Violate("%s: a message whose position was passed is not reported as a duplicate: %v", what, err)
		}
		if dup && err != perrors.ErrDuplicateMessage {
			t.Count("wrapped duplicates", 1)
		}
	}
	kind := "other"
	switch {
	case err == nil:
		kind = "done"
	case untrusted:
		kind = "untrusted"
	case dup:
		kind = "duplicate"
	case missing:
		kind = "missing"
	}
	t.Count("reported: "+kind, 1)
	t.Seen(c.what, typ, kind, c.has, len(c.v.prev), c.refused)
}

func runC29(c *C) {
	c.Cases("history", c.N(160, 5000), history29)
	c.Cases("groups", c.N(60, 1500), groups29)
	c.Cases("records", c.N(8, 40), records29)
	c.Cases("far", c.N(8, 100), far29)
	c.Cases("farGroup", c.N(16, 300), farGroup29)
	c.Require("calls judged", 10000)
	c.Require("reported: untrusted", 300)
	c.Require("reported: duplicate", 1000)
	c.Require("reported: missing", 300)
	c.Require("reported: other", 300)
	c.Require("store errors seen by the caller", 300)
	c.Require("group duplicates", 300)
	c.Require("far messages judged", 150)
}

func history29(t *T, i int) {
	s := newSim(t, "alice 1", "bob 1", "alice 2")
	s.persistSome()
	m := &mon29{t: t, s: s, no: map[string]bool{}}
	for _, n := range s.Nodes {
		m.watch(n.P)
	}
	p := profileFor(t, i)
	p.ops = 120
	p.burst = 0
	toggle := func() {
		if len(m.no) > 0 && t.Rng.IntN(2) == 0 {
			m.no = map[string]bool{}
			return
		}
		a, b := s.pair()
		m.no[fmt.Sprint(a.Addr, b.Addr, []direction.Direction{direction.Sending, direction.Receiving}[t.Rng.IntN(2)])] = true
	}
	s.run(p, driver{
		onSendErr:  func(a, b *Node, err error) { m.judge(0, nil, err) },
		onShakeErr: func(a, b *Node, err error) { m.judge(0, nil, err) },
		onDeliver:  func(x *Msg, r Result, replay bool) { m.judge(r.Typ, r.Plain, r.Err) },
		after: func() {
			m.judge(0, nil, nil)
			if t.Rng.IntN(12) == 0 {
				toggle()
			}
			if t.Rng.IntN(4) == 0 {
				m.odd()
			}
		},
	})
	if t.wantSample() {
		t.Sample(map[string]any{"case": t.Name, "events": tail(t.log, 10)})
	}
}

// odd makes a call out of the ordinary on a copy of a party.
func (m *mon29) odd() {
	t, s := m.t, m.s
	a, b := s.pair()
	q := a.P.fork()
	m.decide(q)
	m.call = nil
	remote := b.Addr
	decrypt := func(typ message.CiphertextType, w []byte) {
		x, err := parseWire(typ, w)
		if err != nil {
			return
		}
		q.know(remote)
		m.begin(q, "decrypt", remote, w)
		pt, err := q.Session(remote).DecryptMessage(ctx, q.R, x)
		t.Logf("%v: %x as from %v -> %v", q.Addr, clipb(w), remote, err)
		m.judge(typ, pt, err)
	}
	some := func() *Msg {
		if len(s.Flight) > 0 && (len(s.Done) == 0 || t.Rng.IntN(2) == 0) {
			return s.Flight[t.Rng.IntN(len(s.Flight))]
		}
		if len(s.Done) > 0 {
			return s.Done[t.Rng.IntN(len(s.Done))]
		}
		return nil
	}
	switch t.Rng.IntN(5) {
	case 0: // an address never heard of, or whose record holds nothing
		remote = address.Address{Name: b.Addr.Name + "?", DeviceID: b.Addr.DeviceID}
		if t.Rng.IntN(2) == 0 {
			ok(t, q.St.in.SessionStore().Store(ctx, remote, session.NewRecord(nil)))
			m.begin(q, "encrypt", remote, nil)
			_, err := q.Session(remote).EncryptMessage(ctx, []byte("x"))
			m.judge(0, nil, err)
			return
		}
		fallthrough
	case 1:
		m.begin(q, "encrypt", remote, nil)
		ct, err := q.Session(remote).EncryptMessage(ctx, []byte("x"))
		var out []byte
		if ct != nil {
			out = ct.Bytes()
		}
		m.judge(0, out, err)
		if x := some(); x != nil {
			decrypt(message.WhisperType, x.Inner)
		}
	case 2: // altered
		x := some()
		if x == nil {
			return
		}
		if x.To != a {
			q = x.To.P.fork()
			m.decide(q)
		}
		remote = x.From.Addr
		w, typ := clone(x.Wire), x.Typ
		if t.Rng.IntN(2) == 0 {
			w, typ = clone(x.Inner), message.WhisperType
		}
		decrypt(typ, flip(w, t.Rng.IntN(len(w)), 1<<t.Rng.IntN(8)))
		if sm, err := ref.ParseSignal(x.Inner); err == nil { // another position, and another chain
			for _, n := range []uint32{sm.Counter + 1, sm.Counter / 2, sm.Counter + 25001} {
				decrypt(message.WhisperType, append(ref.EncodeSignalBody(sm.RatchetKey, n, sm.Prev, sm.Ciphertext), randBytes(t, 8)...))
			}
			decrypt(message.WhisperType, append(ref.EncodeSignalBody(ref.GenKP(t.R).Pub, sm.Counter, sm.Prev, sm.Ciphertext), randBytes(t, 8)...))
		}
	case 3: // at another party, or as another's
		if x := some(); x != nil {
			decrypt(x.Typ, x.Wire)
			decrypt(message.WhisperType, x.Inner)
		}
	case 4: // with a failing store
		x := some()
		if x == nil {
			return
		}
		q = x.To.P.fork()
		m.decide(q)
		remote = x.From.Addr
		k, fired := 1+t.Rng.IntN(6), false
		q.St.hook = func(op string) error {
			if k--; k == 0 {
				fired = true
				return fmt.Errorf("store: %w", errInjected)
			}
			return nil
		}
		var err error
		what := t.Rng.IntN(3)
		switch what {
		case 0:
			var pt []byte
			pt, err = q.receive(remote, x.Typ, x.Wire)
			if err != nil && pt != nil {
				t.Violate("%v: decrypt failed (%v) and returned %d bytes", q.Addr, err, len(pt))
			}
		case 1:
			var ct message.Ciphertext
			ct, err = q.Session(remote).EncryptMessage(ctx, []byte("x"))
			if err != nil && ct != nil {
				t.Violate("%v: encrypt failed (%v) and returned a message", q.Addr, err)
			}
		case 2:
			err = q.Session(remote).ProcessPreKeyBundle(ctx, q.R, x.From.P.fork().Bundle(false))
		}
		if !fired {
			return
		}
		t.Eval()
		if !errors.Is(err, errInjected) || perrors.IsErrUntrustedIdentity(err) || errors.Is(err, perrors.ErrDuplicateMessage) || errors.Is(err, perrors.ErrSessionNotFound(remote)) {
			t.Violate("%v: the store failed during call %d with %v, but the caller sees %v", q.Addr, what, remote, err)
		}
		t.Count("store errors seen by the caller", 1)
	}
}

func clipb(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

func groups29(t *T, i int) {
	g := newGSim(t, 2+t.Rng.IntN(2), 1+t.Rng.IntN(2))
	gp := gprofiles[i%len(gprofiles)]
	gp.ops, gp.burst = 120, 0
	g.run(gp, gdriver{
		onProcess: func(n *Node, s *SKD, err error) {},
		onDeliver: func(n *Node, m *GMsg, r GResult) {
			t.Eval()
			t.Count("calls judged", 1)
			dup := isDup(r.Err)
			if r.Err != nil && r.Plain != nil {
				t.Violate("%v failed (%v) and returned %d bytes", m, r.Err, len(r.Plain))
			}
			if dup != (r.Pred == pDuplicate) {
				if r.OK || r.Pred == pAccept && !dup {
					t.Skip("%v: model %v, library %v", m, r.Pred, r.Err)
				}
				t.Violate("%v at %v: the model says %v, reported is %v", m, n.Addr, r.Pred, r.Err)
			}
			if dup {
				t.Count("group duplicates", 1)
			}
			t.Seen("group", r.Pred, r.Err == nil)
		},
		after: func() {
			if len(g.Msgs) == 0 || t.Rng.IntN(6) > 0 {
				return
			}
			x := g.Msgs[t.Rng.IntN(len(g.Msgs))]
			n := g.other(x.K.from)
			q := n.P.fork(groupKey{x.K.from.Addr, x.K.dist})
			fired := false
			k := 1 + t.Rng.IntN(2)
			q.St.hook = func(op string) error {
				if k--; k == 0 {
					fired = true
					return fmt.Errorf("store: %w", errInjected)
				}
				return nil
			}
			mm, err := message.NewSenderKeyFromBytes(clone(x.Wire))
			if err != nil {
				return
			}
			pt, err := q.Group(x.K.from.Addr, x.K.dist).DecryptMessage(ctx, mm)
			if err != nil && pt != nil {
				t.Violate("%v: group decryption failed (%v) and returned %d bytes", q.Addr, err, len(pt))
			}
			if fired && (!errors.Is(err, errInjected) || isDup(err)) {
				t.Violate("%v: the store failed during group decryption, but the caller sees %v", q.Addr, err)
			}
			if fired {
				t.Count("store errors seen by the caller", 1)
			}
		},
	})
}

// records29: a record without a session says so.
func records29(t *T, i int) {
	r := session.NewRecord(nil)
	key := ref.GenKP(t.R)
	pub := must(curve.NewPublicKey(key.Pub))
	calls := []struct {
		name string
		f    func() error
	}{
		{"Version", func() error { _, err := r.Version(); return err }},
		{"LocalIdentityKey", func() error { _, err := r.LocalIdentityKey(); return err }},
		{"RemoteIdentityKey", func() error { _, _, err := r.RemoteIdentityKey(); return err }},
		{"ReceiverChainKey", func() error { _, _, err := r.ReceiverChainKey(pub); return err }},
		{"SenderChainKey", func() error { _, err := r.SenderChainKey(); return err }},
	}
	for _, c := range calls {
		t.Eval()
		if err := c.f(); !errors.Is(err, perrors.ErrNoCurrentSession) {
			t.Violate("Record.%s of an empty record reports %v", c.name, err)
		}
	}
	t.Count("empty records asked", 1)
}

// far29: a message whose key was given up is a duplicate, one too far ahead is not.
func far29(t *T, i int) {
	s := newSim(t, "alice 1", "bob 1")
	a, b := s.Nodes[0], s.Nodes[1]
	if err := s.handshake(a, b, i%2 == 0); err != nil {
		t.Skip("%v", err)
	}
	if d := s.converse(a, b, 1); d != "" {
		t.Skip("%v", d)
	}
	kept, n := 2000, 2100+t.Rng.IntN(300)
	var sent []*Msg
	for k := 0; k < n; k++ {
		sent = append(sent, mustSend(t, s, a, b, []byte("x")))
	}
	mustDeliver(t, s, sent[n-1])
	if i%3 == 0 {
		if d := s.converse(b, a, 1); d != "" { // the chain is an old one now
			t.Skip("%v", d)
		}
	}
	ask := func(w []byte, what string, want bool) {
		q := b.P.fork()
		pt, err := q.receive(a.Addr, message.WhisperType, w)
		t.Eval()
		t.Count("far messages judged", 1)
		if err == nil {
			t.Skip("%s is accepted", what)
		}
		if got := errors.Is(err, perrors.ErrDuplicateMessage); got != want || pt != nil {
			t.Violate("%s: %q, %v", what, pt, err)
		}
		t.Seen("far", what)
	}
	for _, k := range []int{0, 1, n - 2 - kept, t.Rng.IntN(n - 1 - kept)} {
		ask(sent[k].Inner, "a message whose key was given up", true)
	}
	ask(sent[n-1].Inner, "the message last read", true)
	sm, err := ref.ParseSignal(sent[n-1].Inner)
	ok(t, err)
	for _, d := range []uint32{25001, 25002, 1 << 20, 1 << 31, 1<<32 - 1 - uint32(n) - 1} {
		ask(append(ref.EncodeSignalBody(sm.RatchetKey, sm.Counter+1+d, sm.Prev, sm.Ciphertext), sm.MAC...), "a message too far ahead", false)
	}
	ask(append(ref.EncodeSignalBody(sm.RatchetKey, sm.Counter+1, sm.Prev, sm.Ciphertext), sm.MAC...), "a forgery", false)
	ask(append(ref.EncodeSignalBody(sm.RatchetKey, sm.Counter-5, sm.Prev, sm.Ciphertext), sm.MAC...), "a forgery at a kept position", false)
}

func farGroup29(t *T, i int) {
	p := newParty(t, "bob", 1)
	from := address.Address{Name: "alice", DeviceID: 1}
	dist := newDist(t)
	s := &ref.GroupSender{Dist: []byte(dist.String()), ChainID: t.Rng.Uint32(), CK: randBytes(t, 32), N: t.Rng.Uint32N(100), Sign: ref.GenKP(t.R)}
	skd, err := message.NewSenderKeyDistributionFromBytes(s.SKD())
	ok(t, err)
	ok(t, p.Group(from, distribution.ID{}).ProcessSenderKeyDistribution(ctx, skd))
	first := s.Encrypt([]byte("x"), randBytes(t, 64))
	before := s.N
	ahead := func(n int) { // skips n messages
		for k := 0; k < n; k++ {
			s.CK = ref.NextChain(s.CK)
		}
		s.N += uint32(n)
	}
	over := *s
	n := 1 + t.Rng.IntN(5000)
	ahead(n)
	last := s.Encrypt([]byte("x"), randBytes(t, 64))
	ask := func(q *Party, w []byte, what string, opens, dup bool) {
		m, err := message.NewSenderKeyFromBytes(clone(w))
		ok(t, err)
		pt, err := q.Group(from, dist).DecryptMessage(ctx, m)
		t.Eval()
		t.Count("far messages judged", 1)
		if opens != (err == nil) {
			t.Skip("%s: %v", what, err)
		}
		if isDup(err) != dup || err != nil && pt != nil {
			t.Violate("group: %s: %q, %v", what, pt, err)
		}
		t.Seen("far group", what, n/1000)
	}
	q := p.fork(groupKey{from, dist})
	for _, it := range []uint32{before + 25001, before + 25002, before + 1<<24, 1<<32 - 1} {
		f := over
		f.N = it
		ask(q, f.Encrypt([]byte("x"), randBytes(t, 64)), "a message too far ahead", false, false)
	}
	ask(q, last, "the last message", true, false)
	ask(q, last, "the last message again", false, true)
	if n > 2100 {
		f := over
		f.N--
		ask(q, f.Encrypt([]byte("x"), randBytes(t, 64)), "a forgery at a passed position", false, true)
		ask(q, first, "a message whose key was given up", false, true)
	} else if n < 1900 {
		ask(q, first, "a late message", true, false)
		ask(q, first, "a late message again", false, true)
	}
	bad := clone(last)
	bad[len(bad)-1] ^= 1
	ask(q, bad, "a forged repetition", false, false)
}
