package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/direction"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:     "C04",
		Level:  "fault_enumeration",
		Rule:   "(a) refused inputs of every kind presented at random points of random histories with the whole store compared before and after; (b) for calls of every kind at random points, every single store operation and every random byte position made to fail in turn (and random pairs), followed by retry and further traffic, compared with an unfaulted twin; distinct by (call kind, failing operation, position, session shape)",
		Run:    runC04,
		Assume: []string{"a failing store operation has no effect", "deletion of a used one-time pre-key is exempt from retry, the session must stay usable"},
	})
}

var testDist = distribution.MustParse("d1d1d1d1-7000-11eb-b32a-33b8a8a487a6")

// shape describes what is stored without the random values: sessions with their counters, pending markers, kept keys.
func (p *Party) shape(groups []groupKey) string {
	var out []string
	st := func(x *session.State) string {
		s := structOf(x)
		var ch []string
		for _, c := range s.ReceiverChains {
			var ks []uint32
			for _, k := range c.MessageKeys {
				ks = append(ks, k.Index)
			}
			ch = append(ch, fmt.Sprintf("%d%v", c.ChainKey.GetIndex(), ks))
		}
		return fmt.Sprintf("send %d prev %d pending %v recv %v", s.SenderChain.GetChainKey().GetIndex(), s.PreviousCounter, s.PendingPreKey != nil, ch)
	}
	for _, a := range p.Known {
		if r := p.rawRecord(a); r != nil {
			if r.State() != nil {
				out = append(out, fmt.Sprintf("session %v %s", a, st(r.State())))
			}
			prev, _ := r.PreviousStates()
			for i, x := range prev {
				out = append(out, fmt.Sprintf("session %v archived %d %s", a, i, st(x)))
			}
		}
		if k, ok, _ := p.St.in.IdentityStore().Load(ctx, a); ok {
			out = append(out, fmt.Sprintf("identity %v %x", a, k.Bytes()))
		}
	}
	for id := range p.PreKeys {
		if _, ok, _ := p.St.in.PreKeyStore().Load(ctx, id); ok {
			out = append(out, fmt.Sprint("prekey ", id))
		}
	}
	for _, g := range groups {
		if r, ok, _ := p.St.in.GroupStore().Load(ctx, g.sender, g.dist); ok {
			if s, err := r.State(); err == nil {
				out = append(out, fmt.Sprintf("group %v %v iteration %d", g.sender, g.dist, s.SenderChainKey().Iteration()))
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// faultReader fails after n bytes.
type faultReader struct {
	r    io.Reader
	left int
	n    int
}

func (f *faultReader) Read(p []byte) (int, error) {
	if f.left >= 0 && len(p) > f.left {
		k, _ := f.r.Read(p[:f.left])
		f.n += k
		f.left -= k
		return k, errInjected
	}
	k, err := f.r.Read(p)
	f.n += k
	if f.left >= 0 {
		f.left -= k
	}
	return k, err
}

// call is one library call to be made on a copy of a party.
type call struct {
	kind string
	do   func(q *Party) (any, error)
	// after exercises later traffic between the copy q and copies of its peers; it returns a complaint.
	after func(q *Party, res any) string
	want  []byte // expected plaintext, if a decryption
	// idleRandom: the call may draw random bytes it does not need (while trying other sessions)
	idleRandom bool
	grp        []groupKey
}

func isNilResult(res any) bool {
	switch x := res.(type) {
	case nil:
		return true
	case []byte:
		return x == nil
	case message.Ciphertext:
		return x == nil || fmt.Sprintf("%v", x) == "<nil>"
	}
	return false
}

// enumerate04 makes every store operation and random byte of the call fail in turn.
func enumerate04(t *T, p *Party, c call) {
	// dry run: learn the operations
	twin := p.fork(c.grp...)
	twin.St.logging = true
	cr := &faultReader{r: newReader(t.Name, "twin"), left: -1}
	twin.R = cr
	res, err := c.do(twin)
	if err != nil {
		t.Skip("%s fails without any fault: %v", c.kind, err)
	}
	ops := append([]storeOp(nil), twin.St.log...)
	nrand := cr.n
	want := twin.shape(c.grp)
	if c.want != nil && !bytes.Equal(res.([]byte), c.want) {
		t.Skip("%s gives wrong plaintext without any fault", c.kind)
	}
	t.Count("calls enumerated: "+c.kind, 1)

	var plans [][]int // failing positions; >= 1000 means random byte position
	for k := range ops {
		plans = append(plans, []int{k})
	}
	for k := 0; k < nrand; k++ {
		if nrand < 40 || k%7 == int(t.Rng.Uint32N(7)) || k%32 == 0 || k == nrand-1 {
			plans = append(plans, []int{1000 + k})
		}
	}
	for k := 0; k < 3; k++ {
		if len(plans) > 1 {
			plans = append(plans, []int{plans[t.Rng.IntN(len(plans))][0], plans[t.Rng.IntN(len(plans))][0], plans[t.Rng.IntN(len(plans))][0]})
		}
	}
	for _, plan := range plans {
		q := p.fork(c.grp...)
		before := q.snapshot(c.grp)
		deleted, settled := false, false
		for _, k := range plan {
			name := ""
			if k >= 1000 {
				q.R = &faultReader{r: newReader(t.Name, "f", k), left: k - 1000}
				name = "random source"
			} else {
				q.R = newReader(t.Name, "f", k)
				name = ops[k].Op
				n := 0
				q.St.hook = func(op string) error {
					n++
					if n-1 == k {
						return errInjected
					}
					return nil
				}
			}
			t.Eval()
			res, err := c.do(q)
			q.St.hook = nil
			t.Logf("%s with fault at %d (%s) -> %v", c.kind, k, name, err)
			t.Count("faults injected: "+name, 1)
			t.Seen(c.kind, name, k, len(ops), nrand)
			if err == nil && k >= 1000 && (c.idleRandom || c.want != nil && nrand > 32) {
				// the failing read was not needed: the call must have completed as without the fault
				if got := q.shape(c.grp); got != want || !bytes.Equal(res.([]byte), c.want) {
					t.Violate("%s: the random source failed during the call, it reports success but does not give what it gives without the fault:\n%s\nwithout:\n%s", c.kind, got, want)
				}
				t.Count("random faults without influence", 1)
				settled = true
				break
			}
			if err == nil {
				t.Violate("%s: %s failed during the call (position %d of %d store operations) but the call reports success", c.kind, name, k, len(ops))
			}
			if !isNilResult(res) {
				t.Violate("%s: %s failed and the call returned an error together with a result (%T)", c.kind, name, res)
			}
			if name == "prekey.Delete" {
				deleted = true
				break
			}
			if name != "session.Store" && name != "group.Store" && name != "identity.Store" {
				// nothing was to be written yet, or only the pinned identity
				if d := diffSnap(before, q.snapshot(c.grp)); d != "" && !strings.Contains(d, "identity") {
					t.Violate("%s: %s failed and the stored state changed:\n%s", c.kind, name, d)
				}
			}
		}
		q.R = newReader(t.Name, "retry", fmt.Sprint(plan))
		if settled {
			if d := c.after(q, nil); d != "" {
				t.Violate("%s: later traffic fails: %s", c.kind, d)
			}
			continue
		}
		if deleted {
			if d := c.after(q, nil); d != "" {
				t.Violate("%s: after a failed deletion of the one-time pre-key the session is not usable: %s", c.kind, d)
			}
			continue
		}
		res, err := c.do(q)
		if err != nil {
			t.Violate("%s: after faults at %v the same call fails although the fault is gone: %v", c.kind, plan, err)
		}
		if c.want != nil && !bytes.Equal(res.([]byte), c.want) {
			t.Violate("%s: after faults at %v the call gives %s, sent was %s", c.kind, plan, hexs(res.([]byte)), hexs(c.want))
		}
		if got := q.shape(c.grp); got != want {
			t.Violate("%s: after faults at %v and a retry the stored state differs from one without the faults:\n%s\nwithout:\n%s", c.kind, plan, got, want)
		}
		if d := c.after(q, res); d != "" {
			t.Violate("%s: after faults at %v and a successful retry, later traffic fails: %s", c.kind, plan, d)
		}
	}
}

// chat04 exchanges messages between two copies; pend is a ciphertext of q which the peer has not received yet.
func chat04(q, peer *Party, pend message.Ciphertext) string {
	if pend != nil {
		if _, err := peer.receive(q.Addr, pend.Type(), pend.Bytes()); err != nil {
			return fmt.Sprintf("peer refuses the message: %v", err)
		}
	}
	for k := 0; k < 2; k++ {
		for _, d := range [][2]*Party{{q, peer}, {peer, q}, {q, peer}} {
			pt := []byte(fmt.Sprint("later ", k))
			m, err := d[0].Session(d[1].Addr).EncryptMessage(ctx, pt)
			if err != nil {
				return fmt.Sprintf("%v encrypt: %v", d[0].Addr, err)
			}
			got, err := d[1].receive(d[0].Addr, m.Type(), m.Bytes())
			if err != nil || !bytes.Equal(got, pt) {
				return fmt.Sprintf("%v decrypt: %v", d[1].Addr, err)
			}
		}
	}
	return ""
}

func runC04(c *C) {
	c.Cases("refused", c.N(120, 5000), refused04)
	c.Cases("refused-group", c.N(60, 2000), refusedGroup04)
	c.Cases("faults", c.N(100, 4000), faults04)
	c.Cases("faults-group", c.N(40, 1500), faultsGroup04)
	c.Cases("insider", c.N(24, 400), func(t *T, i int) {
		insider(t, i, func(p *Party, what string, f func() ([]byte, error)) {
			unchanged04(t, p, nil, what, func() (any, error) {
				pt, err := f()
				if pt == nil {
					return nil, err
				}
				return pt, err
			})
		}, t.Violate)
	})
	c.Cases("flaky", c.N(60, 3000), flaky04)
	for _, k := range []string{"identity.IsTrusted", "session.Load", "session.Store", "identity.Store", "prekey.Load", "prekey.Delete", "signed.Load", "group.Load", "group.Store", "random source"} {
		c.Require("faults injected: "+k, 10)
	}
	c.Require("refused calls with unchanged state", 2000)
}

// unchanged04 makes a call that must be refused and compares everything stored.
func unchanged04(t *T, p *Party, grp []groupKey, kind string, f func() (any, error)) {
	before := p.snapshot(grp)
	res, err := f()
	watch.err(err)
	t.Eval()
	if err == nil {
		t.Count("calls that were not refused: "+kind, 1)
		t.Skip("%s was not refused", kind)
	}
	if !isNilResult(res) {
		t.Violate("%s: refused with %v but returned a result %T", kind, err, res)
	}
	if d := diffSnap(before, p.snapshot(grp)); d != "" {
		t.Violate("%s was refused (%v) but what %v has stored changed:\n%s", kind, err, p.Addr, d)
	}
	t.Count("refused calls with unchanged state", 1)
	if n := strings.Index(kind, " ("); n > 0 {
		kind = kind[:n]
	}
	t.Count("refused: "+kind, 1)
}

func refused04(t *T, i int) {
	s := scene03(t, 2+t.Rng.IntN(10))
	p := profiles[t.Rng.IntN(4)]
	p.ops = 30 + t.Rng.IntN(50)
	d := driver03(t)
	d.extra = func() { refuseOne04(t, s) }
	s.run(p, d)
	for k := 0; k < 6; k++ {
		refuseOne04(t, s)
	}
	// the conversation goes on
	for _, m := range s.Flight {
		r := s.deliver(m, false)
		if m.Accepted <= 1 && r.Pred == pAccept && !r.OK {
			t.Violate("%v refused after refused calls: %v", m, r.Err)
		}
	}
}

func refuseOne04(t *T, s *Sim) {
	recv := func(n *Node, from address.Address, typ message.CiphertextType, w []byte, kind string) {
		t.Seen(kind, typ, n.Recs[from] != nil && len(n.Recs[from].prev) > 0)
		unchanged04(t, n.P, nil, kind, func() (any, error) { return n.P.receive(from, typ, w) })
	}
	var m *Msg
	if len(s.Flight) > 0 {
		m = s.Flight[t.Rng.IntN(len(s.Flight))]
	}
	switch t.Rng.IntN(13) {
	case 12: // forged or unusable bundles in the name of somebody nothing is known about
		n, o := s.pair()
		a := address.Address{Name: fmt.Sprint("newcomer", t.Rng.IntN(1000)), DeviceID: 1}
		n.P.know(a)
		bun := *o.bundle(t.Rng.IntN(2) == 0)
		kind := "forged bundle of a stranger"
		switch t.Rng.IntN(5) {
		case 0:
			bun.SignedPreKeySignature = flip(bun.SignedPreKeySignature, t.Rng.IntN(64), 1<<t.Rng.IntN(8))
		case 1:
			bun.SignedPreKeyPublic = must(curve.GenerateKeyPair(t.R)).PublicKey()
		case 2:
			bun.SignedPreKeySignature = bun.SignedPreKeySignature[:t.Rng.IntN(64)]
		case 3: // a signed key nobody can agree with, correctly signed
			bun.SignedPreKeyPublic = must(curve.NewPublicKey(append([]byte{5}, make([]byte, 32)...)))
			bun.SignedPreKeySignature = must(o.P.KP.PrivateKey().Sign(t.R, bun.SignedPreKeyPublic.Bytes()))
		case 4:
			bun.PreKeyPublic = must(curve.NewPublicKey(append([]byte{5, 1}, make([]byte, 31)...)))
			id := prekey.ID(78)
			bun.PreKeyID = &id
		}
		unchanged04(t, n.P, nil, kind, func() (any, error) {
			return nil, n.P.Session(a).ProcessPreKeyBundle(ctx, n.P.R, &bun)
		})
	case 0: // duplicate
		if len(s.Done) == 0 {
			return
		}
		m := s.Done[t.Rng.IntN(len(s.Done))]
		if pr, _, _, _ := m.To.predict(m.To.Recs[m.From.Addr], m, m.Typ); pr != pAccept {
			recv(m.To, m.From.Addr, m.Typ, m.Wire, "duplicate")
		}
	case 1, 2, 3: // tampered tail (tag or ciphertext), with and without wrapper
		if m == nil || m.Accepted > 0 {
			return
		}
		if m.Typ == message.PreKeyType {
			pm, _ := ref.ParsePreKey(m.Wire)
			pm.Message = flip(m.Inner, t.Rng.IntN(len(m.Inner)), byte(1+t.Rng.IntN(255)))
			recv(m.To, m.From.Addr, m.Typ, ref.EncodePreKey(pm), "altered in its handshake")
		}
		in := flip(m.Inner, len(m.Inner)-1-t.Rng.IntN(16), byte(1+t.Rng.IntN(255)))
		recv(m.To, m.From.Addr, message.WhisperType, in, "altered")
	case 4: // counter far ahead or new ratchet key, no valid tag
		if m == nil {
			return
		}
		sm, _ := ref.ParseSignal(m.Inner)
		rk := sm.RatchetKey
		if t.Rng.IntN(2) == 0 {
			rk = ref.GenKP(t.R).Pub
		}
		if t.Rng.IntN(5) == 0 {
			rk = append([]byte{5}, make([]byte, 32)...) // low order: key agreement fails
		}
		ahead := t.Rng.Uint32() >> t.Rng.IntN(32)
		if m.HS.aliceID == m.HS.bobID {
			ahead %= 30000 // a session with oneself works through any distance
		}
		in := append(ref.EncodeSignalBody(rk, sm.Counter+ahead, sm.Prev, sm.Ciphertext), sm.MAC...)
		if bytes.Equal(in, m.Inner) {
			return
		}
		recv(m.To, m.From.Addr, message.WhisperType, in, "invented position")
		if m.HS.baseKey != nil && m.HS.alice == m.From {
			w := wrapper(m, nil)
			w.Message = in
			recv(m.To, m.From.Addr, message.PreKeyType, ref.EncodePreKey(w), "invented position in handshake")
		}
	case 5: // handshake around garbage: new base key, unknown ids
		if m == nil {
			return
		}
		w := wrapper(m, ref.GenKP(t.R).Pub)
		if t.Rng.IntN(2) == 0 { // names an existing one-time pre-key
			for id := range m.To.Avail {
				v := uint32(id)
				w.PreKeyID = &v
				break
			}
		}
		switch t.Rng.IntN(4) {
		case 0:
			w.SignedID = t.Rng.Uint32()
		case 1:
			v := t.Rng.Uint32()
			w.PreKeyID = &v
		case 2:
			w.BaseKey = append([]byte{5}, make([]byte, 32)...)
		}
		recv(m.To, m.From.Addr, message.PreKeyType, ref.EncodePreKey(w), "handshake that does not fit")
	case 6: // stranger: handshake that does not verify, from an address nobody knows
		n := s.Nodes[t.Rng.IntN(len(s.Nodes))]
		a := address.Address{Name: fmt.Sprint("stranger", t.Rng.IntN(3)), DeviceID: 1}
		n.P.know(a)
		b := refBundle(n.bundle(t.Rng.IntN(2) == 0))
		id, base := ref.GenKP(t.R), ref.GenKP(t.R)
		x, _ := ref.DH(base.Priv, b.SignedKey)
		ms := ref.AliceFromDH(t.R, base, id.Pub, 1, b, [][]byte{x})
		_, w := ms.Encrypt([]byte("hi"))
		recv(n, a, message.PreKeyType, w, "bogus handshake of a stranger")
		pm, _ := ref.ParsePreKey(w)
		recv(n, a, message.WhisperType, pm.Message, "message without session")
		unchanged04(t, n.P, nil, "encryption without session", func() (any, error) { return n.P.Session(a).EncryptMessage(ctx, []byte("x")) })
	case 7: // untrusted identity in each direction
		a, b := s.pair()
		if r := a.Recs[b.Addr]; r == nil || r.cur == nil {
			return
		}
		a.P.St.trust = func(address.Address, identity.Key, direction.Direction) (bool, error) { return false, nil }
		unchanged04(t, a.P, nil, "encryption to an untrusted identity", func() (any, error) { return a.P.Session(b.Addr).EncryptMessage(ctx, []byte("x")) })
		bun := b.bundle(true)
		unchanged04(t, a.P, nil, "bundle of an untrusted identity", func() (any, error) {
			return nil, a.P.Session(b.Addr).ProcessPreKeyBundle(ctx, a.P.R, bun)
		})
		for _, m := range s.Flight {
			if m.To == a {
				recv(a, m.From.Addr, m.Typ, m.Wire, "message of an untrusted identity")
				if m.Typ == message.PreKeyType {
					recv(a, m.From.Addr, message.WhisperType, m.Inner, "message of an untrusted identity")
				}
				break
			}
		}
		a.P.St.trust = nil
	case 8: // forged bundles
		a, b := s.pair()
		bun := *b.bundle(t.Rng.IntN(2) == 0)
		switch t.Rng.IntN(5) {
		case 0:
			bun.SignedPreKeySignature = flip(bun.SignedPreKeySignature, t.Rng.IntN(64), 1<<t.Rng.IntN(8))
		case 1:
			bun.SignedPreKeyPublic = must(curve.GenerateKeyPair(t.R)).PublicKey()
		case 2:
			bun.SignedPreKeySignature = bun.SignedPreKeySignature[:t.Rng.IntN(64)]
		case 3: // a changed identity is not trusted
			o := must(identity.GenerateKeyPair(t.R))
			bun.IdentityKey = o.IdentityKey()
			bun.SignedPreKeySignature = must(o.PrivateKey().Sign(t.R, bun.SignedPreKeyPublic.Bytes()))
			if idOf(a.P.KP) == idOf(b.P.KP) {
				return
			}
		case 4: // a one-time key nobody can agree with
			bun.PreKeyPublic = must(curve.NewPublicKey(append([]byte{5}, make([]byte, 32)...)))
			id := prekey.ID(77)
			bun.PreKeyID = &id
		}
		unchanged04(t, a.P, nil, "forged bundle", func() (any, error) {
			return nil, a.P.Session(b.Addr).ProcessPreKeyBundle(ctx, a.P.R, &bun)
		})
	case 9: // genuine message of a session in someone else's name
		if m == nil {
			return
		}
		for _, n := range s.Nodes {
			if n != m.To && n != m.From {
				recv(m.To, n.Addr, message.WhisperType, m.Inner, "misdirected")
				recv(m.From, m.To.Addr, message.WhisperType, m.Inner, "reflected")
			}
		}
	case 10: // a message type that cannot be decrypted here
		n := s.Nodes[0]
		pl, err := message.NewPlaintextFromBytes([]byte{0xc0, 1})
		if err == nil {
			unchanged04(t, n.P, nil, "plaintext message", func() (any, error) {
				return n.P.Session(s.Nodes[1].Addr).DecryptMessage(ctx, n.P.R, pl)
			})
		}
	case 11: // genuine handshake message whose inner part is from another session
		if m == nil || m.Typ != message.PreKeyType || m.Accepted > 0 {
			return
		}
		for _, o := range s.Flight {
			if o.To == m.To && o.HS != m.HS && o.Accepted == 0 {
				pm, _ := ref.ParsePreKey(m.Wire)
				pm.Message = o.Inner
				recv(m.To, m.From.Addr, message.PreKeyType, ref.EncodePreKey(pm), "handshake with a message of another session")
				return
			}
		}
	}
}

// faults04 enumerates faults in one-to-one calls.
func faults04(t *T, i int) {
	s := scene03(t, 3+t.Rng.IntN(60))
	p := profiles[t.Rng.IntN(4)]
	// a handshake
	a, b := s.pair()
	bun := b.bundle(i%2 == 0)
	bp := b.P.fork()
	enumerate04(t, a.P, call{kind: "ProcessPreKeyBundle",
		do: func(q *Party) (any, error) { return nil, q.Session(b.Addr).ProcessPreKeyBundle(ctx, q.R, bun) },
		after: func(q *Party, _ any) string {
			m, err := q.Session(b.Addr).EncryptMessage(ctx, []byte("first"))
			if err != nil {
				return err.Error()
			}
			return chat04(q, bp.fork(), m)
		}})
	// encryption, with and without pending handshake
	s.sendSome(a, b, 1, p, driver03(t))
	bp = b.P.fork()
	enumerate04(t, a.P, call{kind: "EncryptMessage",
		do: func(q *Party) (any, error) {
			m, err := q.Session(b.Addr).EncryptMessage(ctx, []byte("under faults"))
			if m == nil {
				return nil, err
			}
			return m, err
		},
		after: func(q *Party, res any) string { return chat04(q, bp.fork(), res.(message.Ciphertext)) }})
	// decryption of whatever kinds are deliverable
	kinds := map[string]bool{}
	for try := 0; try < 12; try++ {
		m := s.fresh(t)
		if m == nil {
			break
		}
		_, _, _, h := m.To.predict(m.To.Recs[m.From.Addr], m, m.Typ)
		kind := fmt.Sprintf("DecryptMessage (type %d, %v)", m.Typ, h)
		if kinds[kind] {
			s.run(profile{send: 1, deliver: 1, shake: 1, ops: 5, oneTime: 60}, driver03(t))
			continue
		}
		kinds[kind] = true
		peer := m.From.P.fork()
		enumerate04(t, m.To.P, call{kind: "DecryptMessage", want: m.Plain, idleRandom: !h.newChain,
			do: func(q *Party) (any, error) {
				pt, err := q.receive(m.From.Addr, m.Typ, m.Wire)
				if pt == nil {
					return nil, err
				}
				return pt, err
			},
			after: func(q *Party, _ any) string {
				pf := peer.fork()
				r, err := q.Session(m.From.Addr).EncryptMessage(ctx, []byte("reply"))
				if err != nil {
					return err.Error()
				}
				return chat04(q, pf, r)
			}})
		t.Count("decryption kinds enumerated: "+h.String(), 1)
		if t.wantSample() {
			t.Sample(map[string]any{"call": kind, "faults": tail(t.log, 12)})
		}
	}
}

// faultsGroup04 enumerates faults in group calls.
func faultsGroup04(t *T, i int) {
	a, b := newParty(t, "alice", 1), newParty(t, "bob", 1)
	dist := testDist
	grp := []groupKey{{a.Addr, dist}}
	newDist := func(q *Party) (any, error) {
		m, err := q.Group(a.Addr, dist).NewSenderKeyDistribution(ctx, q.R)
		if m == nil {
			return nil, err
		}
		return m, err
	}
	use := func(q *Party, skd *message.SenderKeyDistribution) string {
		r := newParty(t, "carol", 1)
		if err := r.Group(a.Addr, dist).ProcessSenderKeyDistribution(ctx, skd); err != nil {
			return err.Error()
		}
		for k := 0; k < 3; k++ {
			m, err := q.Group(a.Addr, dist).EncryptMessage(ctx, q.R, []byte("hi"))
			if err != nil {
				return err.Error()
			}
			if pt, err := r.Group(a.Addr, dist).DecryptMessage(ctx, m); err != nil || string(pt) != "hi" {
				return fmt.Sprintf("receiver: %v", err)
			}
		}
		return ""
	}
	enumerate04(t, a, call{kind: "NewSenderKeyDistribution (first)", grp: grp, do: newDist, after: func(q *Party, res any) string { return use(q, res.(*message.SenderKeyDistribution)) }})
	skd := must(a.Group(a.Addr, dist).NewSenderKeyDistribution(ctx, a.R))
	for k := t.Rng.IntN(4); k > 0; k-- {
		must(a.Group(a.Addr, dist).EncryptMessage(ctx, a.R, []byte("x")))
	}
	enumerate04(t, a, call{kind: "NewSenderKeyDistribution", grp: grp, do: newDist, after: func(q *Party, res any) string { return use(q, res.(*message.SenderKeyDistribution)) }})
	enumerate04(t, b, call{kind: "ProcessSenderKeyDistribution", grp: grp,
		do: func(q *Party) (any, error) { return nil, q.Group(a.Addr, dist).ProcessSenderKeyDistribution(ctx, skd) },
		after: func(q *Party, _ any) string {
			m := must(a.fork(grp...).Group(a.Addr, dist).EncryptMessage(ctx, a.R, []byte("yo")))
			if pt, err := q.Group(a.Addr, dist).DecryptMessage(ctx, m); err != nil || string(pt) != "yo" {
				return fmt.Sprint(err)
			}
			return ""
		}})
	if err := b.Group(a.Addr, dist).ProcessSenderKeyDistribution(ctx, skd); err != nil {
		t.Skip("%v", err)
	}
	// a second distribution over an existing record: a new chain of the same sender, or the same again
	a2 := newParty(t, "alice", 1)
	skd2 := must(a2.Group(a.Addr, dist).NewSenderKeyDistribution(ctx, a2.R))
	for n, d := range []*message.SenderKeyDistribution{skd2, skd} {
		from := []*Party{a2, a}[n]
		enumerate04(t, b, call{kind: "ProcessSenderKeyDistribution over an existing record", grp: grp,
			do: func(q *Party) (any, error) { return nil, q.Group(a.Addr, dist).ProcessSenderKeyDistribution(ctx, d) },
			after: func(q *Party, _ any) string {
				senders := []*Party{from, a}
				if from == a {
					senders = senders[:1]
				}
				for _, from := range senders {
					f := from.fork(grp...)
					for k := 0; k < 2; k++ {
						m := must(f.Group(a.Addr, dist).EncryptMessage(ctx, f.R, []byte("yo")))
						if pt, err := q.Group(a.Addr, dist).DecryptMessage(ctx, m); err != nil || string(pt) != "yo" {
							return fmt.Sprint(err)
						}
					}
				}
				return ""
			}})
	}
	var msgs []*message.SenderKey
	for k := 0; k < 8; k++ {
		msgs = append(msgs, must(a.Group(a.Addr, dist).EncryptMessage(ctx, a.R, []byte(fmt.Sprint("m", k)))))
	}
	enumerate04(t, a, call{kind: "group EncryptMessage", grp: grp,
		do: func(q *Party) (any, error) {
			m, err := q.Group(a.Addr, dist).EncryptMessage(ctx, q.R, []byte("faulty"))
			if m == nil {
				return nil, err
			}
			return m, err
		},
		after: func(q *Party, res any) string {
			r := b.fork(grp...)
			if pt, err := r.Group(a.Addr, dist).DecryptMessage(ctx, res.(*message.SenderKey)); err != nil || string(pt) != "faulty" {
				return fmt.Sprint(err)
			}
			m := must(q.Group(a.Addr, dist).EncryptMessage(ctx, q.R, []byte("next")))
			if pt, err := r.Group(a.Addr, dist).DecryptMessage(ctx, m); err != nil || string(pt) != "next" {
				return fmt.Sprint(err)
			}
			return ""
		}})
	for _, k := range t.Rng.Perm(8) {
		m := msgs[k]
		enumerate04(t, b, call{kind: "group DecryptMessage", grp: grp, want: []byte(fmt.Sprint("m", k)),
			do: func(q *Party) (any, error) {
				pt, err := q.Group(a.Addr, dist).DecryptMessage(ctx, m)
				if pt == nil {
					return nil, err
				}
				return pt, err
			},
			after: func(q *Party, _ any) string {
				for _, j := range t.Rng.Perm(8) {
					if j == k {
						continue
					}
					w := b.fork(grp...)
					_, e1 := w.Group(a.Addr, dist).DecryptMessage(ctx, msgs[j])
					_, e2 := q.Group(a.Addr, dist).DecryptMessage(ctx, msgs[j])
					if e1 == nil && e2 != nil {
						return fmt.Sprintf("message %d: %v", j, e2)
					}
				}
				return ""
			}})
		if _, err := b.Group(a.Addr, dist).DecryptMessage(ctx, m); err != nil {
			t.Skip("%v", err)
		}
	}
}

// refusedGroup04 presents refused group inputs.
func refusedGroup04(t *T, i int) {
	a, b, x := newParty(t, "alice", 1), newParty(t, "bob", 1), newParty(t, "mallory", 1)
	dist := testDist
	other := distribution.MustParse("00000000-0000-0000-0000-00000000000" + fmt.Sprint(i%10))
	grp := []groupKey{{a.Addr, dist}, {x.Addr, dist}, {a.Addr, other}}
	skd := must(a.Group(a.Addr, dist).NewSenderKeyDistribution(ctx, a.R))
	skx := must(x.Group(x.Addr, dist).NewSenderKeyDistribution(ctx, x.R))
	ok02(t, b.Group(a.Addr, dist).ProcessSenderKeyDistribution(ctx, skd))
	ok02(t, b.Group(x.Addr, dist).ProcessSenderKeyDistribution(ctx, skx))
	var msgs []*message.SenderKey
	var done []*message.SenderKey
	refuse := func(kind string, sender address.Address, w []byte) {
		m, err := message.NewSenderKeyFromBytes(clone(w))
		if err != nil {
			return
		}
		t.Seen("group", kind, len(done), len(msgs))
		unchanged04(t, b, grp, kind, func() (any, error) { return b.Group(sender, dist).DecryptMessage(ctx, m) })
	}
	sk := ref.KP{Priv: x.KP.PrivateKey().Bytes(), Pub: x.KP.PublicKey().Bytes()}
	for k := 0; k < 25; k++ {
		for j := t.Rng.IntN(3); j >= 0; j-- {
			msgs = append(msgs, must(a.Group(a.Addr, dist).EncryptMessage(ctx, a.R, []byte("m"))))
		}
		m := msgs[t.Rng.IntN(len(msgs))]
		w := m.Bytes()
		gm, err := ref.ParseSenderKey(w)
		ok02(t, err)
		switch t.Rng.IntN(7) {
		case 0:
			refuse("altered group message", a.Addr, flip(w, 1+t.Rng.IntN(len(w)-1), byte(1+t.Rng.IntN(255))))
		case 1:
			refuse("group message of another sender", x.Addr, w)
		case 2: // signed by the wrong key, far ahead
			it := gm.Iteration + t.Rng.Uint32N(30000)
			body := ref.EncodeSenderKeyBody(gm.Dist, gm.ChainID, it, gm.Ciphertext)
			z := make([]byte, 64)
			t.R.Read(z)
			refuse("group message signed by someone else", a.Addr, append(body, ref.XSign(sk.Priv, body, z)...))
		case 3:
			if len(done) > 0 {
				refuse("duplicate group message", a.Addr, done[t.Rng.IntN(len(done))].Bytes())
			}
		case 4:
			refuse("group message of an unknown sender", address.Address{Name: "nobody", DeviceID: 1}, w)
		case 5:
			unchanged04(t, b, grp, "encryption with another's sender key", func() (any, error) {
				m, err := b.Group(a.Addr, dist).EncryptMessage(ctx, b.R, []byte("x"))
				if m == nil {
					return nil, err
				}
				return m, err
			})
			unchanged04(t, b, grp, "encryption in an unknown group", func() (any, error) {
				m, err := b.Group(b.Addr, other).EncryptMessage(ctx, b.R, []byte("x"))
				if m == nil {
					return nil, err
				}
				return m, err
			})
		case 6: // correctly signed but not decryptable: made by the sender's device with bad padding or empty ciphertext
			st := must(loadGroup(a, a.Addr, dist).State())
			priv := must(st.PrivateSigningKey())
			ahead := uint32(t.Rng.IntN(50))
			ck := clone(st.SenderChainKey().Seed())
			for k := uint32(0); k < ahead; k++ {
				ck = ref.NextChain(ck)
			}
			iv, key := ref.SenderMsgKeys(ck)
			for _, ct := range [][]byte{nil, make([]byte, 15), ref.CBCRaw(key, iv, make([]byte, 32)), ref.CBCRaw(key, iv, append(make([]byte, 14), 3, 2))} {
				fm, err := message.NewSenderKey(a.R, message.SenderKeyConfig{Version: 3, DistID: dist, ChainID: st.ChainID(), Iteration: st.SenderChainKey().Iteration() + ahead, Ciphertext: ct, SignatureKey: priv})
				if err == nil {
					refuse("undecryptable group message", a.Addr, fm.Bytes())
				}
			}
			fm, err := message.NewSenderKey(a.R, message.SenderKeyConfig{Version: 3, DistID: dist, ChainID: st.ChainID(), Iteration: st.SenderChainKey().Iteration() + 25001 + uint32(t.Rng.IntN(50)), Ciphertext: gm.Ciphertext, SignatureKey: priv})
			if err == nil {
				refuse("group message too far ahead", a.Addr, fm.Bytes())
			}
		}
		j := t.Rng.IntN(len(msgs))
		if _, err := b.Group(a.Addr, dist).DecryptMessage(ctx, msgs[j]); err != nil {
			t.Violate("group message refused after refused calls: %v", err)
		}
		done = append(done, msgs[j])
		msgs = append(msgs[:j], msgs[j+1:]...)
		if len(msgs) == 0 {
			msgs = append(msgs, must(a.Group(a.Addr, dist).EncryptMessage(ctx, a.R, []byte("m"))))
		}
	}
}

func loadGroup(p *Party, sender address.Address, d distribution.ID) *session.GroupRecord {
	r, ok, err := p.St.in.GroupStore().Load(ctx, sender, d)
	if err != nil || !ok {
		panic("no group record")
	}
	return r
}

// flaky04 runs whole histories over stores that fail now and then; every failed call is repeated.
func flaky04(t *T, i int) {
	control := false
	var run func(t *T, rate int) string
	run = func(t *T, rate int) (complaint string) {
		s := randomTopology(t)
		s.persistSome()
		faulty := 0
		for _, n := range s.Nodes {
			n.P.St.hook = func(op string) error {
				if rate > 0 && op != "prekey.Delete" && t.Rng.IntN(rate) == 0 {
					faulty++
					return errInjected
				}
				return nil
			}
		}
		retry := func(f func() error) error {
			for k := 0; ; k++ {
				before := faulty
				err := f()
				if err == nil || k > 200 || faulty == before {
					if err == nil && faulty != before {
						return fmt.Errorf("a store operation failed during the call but it reports success")
					}
					return err
				}
				if !errors.Is(err, errInjected) {
					t.Count("faults reported by another error", 1)
				}
				t.Count("calls repeated after a fault", 1)
			}
		}
		p := profiles[t.Rng.IntN(4)]
		ops := 150
		for k := 0; k < ops; k++ {
			switch pick(t, 40, 45, 5, 5) {
			case 0:
				a, b := s.pair()
				if r := a.Recs[b.Addr]; r == nil || r.cur == nil {
					if err := retry(func() error { return s.handshake(a, b, t.Rng.IntN(2) == 0) }); err != nil {
						return fmt.Sprintf("handshake: %v", err)
					}
				}
				pt := plaintextOf(t.Rng, t.R)
				if err := retry(func() error { _, err := s.send(a, b, pt); return err }); err != nil {
					return fmt.Sprintf("send: %v", err)
				}
			case 1:
				if len(s.Flight) == 0 {
					continue
				}
				j := t.Rng.IntN(len(s.Flight))
				m := s.Flight[j]
				var r Result
				err := retry(func() error {
					r = s.deliver(m, false)
					return r.Err
				})
				t.Eval()
				if r.Pred == pAccept && (err != nil || !bytes.Equal(r.Plain, m.Plain)) {
					return fmt.Sprintf("%v refused: %v", m, err)
				}
				if r.Pred != pAccept && err == nil {
					return fmt.Sprintf("%v accepted, model says %v", m, r.Pred)
				}
				if m.Accepted > 0 && t.Rng.IntN(3) > 0 {
					s.drop(j)
				}
			case 2:
				if len(s.Flight) > 0 {
					s.drop(t.Rng.IntN(len(s.Flight)))
				}
			case 3:
				a, b := s.pair()
				if err := retry(func() error { return s.handshake(a, b, t.Rng.IntN(100) < p.oneTime) }); err != nil {
					return fmt.Sprintf("handshake: %v", err)
				}
			}
		}
		s.BadWire = nil
		t.Seen("flaky", faulty, s.nmsg)
		return ""
	}
	bad := ""
	s := t.log
	c := run(t, 6)
	if c != "" {
		for k := 0; k < 3; k++ { // does the same workload misbehave without faults?
			if d := run(t, 0); d != "" {
				control = true
			}
		}
		if control {
			t.Skip("misbehaves without faults too: %s", c)
		}
		bad = c
		t.Violate("in a history with failing store operations: %s", bad)
	}
	_ = s
}
