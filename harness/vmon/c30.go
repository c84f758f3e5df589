package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"strings"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/crypto/aes"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/direction"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/fingerprint"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/perrors"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/harness/ref"

	"errors"
)

func init() {
	register(&Check{
		ID:   "C30",
		Rule: "Random one-to-one and group histories whose parties keep two session objects per peer for the whole history. Every call is recorded with the contents of the stores, its arguments and its random bytes, and made again: at once and much later with new objects, with the kept objects after their stores were set back, on stores which keep serialized records, and together with the whole history in a process of its own. Distinct by (call, what it gave, how it was made again, shape of the stored record).",
		Run:  runC30,
		Assume: []string{
			"the identity of a new sender key, which the library draws from the system's source and not from the caller's, is left out",
		},
	})
	children["c30"] = child30
}

// swapReader is a source of randomness which can be exchanged under those who hold it.
type swapReader struct{ r io.Reader }

func (s *swapReader) Read(p []byte) (int, error) { return s.r.Read(p) }

// call30 is a call with all that it depends on, and what it gave.
type call30 struct {
	n      int
	what   string
	p      *Party // who made it
	before *Party // a copy of the party before the call
	remote address.Address
	dist   distribution.ID
	msg    []byte
	bundle *prekey.Bundle
	seed   string
	refuse bool // the trust decision at the time

	out   []byte
	class string
	after []string
}

func (c *call30) String() string {
	return fmt.Sprintf("call %d: %v: %s with %v", c.n, c.p.Addr, c.what, c.remote)
}

func (c *call30) groups() []groupKey {
	if c.dist == (distribution.ID{}) {
		return nil
	}
	return []groupKey{{c.remote, c.dist}}
}

func class30(err error) string {
	switch {
	case err == nil:
		return "done"
	case errors.Is(err, perrors.ErrDuplicateMessage):
		return "duplicate"
	case perrors.IsErrUntrustedIdentity(err):
		return "untrusted"
	case strings.Contains(err.Error(), "not found"):
		return "missing"
	}
	return "refused"
}

// again makes the call by way of q.
func (c *call30) again(q *Party) (out []byte, class string) {
	r := newReader(c.seed)
	var err error
	one := func() *session.Session { return q.Session(c.remote) }
	switch c.what {
	case "handshake":
		err = one().ProcessPreKeyBundle(ctx, r, c.bundle)
	case "encrypt":
		var m message.Ciphertext
		if m, err = one().EncryptMessage(ctx, clone(c.msg)); err == nil {
			out = m.Bytes()
		}
	case "decrypt":
		var m message.Ciphertext
		m, err = message.NewPreKeyFromBytes(clone(c.msg))
		if err != nil {
			m, err = message.NewSignalFromBytes(clone(c.msg))
		}
		if err == nil {
			out, err = one().DecryptMessage(ctx, r, m)
		}
	case "distribute":
		var m *message.SenderKeyDistribution
		if m, err = q.Group(c.remote, c.dist).NewSenderKeyDistribution(ctx, r); err == nil {
			out = m.Bytes()
		}
	case "process":
		var m *message.SenderKeyDistribution
		if m, err = message.NewSenderKeyDistributionFromBytes(clone(c.msg)); err == nil {
			err = q.Group(c.remote, distribution.ID{}).ProcessSenderKeyDistribution(ctx, m)
		}
	case "group encrypt":
		var m *message.SenderKey
		if m, err = q.Group(c.remote, c.dist).EncryptMessage(ctx, r, clone(c.msg)); err == nil {
			out = m.Bytes()
		}
	case "group decrypt":
		var m *message.SenderKey
		if m, err = message.NewSenderKeyFromBytes(clone(c.msg)); err == nil {
			out, err = q.Group(c.remote, distribution.ID{}).DecryptMessage(ctx, m)
		}
	default:
		panic("unknown call " + c.what)
	}
	return out, class30(err)
}

type mon30 struct {
	t       *T
	rng     *rand.Rand // for the monitor's own decisions: the history must not depend on them
	n       int
	call    *call30
	later   []*call30
	script  []string // what every call gave
	shadows bool
	refuse  map[string]bool
}

func newMon30(t *T, shadows bool) *mon30 {
	return &mon30{t: t, rng: rand.New(rand.NewChaCha8(seedOf("mon30", t.Name))), shadows: shadows, refuse: map[string]bool{}}
}

func (m *mon30) watch(p *Party) {
	sw := &swapReader{p.R}
	p.R = sw
	p.objects = &objects{one: map[address.Address][]*session.Session{}, groups: map[groupKey][]*session.GroupSession{}}
	p.St.trust = func(a address.Address, k identity.Key, d direction.Direction) (bool, error) {
		return !m.refuse[fmt.Sprint(p.Addr, a)], nil
	}
	p.onCall = func(what string, remote address.Address, d distribution.ID, msg []byte) context.Context {
		m.n++
		c := &call30{n: m.n, what: what, p: p, remote: remote, dist: d, msg: clone(msg), bundle: p.bundle, seed: fmt.Sprint(m.t.Name, " ", m.n), refuse: m.refuse[fmt.Sprint(p.Addr, remote)]}
		if m.shadows {
			c.before = p.fork(c.groups()...)
			m.fix(c, c.before)
		}
		sw.r = newReader(c.seed)
		m.call = c
		return ctx
	}
	p.onDone = func(out []byte, err error) {
		c := m.call
		if c == nil || c.p != p {
			return
		}
		m.call = nil
		c.out, c.class, c.after = clone(out), class30(err), p.snapshot(c.groups())
		h := sha256.Sum256([]byte(strings.Join(c.after, "\n")))
		if c.what == "distribute" && c.before != nil && len(c.before.snapshot(c.groups())) < len(c.after) {
			return // a new sender key
		}
		m.script = append(m.script, fmt.Sprintf("%v: %s %x, stored %x", c, c.class, c.out, h[:8]))
		if !m.shadows {
			return
		}
		if m.rng.IntN(2) == 0 {
			m.compare(c, 0)
		}
		m.later = append(m.later, c)
		if len(m.later) > 12 {
			m.one()
		}
	}
}

// fix makes q decide on trust as it was decided when c was made.
func (m *mon30) fix(c *call30, q *Party) {
	q.St.trust = func(address.Address, identity.Key, direction.Direction) (bool, error) { return !c.refuse, nil }
}

func (m *mon30) one() {
	i := m.rng.IntN(len(m.later))
	c := m.later[i]
	m.later = append(m.later[:i:i], m.later[i+1:]...)
	if m.rng.IntN(3) == 0 {
		m.changed(c)
		return
	}
	m.compare(c, 1+m.rng.IntN(3))
}

// kept makes the call with the party's own objects on the stores of q.
func (c *call30) kept(q *Party) (out []byte, class string) {
	p := c.p
	in, persist, trust, known := p.St.in, p.St.persist, p.St.trust, p.Known
	p.St.in, p.St.persist, p.St.trust = q.St.in, q.St.persist, q.St.trust
	out, class = c.again(p)
	p.St.in, p.St.persist, p.St.trust, p.Known = in, persist, trust, known
	return out, class
}

// changed makes the call on stores whose contents changed meanwhile, with new objects and with those the party keeps.
func (m *mon30) changed(c *call30) {
	t := m.t
	b := *c.before
	refuse := c.refuse
	var what []string
	change := func(s string, one int) bool {
		if m.rng.IntN(one) != 0 {
			return false
		}
		what = append(what, s)
		return true
	}
	r := newReader("changed", c.seed)
	if change("registration id", 2) {
		b.Reg ^= 1 << m.rng.IntN(30)
	}
	if change("identity", 4) {
		b.KP = must(identity.GenerateKeyPair(r))
	}
	if change("trust", 4) {
		refuse = !refuse
	}
	pm, err := ref.ParsePreKey(c.msg)
	shake := c.what == "decrypt" && err == nil && pm.HasSigned
	signed := shake && change("signed pre-key", 3)
	once := shake && pm.PreKeyID != nil && change("one-time pre-key", 3)
	lost := m.rng.IntN(2) == 0
	noSession := c.groups() == nil && change("session lost", 6)
	noGroup := c.groups() != nil && change("sender key replaced", 4)
	kp := must(curve.GenerateKeyPair(r))
	sig := must(b.KP.PrivateKey().Sign(r, kp.PublicKey().Bytes()))
	mk := func() *Party {
		q := b.fork(c.groups()...)
		q.St.trust = func(address.Address, identity.Key, direction.Direction) (bool, error) { return !refuse, nil }
		q.know(c.remote)
		if signed {
			ok(t, q.St.in.SignedPreKeyStore().Store(ctx, prekey.ID(pm.SignedID), prekey.NewSigned(prekey.ID(pm.SignedID), 1, kp, sig)))
		}
		if id := pm; once {
			if lost {
				ok(t, q.St.in.PreKeyStore().Delete(ctx, prekey.ID(*id.PreKeyID)))
			} else {
				ok(t, q.St.in.PreKeyStore().Store(ctx, prekey.ID(*id.PreKeyID), prekey.NewPreKey(prekey.ID(*id.PreKeyID), kp)))
			}
		}
		if noSession {
			if q.St.persist != nil {
				delete(q.St.persist, c.remote)
			} else {
				ok(t, q.St.in.SessionStore().Store(ctx, c.remote, session.NewRecord(nil)))
			}
		}
		if g, there, err := q.St.in.GroupStore().Load(ctx, c.remote, c.dist); noGroup && there && err == nil {
			if st, err := g.State(); err == nil { // the same name for another key
				x := session.NewGroupRecord()
				y := session.GroupStateConfig{MessageVersion: message.SenderKeyVersion, ChainID: st.ChainID(), Iteration: 0, ChainKey: bytes.Repeat([]byte{7}, 32), SignatureKey: kp.PublicKey()}
				if c.p.Addr == c.remote {
					y.SignaturePrivateKey = kp.PrivateKey()
				}
				ok(t, x.AddState(session.NewGroupState(y)))
				ok(t, q.St.in.GroupStore().Store(ctx, c.remote, c.dist, x))
			}
		}
		return q
	}
	q1, q2 := mk(), mk()
	t.Eval()
	out1, class1 := c.again(q1)
	out2, class2 := c.kept(q2)
	t.Count("calls made on changed stores", 1)
	t.Count("calls made on changed stores: "+class1, 1)
	t.Seen("changed", what, c.what, class1)
	switch {
	case class1 != class2:
		t.Violate("%v: after a change of the stores (%v): %s with a new object, %s with one in use", c, what, class1, class2)
	case !bytes.Equal(out1, out2):
		t.Violate("%v: after a change of the stores (%v): gives %x with a new object, %x with one in use", c, what, out1, out2)
	}
	if d := diffSnap(q1.snapshot(c.groups()), q2.snapshot(c.groups())); d != "" {
		t.Violate("%v: after a change of the stores (%v) a new object and one in use leave other contents:\n%s", c, what, d)
	}
}

func (m *mon30) rest() {
	for len(m.later) > 0 {
		m.one()
	}
}

// compare makes the call again and compares.
func (m *mon30) compare(c *call30, how int) {
	t := m.t
	t.Eval()
	var name string
	var out []byte
	var class string
	var after []string
	q := c.before.fork(c.groups()...)
	m.fix(c, q)
	q.know(c.remote)
	switch how {
	case 0, 1:
		name = []string{"at once with new objects", "later with new objects"}[how]
		out, class = c.again(q)
		after = q.snapshot(c.groups())
	case 2: // the party's own objects, on stores as they were
		name = "later with the same objects"
		out, class = c.kept(q)
		after = q.snapshot(c.groups())
	case 3:
		if q.St.persist == nil {
			name = "on serialized records"
			q.St.persist = map[address.Address]savedRecord{}
			for _, a := range q.Known {
				if r, ok, err := q.St.in.SessionStore().Load(ctx, a); ok && err == nil {
					q.St.persist[a] = save(r)
				}
			}
		} else {
			name = "on records in memory"
			for a, sr := range q.St.persist {
				ok(t, q.St.in.SessionStore().Store(ctx, a, sr.record()))
			}
			q.St.persist = nil
		}
		out, class = c.again(q)
		after = q.snapshot(c.groups())
	}
	t.Count("calls made again "+name, 1)
	t.Seen(c.what, c.class, how, len(c.after), len(c.out)/64)
	switch {
	case class != c.class:
		t.Violate("%v: %s, but %s made again %s", c, c.class, class, name)
	case !bytes.Equal(out, c.out):
		t.Violate("%v gave %x, but made again %s it gives %x", c, c.out, name, out)
	}
	if d := diffSnap(c.after, after); d != "" {
		t.Violate("%v made again %s leaves other contents in the stores:\n%s", c, name, d)
	}
}

func (m *mon30) history(i int) {
	t := m.t
	s := randomTopology(t)
	s.persistSome()
	for _, n := range s.Nodes {
		m.watch(n.P)
	}
	p := profileFor(t, i)
	p.ops = 90
	if p.burst > 0 {
		p.burst, p.burstMax = 1, 40
	}
	s.run(p, driver{
		onSendErr: func(a, b *Node, err error) {}, onShakeErr: func(a, b *Node, err error) {}, onDeliver: func(x *Msg, r Result, replay bool) {},
		after: func() {
			if t.Rng.IntN(25) == 0 {
				a, b := s.pair()
				k := fmt.Sprint(a.Addr, b.Addr)
				m.refuse[k] = !m.refuse[k]
			}
			if len(s.Flight) > 0 && t.Rng.IntN(10) == 0 { // altered, or as from another
				x := s.Flight[t.Rng.IntN(len(s.Flight))]
				_, b := s.pair()
				if t.Rng.IntN(2) == 0 {
					x.To.P.receive(x.From.Addr, x.Typ, flip(x.Wire, t.Rng.IntN(len(x.Wire)), 1<<t.Rng.IntN(8)))
				} else {
					x.To.P.receive(b.Addr, x.Typ, x.Wire)
				}
			}
		},
	})
	m.rest()
}

func (m *mon30) group(i int) {
	t := m.t
	g := newGSim(t, 2+t.Rng.IntN(2), 1+t.Rng.IntN(2))
	for _, n := range g.Nodes {
		// the first sender key of each sender comes from the case's own source
		for _, d := range g.Dists {
			seedSender30(t, n.P, d)
		}
		m.watch(n.P)
	}
	gp := gprofiles[i%len(gprofiles)]
	gp.ops = 90
	gp.burst = min(gp.burst, 5)
	g.run(gp, gdriver{
		onDeliver: func(n *Node, x *GMsg, r GResult) {}, onProcess: func(n *Node, s *SKD, err error) {},
		after: func() {
			if len(g.Msgs) > 0 && t.Rng.IntN(10) == 0 {
				x := g.Msgs[t.Rng.IntN(len(g.Msgs))]
				g.open(g.other(x.K.from), x.K.from.Addr, flip(x.Wire, t.Rng.IntN(len(x.Wire)), 1<<t.Rng.IntN(8)))
			}
		},
	})
	m.rest()
}

func seedSender30(t *T, p *Party, d distribution.ID) {
	s := ref.GenKP(t.R)
	key, priv := must(curve.NewPublicKey(s.Pub)), must(curve.NewPrivateKey(s.Priv))
	r := session.NewGroupRecord()
	ok(t, r.AddState(session.NewGroupState(session.GroupStateConfig{MessageVersion: message.SenderKeyVersion, ChainID: t.Rng.Uint32() >> 1, Iteration: 0, ChainKey: randBytes(t, 32), SignatureKey: key, SignaturePrivateKey: priv})))
	ok(t, p.St.in.GroupStore().Store(ctx, p.Addr, d, r))
}

// script30 is the transcript of a case.
func script30(t *T, shadows bool) []string {
	m := newMon30(t, shadows)
	var what string
	var i int
	fmt.Sscanf(strings.Replace(t.Name, "#", " ", 1), "%s %d", &what, &i)
	if what == "groups" {
		m.group(i)
	} else {
		m.history(i)
	}
	return m.script
}

func runC30(c *C) {
	f := func(t *T, i int) {
		script := script30(t, true)
		t.Count("calls made", int64(len(script)))
		if i%8 != 0 {
			return
		}
		t.Eval()
		out := t.alone30()
		t.Count("histories repeated in a process of their own", 1)
		if d := diffLines(script, strings.Split(strings.TrimSuffix(out, "\n"), "\n")); d != "" {
			t.Violate("the history goes differently in a process of its own: %s", d)
		}
		if t.wantSample() {
			t.Sample(map[string]any{"case": t.Name, "calls": tail(script, 6)})
		}
	}
	c.Cases("history", c.N(260, 5000), f)
	c.Cases("groups", c.N(140, 2500), f)
	c.Cases("functions", c.N(24, 400), functions30)
	c.Cases("long", c.N(3, 24), long30)
	c.Require("calls made", 5000)
	c.Require("calls made on objects in use for long", 6000)
	c.Require("calls made again later with new objects", 1000)
	c.Require("calls made again later with the same objects", 1000)
	c.Require("calls made again on serialized records", 500)
	c.Require("functions called again", 2000)
	c.Require("calls made on changed stores", 1000)
	c.Require("histories repeated in a process of their own", 10)
}

// alone30 runs the case in a process of its own.
func (t *T) alone30() string {
	out, err := spawn30(t.C, t.Name)
	if err != nil {
		if what, ok := crashVerdict(1, out); ok && crashStart.MatchString(out) {
			t.Violate("%s", what)
		}
		t.Skip("child process: %v\n%s", err, clipN(out, 2000))
	}
	return out
}

func child30(tier string, seed uint64) {
	os.Stderr, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	name := os.Getenv("VMON_C30")
	c := newC(checks["C30"], tier, seed)
	c.runJob(job{name, func(t *T) {
		if strings.HasPrefix(name, "functions") {
			fs := funs30(t)
			for k := range fs {
				fmt.Println(fs[len(fs)-1-k].f())
			}
			return
		}
		for _, l := range script30(t, false) {
			fmt.Println(l)
		}
	}})
	if len(c.viol)+len(c.inconcl) > 0 {
		fmt.Println(c.viol, c.inconcl)
		os.Exit(1)
	}
	os.Exit(0)
}

func spawn30(c *C, name string) (string, error) {
	exe, err := os.Executable()
	if err != nil {
		return "", err
	}
	cmd := exec.Command(exe, "-prop", "C30", "-child", "c30")
	cmd.Dir = "/"
	cmd.Env = append(os.Environ(), "VMON_C30="+name, "TZ=Asia/Tokyo", "GOMAXPROCS=1", "LC_ALL=C")
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err = cmd.Run()
	return b.String(), err
}

// functions30: functions of their arguments only, with arguments which have much in common, called in any order.
func functions30(t *T, i int) {
	fs := funs30(t)
	first := make([]string, len(fs))
	for k, f := range fs {
		first[k] = f.f()
	}
	for round := 0; round < 3; round++ {
		for _, k := range t.Rng.Perm(len(fs)) {
			t.Eval()
			t.Count("functions called again", 1)
			if got := fs[k].f(); got != first[k] {
				t.Violate("%s with the same arguments gives %s and then %s", fs[k].name, clip(first[k]), clip(got))
			}
		}
	}
	for k, f := range fs {
		t.Seen(f.name, first[k])
	}
	// in another process, in the opposite order
	t.Eval()
	out := t.alone30()
	for k, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		k = len(fs) - 1 - k
		if k < 0 || l != first[k] {
			t.Violate("%s with the same arguments gives %s, and in another process, after other calls, %s", fs[max(k, 0)].name, clip(first[max(k, 0)]), clip(l))
		}
		t.Count("functions called in another process", 1)
	}
}

type fun30 struct {
	name string
	f    func() string
}

func funs30(t *T) (fs []fun30) {
	type fun = fun30
	add := func(name string, f func() string) { fs = append(fs, fun{name, f}) }
	show := func(b []byte, err error) string { return fmt.Sprintf("%x %s", b, class30(err)) }
	// keys and texts which agree in parts
	var privs []curve.PrivateKey
	var pubs []curve.PublicKey
	for k := 0; k < 4; k++ {
		b := randBytes(t, 32)
		priv := must(curve.NewPrivateKey(b))
		privs = append(privs, priv)
		pubs = append(pubs, must(curve.NewPublicKey(priv.PublicKey().Bytes())))
	}
	base := randBytes(t, 200)
	var texts [][]byte
	for _, n := range []int{0, 1, 16, 32, 33, 64, 199, 200} {
		texts = append(texts, base[:n])
	}
	texts = append(texts, flip(base, 199, 1), flip(base, 0, 1), flip(base[:32], 31, 128))
	text := func() []byte { return texts[t.Rng.IntN(len(texts))] }
	// bundles whose parts come from several owners
	var sigs [][]byte
	for k := 0; k < 4; k++ {
		sigs = append(sigs, must(privs[k].Sign(t.R, pubs[(k+1)%4].Bytes())))
	}
	for k := 0; k < 24; k++ {
		owner := t.Rng.IntN(4)
		sig, signed, id := sigs[owner], pubs[(owner+1)%4], pubs[owner]
		switch t.Rng.IntN(6) {
		case 0:
			sig = sigs[t.Rng.IntN(4)]
		case 1:
			signed = pubs[t.Rng.IntN(4)]
		case 2:
			id = pubs[t.Rng.IntN(4)]
		}
		seed := fmt.Sprint("bundle ", k%2)
		add("bundle", func() string {
			kp := identity.NewKeyPair(privs[0], must(identity.NewKey(pubs[0].Bytes())))
			q := &Party{KP: kp, St: newStores(kp, 7)}
			err := q.Session(address.Address{Name: "bob", DeviceID: 1}).ProcessPreKeyBundle(ctx, newReader(seed), &prekey.Bundle{RegistrationID: 9, DeviceID: 1, SignedPreKeyID: 5, SignedPreKeyPublic: signed, SignedPreKeySignature: clone(sig), IdentityKey: must(identity.NewKey(id.Bytes()))})
			return class30(err) + " " + strings.Join(q.snapshot(nil), "; ")
		})
	}
	for k := 0; k < 60; k++ {
		a, b := t.Rng.IntN(4), t.Rng.IntN(4)
		x, y := text(), text()
		seed := fmt.Sprint(t.Rng.IntN(3))
		switch k % 10 {
		case 0:
			add("agreement", func() string { return show(privs[a].Agreement(pubs[b])) })
		case 1:
			add("sign", func() string { return show(privs[a].Sign(newReader(seed), clone(x), clone(y))) })
		case 2:
			sig := must(privs[a].Sign(t.R, clone(x)))
			if t.Rng.IntN(3) == 0 {
				sig = flip(sig, t.Rng.IntN(64), 1<<t.Rng.IntN(8))
			}
			c := a
			if t.Rng.IntN(3) == 0 {
				c = b
			}
			if t.Rng.IntN(3) > 0 {
				y = x
			}
			add("verify", func() string { v, err := pubs[c].VerifySignature(sig, clone(y)); return fmt.Sprint(v, class30(err)) })
		case 3:
			ida, idb := must(identity.NewKey(pubs[a].Bytes())), must(identity.NewKey(pubs[b].Bytes()))
			v, it := uint32(1+t.Rng.IntN(2)), uint32(2+t.Rng.IntN(3))
			add("fingerprint", func() string {
				f, err := fingerprint.New(v, it, clone(x), ida, clone(y), idb)
				if err != nil {
					return class30(err)
				}
				return f.String() + " " + class30(err)
			})
		case 4:
			id := must(identity.NewKey(pubs[a].Bytes()))
			other := must(identity.NewKey(pubs[b].Bytes()))
			kp := identity.NewKeyPair(privs[a], id)
			sig := must(kp.SignAlternateIdentity(t.R, other))
			wrong := must(identity.NewKey(pubs[(b+t.Rng.IntN(2))%4].Bytes()))
			add("alternate identity", func() string { v, err := id.VerifyAlternateIdentity(sig, wrong); return fmt.Sprint(v, class30(err)) })
		case 5:
			key, iv := clone(base[t.Rng.IntN(3):][:32]), clone(base[32+t.Rng.IntN(3):][:16])
			add("cipher", func() string { return show(aes.CBCEncrypt(key, iv, clone(x))) })
			ct, err := aes.CBCEncrypt(key, iv, clone(x))
			ok(t, err)
			ct = append(ct[:0:0], ct...)
			if t.Rng.IntN(3) == 0 {
				ct = flip(ct, t.Rng.IntN(len(ct)), 1)
			}
			add("decipher", func() string { return show(aes.CBCDecrypt(key, iv, clone(ct))) })
		case 6, 7:
			mac := clone(base[t.Rng.IntN(3):][:32])
			ida, idb := must(identity.NewKey(pubs[a].Bytes())), must(identity.NewKey(pubs[b].Bytes()))
			n := t.Rng.Uint32N(3)
			cfg := message.SignalConfig{Version: 3, MACKey: mac, SenderRatchetKey: pubs[a], PreviousCounter: n, Counter: n + 1, Ciphertext: clone(x), SenderIdentityKey: ida, ReceiverIdentityKey: idb}
			add("message", func() string {
				m, err := message.NewSignal(cfg)
				if err != nil {
					return class30(err)
				}
				return show(m.Bytes(), nil)
			})
			m, err := message.NewSignal(cfg)
			if err != nil {
				continue
			}
			w := clone(m.Bytes())
			if t.Rng.IntN(3) == 0 {
				w = flip(w, t.Rng.IntN(len(w)), 1)
			}
			other := flip(mac, 31, byte(t.Rng.IntN(2)))
			add("parse", func() string {
				c, err := message.NewSignalFromBytes(clone(w))
				if err != nil {
					return class30(err)
				}
				m := c.(*message.Signal)
				v, err := m.VerifyMAC(clone(other), ida, idb)
				return fmt.Sprintf("%x %d %d %x %v %s", m.SenderRatchetKey().Bytes(), m.Counter(), m.Version(), m.Message(), v, class30(err))
			})
		case 8:
			n := t.Rng.Uint32N(3)
			d := distribution.MustParse(fmt.Sprintf("d1d1d1d1-7000-11eb-b32a-33b8a8a487a%d", t.Rng.IntN(3)))
			cfg := message.SenderKeyConfig{Version: 3, DistID: d, ChainID: n, Iteration: n, Ciphertext: clone(x), SignatureKey: privs[a]}
			add("group message", func() string {
				m, err := message.NewSenderKey(newReader(seed), cfg)
				if err != nil {
					return class30(err)
				}
				p, err := message.NewSenderKeyFromBytes(clone(m.Bytes()))
				if err != nil {
					return class30(err)
				}
				v, err := p.VerifySignature(pubs[b])
				return fmt.Sprintf("%x %v %s", m.Bytes(), v, class30(err))
			})
		case 9:
			add("generate", func() string {
				kp, err := curve.GenerateKeyPair(newReader(seed))
				if err != nil {
					return class30(err)
				}
				return fmt.Sprintf("%x %x", kp.PrivateKey().Bytes(), kp.PublicKey().Bytes())
			})
		}
	}
	return fs
}

// long30: one session object is used for thousands of calls, next to a new one for each.
func long30(t *T, i int) {
	a, b := newParty(t, "alice", 1), newParty(t, "bob", 2)
	d := newDist(t)
	ok02(t, a.Session(b.Addr).ProcessPreKeyBundle(ctx, a.R, b.Bundle(i%2 == 0)))
	b.know(a.Addr)
	skd, err := a.Group(a.Addr, d).NewSenderKeyDistribution(ctx, a.R)
	ok02(t, err)
	process := func(p *Party) error {
		m, err := message.NewSenderKeyDistributionFromBytes(clone(skd.Bytes()))
		if err != nil {
			return err
		}
		return p.Group(a.Addr, d).ProcessSenderKeyDistribution(ctx, m)
	}
	ok02(t, process(b))
	groups := []groupKey{{a.Addr, d}}
	var fresh, kept [2]*Party
	for k, p := range []*Party{a, b} {
		fresh[k], kept[k] = p.fork(groups...), p.fork(groups...)
		o, g := kept[k].newSession([]address.Address{b.Addr, a.Addr}[k]), kept[k].newGroup(a.Addr, d)
		kept[k].objects = &objects{
			one:    map[address.Address][]*session.Session{o.RemoteAddress: {o, o}},
			groups: map[groupKey][]*session.GroupSession{{a.Addr, d}: {g, g}, {a.Addr, distribution.ID{}}: {g, g}},
		}
	}
	addr := []address.Address{a.Addr, b.Addr}
	n := 0
	// both makes a call in the two ways.
	both := func(what string, k int, f func(p *Party, r io.Reader) ([]byte, error)) ([]byte, bool) {
		n++
		seed := fmt.Sprint(t.Name, " ", n)
		x, xerr := f(fresh[k], newReader(seed))
		y, yerr := f(kept[k], newReader(seed))
		t.Eval()
		if class30(xerr) != class30(yerr) || !bytes.Equal(x, y) {
			t.Violate("call %d, %s, gives %s, %v with a new object and %s, %v with one in use since the start", n, what, hexs(x), xerr, hexs(y), yerr)
		}
		t.Seen("long", what, class30(xerr), bucket(n))
		t.Count("calls made on objects in use for long", 1)
		return x, xerr == nil
	}
	type wire struct {
		to  int
		typ message.CiphertextType
		b   []byte
	}
	var held []wire
	var groupHeld [][]byte
	talks := 0 // who talks, and for how long
	for step := 0; step < 1700; step++ {
		if t.Rng.IntN([]int{2, 12, 200}[step/100%3]) == 0 {
			talks = t.Rng.IntN(2)
		}
		pt := plaintextOf(t.Rng, t.R)
		var typ message.CiphertextType
		w, sent := both("encrypt", talks, func(p *Party, r io.Reader) ([]byte, error) {
			m, err := p.Session(addr[1-talks]).EncryptMessage(ctx, clone(pt))
			if err != nil {
				return nil, err
			}
			typ = m.Type()
			return clone(m.Bytes()), nil
		})
		if sent {
			held = append(held, wire{1 - talks, typ, w})
		}
		if step%2 == 0 {
			w, sent := both("group encrypt", 0, func(p *Party, r io.Reader) ([]byte, error) {
				m, err := p.Group(a.Addr, d).EncryptMessage(ctx, r, clone(pt))
				if err != nil {
					return nil, err
				}
				return clone(m.Bytes()), nil
			})
			if sent {
				groupHeld = append(groupHeld, w)
			}
		}
		for len(held) > 0 && t.Rng.IntN(9) > 0 {
			j := max(0, len(held)-1-t.Rng.IntN(3))
			x := held[j]
			if t.Rng.IntN(20) > 0 { // else it comes once more
				held = append(held[:j:j], held[j+1:]...)
			}
			both("decrypt", x.to, func(p *Party, r io.Reader) ([]byte, error) {
				m, err := parseWire(x.typ, x.b)
				if err != nil {
					return nil, err
				}
				return p.Session(addr[1-x.to]).DecryptMessage(ctx, r, m)
			})
		}
		for len(groupHeld) > 0 && t.Rng.IntN(5) > 0 {
			j := max(0, len(groupHeld)-1-t.Rng.IntN(3))
			x := groupHeld[j]
			if t.Rng.IntN(20) > 0 {
				groupHeld = append(groupHeld[:j:j], groupHeld[j+1:]...)
			}
			both("group decrypt", 1, func(p *Party, r io.Reader) ([]byte, error) {
				m, err := message.NewSenderKeyFromBytes(clone(x))
				if err != nil {
					return nil, err
				}
				return p.Group(a.Addr, d).DecryptMessage(ctx, m)
			})
		}
		if step%50 == 49 {
			for k := range fresh {
				if s := diffLines(fresh[k].snapshot(groups), kept[k].snapshot(groups)); s != "" {
					t.Violate("after %d calls %v stores something else with new objects than with one in use since the start: %s", n, addr[k], s)
				}
			}
		}
	}
}
