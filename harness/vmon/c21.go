package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/fingerprint"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/perrors"
	"github.com/RTann/libsignal-go/protocol/prekey"
)

func init() {
	register(&Check{
		ID:     "C21",
		Rule:   "In worlds which share identity keys, a bundle object, received message objects, distribution objects and key objects, many parties with stores of their own (and colliding addresses, ids and distribution ids) run conversations, handshakes, group traffic, decryption of the shared objects and key operations: first concurrently from a common start in a race-instrumented build, with yields injected at store operations and random reads, then again one after another. Data races with a library frame, and any difference of results between concurrent, sequential and solitary (own process) execution are violations. Every child process starts with concurrent first use of the library. Distinct by (kind of party, outcomes of its transcript).",
		Run:    runC21,
		Assume: []string{"the race detector sees conflicting accesses of the executed schedules that no synchronization orders", "the in-memory stores themselves are not shared between goroutines"},
	})
	children["c21"] = child21
}

// world21 is what the parties of one round share.
type world21 struct {
	seed   string
	kp     identity.KeyPair // one user identity on many devices
	other  identity.KeyPair
	alice  identity.Key
	bundle *prekey.Bundle
	spk    *Party // holds the private part of the bundle
	msgs   []message.Ciphertext
	skds   []*message.SenderKeyDistribution
	gms    []*message.SenderKey
	gfrom  address.Address
	gdist  distribution.ID
	code   *fingerprint.Scannable
	codeB  []byte
	keys   []curve.PublicKey
	priv   []curve.PrivateKey
	sig    []byte
	pni    []byte
}

func task21(seed ...any) *T {
	return &T{Name: fmt.Sprint(seed...), obs: map[string]int64{}, Rng: rand.New(rand.NewChaCha8(seedOf(append([]any{"rng"}, seed...)...))), R: yielding{newReader(append([]any{"reader"}, seed...)...)}}
}

// yielding lets other goroutines run inside random reads.
type yielding struct{ r io.Reader }

func (y yielding) Read(p []byte) (int, error) {
	runtime.Gosched()
	return y.r.Read(p)
}

const workers21 = 16

func setupOf(err error) {
	if err != nil {
		panic(setup21{err})
	}
}

// setup21 is a failure to build the world: not for this property to judge.
type setup21 struct{ err error }

func (s setup21) String() string { return s.err.Error() }

func newWorld21(seed string) *world21 {
	t := task21("world", seed)
	w := &world21{seed: seed, kp: must(identity.GenerateKeyPair(t.R)), other: must(identity.GenerateKeyPair(t.R))}
	w.spk = newPartyKey(t, "bob", 1, w.kp)
	w.spk.AddPreKey(77)
	w.bundle = w.spk.Bundle(false)
	if t.Rng.IntN(2) == 0 {
		id := prekey.ID(77)
		w.bundle.PreKeyID, w.bundle.PreKeyPublic = &id, w.spk.PreKeys[77].PublicKey()
	}
	a := newParty(t, "alice", 1)
	w.alice = a.KP.IdentityKey()
	setupOf(a.Session(w.spk.Addr).ProcessPreKeyBundle(ctx, t.R, w.bundle))
	for i := 0; i < 8; i++ {
		m, err := a.Session(w.spk.Addr).EncryptMessage(ctx, []byte(fmt.Sprintf("shared message %d", i)))
		setupOf(err)
		m, err = parseWire(m.Type(), m.Bytes())
		setupOf(err)
		if i%2 == 1 {
			b := clone(m.(*message.PreKey).Message().Bytes())
			if i == 5 {
				b[len(b)-3] ^= 1
			}
			m, err = message.NewSignalFromBytes(b)
			setupOf(err)
		}
		w.msgs = append(w.msgs, m)
	}
	s := newParty(t, "carol", 3)
	w.gfrom = s.Addr
	w.gdist = distribution.MustParse("6ba7b810-9dad-11d1-80b4-00c04fd430c8")
	for i := 0; i < 9; i++ {
		if i%4 == 0 {
			d, err := s.Group(s.Addr, w.gdist).NewSenderKeyDistribution(ctx, t.R)
			setupOf(err)
			d, err = message.NewSenderKeyDistributionFromBytes(clone(d.Bytes()))
			setupOf(err)
			w.skds = append(w.skds, d)
		}
		m, err := s.Group(s.Addr, w.gdist).EncryptMessage(ctx, t.R, []byte(fmt.Sprintf("shared group message %d", i)))
		setupOf(err)
		b := m.Bytes()
		if i == 6 {
			b = flip(b, len(b)-3, 1)
		}
		m, err = message.NewSenderKeyFromBytes(clone(b))
		setupOf(err)
		w.gms = append(w.gms, m)
	}
	f, err := fingerprint.New(2, 3, []byte("bob"), w.kp.IdentityKey(), []byte("carol"), w.other.IdentityKey())
	setupOf(err)
	if v, ok := findField(reflect.ValueOf(f), reflect.TypeOf((*fingerprint.Scannable)(nil)), 0); ok {
		w.code = v.Interface().(*fingerprint.Scannable)
	}
	g, err := fingerprint.New(2, 3, []byte("carol"), w.other.IdentityKey(), []byte("bob"), w.kp.IdentityKey())
	setupOf(err)
	if v, ok := findField(reflect.ValueOf(g), reflect.TypeOf((*fingerprint.Scannable)(nil)), 0); ok {
		w.codeB, err = v.Interface().(*fingerprint.Scannable).Bytes()
		setupOf(err)
	}
	for i := 0; i < 3; i++ {
		k := must(curve.GeneratePrivateKey(t.R))
		w.priv = append(w.priv, k)
		w.keys = append(w.keys, must(curve.NewPublicKey(k.PublicKey().Bytes())))
	}
	w.sig, err = w.kp.PrivateKey().Sign(t.R, []byte("signed"))
	setupOf(err)
	w.pni, err = w.kp.SignAlternateIdentity(t.R, w.other.IdentityKey())
	setupOf(err)
	return w
}

// bob is one more device of the shared identity, with stores and pre-key records of its own.
func (w *world21) bob(t *T) *Party {
	p := newPartyKey(t, "bob", 1, w.kp)
	own := func(kp *curve.KeyPair) *curve.KeyPair {
		return must(curve.NewKeyPair(clone(kp.PrivateKey().Bytes()), clone(kp.PublicKey().Bytes())))
	}
	s := w.spk.Signed[w.spk.curSPK]
	if err := p.St.in.SignedPreKeyStore().Store(ctx, w.spk.curSPK, prekey.NewSigned(w.spk.curSPK, 42, own(s.kp), clone(s.sig))); err != nil {
		panic(err)
	}
	if err := p.St.in.PreKeyStore().Store(ctx, 77, prekey.NewPreKey(77, own(w.spk.PreKeys[77]))); err != nil {
		panic(err)
	}
	return p
}

// log21 is a transcript: outcomes have to be the same in every execution, bytes if the execution is deterministic.
type log21 struct {
	out   []string
	bytes []string
	kind  string
}

func (l *log21) say(f string, a ...any) { l.out = append(l.out, fmt.Sprintf(f, a...)) }
func (l *log21) raw(b []byte)           { l.bytes = append(l.bytes, fmt.Sprintf("%x", b)) }

func class21(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, perrors.ErrDuplicateMessage):
		return "duplicate"
	case perrors.IsErrUntrustedIdentity(err):
		return "untrusted"
	}
	return "error"
}

var tasks21 = []struct {
	name string
	f    func(t *T, w *world21, l *log21)
}{
	{"conversation", talk21}, {"shared bundle", bundle21}, {"shared messages", receive21}, {"shared messages", receive21},
	{"shared group messages", group21}, {"shared group messages", group21}, {"own group", ownGroup21}, {"keys", keys21},
	{"accessors", read21}, {"fingerprints", print21},
}

func run21(w *world21, k int) (l *log21) {
	x := tasks21[k%len(tasks21)]
	l = &log21{kind: x.name}
	t := task21("task", w.seed, k)
	defer func() {
		if p := recover(); p != nil {
			if e, ok := p.(error); ok {
				l.say("panic: %v", e)
			} else {
				l.say("panic: %v", fmt.Sprint(p))
			}
		}
	}()
	x.f(t, w, l)
	return l
}

func yield21(t *T, p *Party) *Party {
	r := rand.New(rand.NewPCG(t.Rng.Uint64(), 1))
	p.St.hook = func(string) error {
		for n := r.IntN(3); n > 0; n-- {
			runtime.Gosched()
		}
		return nil
	}
	return p
}

func talk21(t *T, w *world21, l *log21) {
	ps := []*Party{yield21(t, newParty(t, "alice", 1)), nil}
	if t.Rng.IntN(2) == 0 {
		ps[1] = yield21(t, w.bob(t))
		ps[1].RotateSigned()
	} else {
		ps[1] = yield21(t, newParty(t, "bob", 1))
	}
	type flying struct {
		to   int
		typ  message.CiphertextType
		wire []byte
	}
	var fly []flying
	has := [2]bool{}
	for i := 0; i < 40; i++ {
		a := t.Rng.IntN(2)
		from, to := ps[a], ps[1-a]
		switch {
		case !has[0] && !has[1] || i == 25:
			err := from.Session(to.Addr).ProcessPreKeyBundle(ctx, t.R, to.Bundle(t.Rng.IntN(2) == 0))
			l.say("%d handshake %s", i, class21(err))
			has[a] = has[a] || err == nil
		case has[a] && t.Rng.IntN(2) == 0:
			m, err := from.Session(to.Addr).EncryptMessage(ctx, []byte(fmt.Sprintf("%d from %d", i, a)))
			l.say("%d send %s", i, class21(err))
			if err != nil {
				continue
			}
			l.raw(m.Bytes())
			fly = append(fly, flying{1 - a, m.Type(), clone(m.Bytes())})
		case len(fly) > 0:
			m := fly[t.Rng.IntN(len(fly))]
			wire := clone(m.wire)
			if t.Rng.IntN(8) == 0 {
				wire[t.Rng.IntN(len(wire))] ^= 1 << t.Rng.IntN(8)
			}
			pt, err := ps[m.to].receive(ps[1-m.to].Addr, m.typ, wire)
			l.say("%d receive %x %s", i, pt, class21(err))
			has[m.to] = has[m.to] || err == nil
		}
	}
}

func bundle21(t *T, w *world21, l *log21) {
	a, b := yield21(t, newParty(t, "alice", 1)), yield21(t, w.bob(t))
	err := a.Session(b.Addr).ProcessPreKeyBundle(ctx, t.R, w.bundle)
	l.say("handshake %s", class21(err))
	for i := 0; i < 6; i++ {
		from, to := a, b
		if i%2 == 1 {
			from, to = b, a
		}
		m, err := from.Session(to.Addr).EncryptMessage(ctx, []byte(fmt.Sprintf("message %d", i)))
		l.say("send %s", class21(err))
		if err != nil {
			return
		}
		l.raw(m.Bytes())
		pt, err := to.receive(from.Addr, m.Type(), m.Bytes())
		l.say("receive %x %s", pt, class21(err))
	}
}

func receive21(t *T, w *world21, l *log21) {
	b := yield21(t, w.bob(t))
	for i := 0; i < 20; i++ {
		k := t.Rng.IntN(len(w.msgs))
		if i == 0 {
			k = t.Rng.IntN(4) * 2
		}
		pt, err := b.Session(address.Address{Name: "alice", DeviceID: 1}).DecryptMessage(ctx, t.R, w.msgs[k])
		l.say("receive shared %d: %s %s", k, pt, class21(err))
	}
}

func group21(t *T, w *world21, l *log21) {
	p := yield21(t, newParty(t, "bob", 1))
	for i := 0; i < 25; i++ {
		g := p.Group(w.gfrom, distribution.ID{})
		if i == 0 || t.Rng.IntN(5) == 0 {
			k := t.Rng.IntN(len(w.skds))
			l.say("process shared %d: %s", k, class21(g.ProcessSenderKeyDistribution(ctx, w.skds[k])))
			continue
		}
		k := t.Rng.IntN(len(w.gms))
		pt, err := g.DecryptMessage(ctx, w.gms[k])
		l.say("receive shared group %d: %s %s", k, pt, class21(err))
	}
}

func ownGroup21(t *T, w *world21, l *log21) {
	s, r := yield21(t, newParty(t, "carol", 3)), yield21(t, newParty(t, "bob", 1))
	d, err := s.Group(s.Addr, w.gdist).NewSenderKeyDistribution(ctx, t.R)
	l.say("distribute %s", class21(err))
	if err != nil {
		return
	}
	d, err = message.NewSenderKeyDistributionFromBytes(clone(d.Bytes()))
	l.say("parse %s", class21(err))
	l.say("process %s", class21(r.Group(s.Addr, w.gdist).ProcessSenderKeyDistribution(ctx, d)))
	var sent [][]byte
	for i := 0; i < 24; i++ {
		if t.Rng.IntN(2) == 0 || len(sent) == 0 {
			m, err := s.Group(s.Addr, w.gdist).EncryptMessage(ctx, t.R, []byte(fmt.Sprintf("group %d", i)))
			l.say("send %s", class21(err))
			if err == nil {
				sent = append(sent, clone(m.Bytes()))
			}
			continue
		}
		k := t.Rng.IntN(len(sent))
		wire := clone(sent[k])
		if t.Rng.IntN(6) == 0 {
			wire[len(wire)-1-t.Rng.IntN(70)] ^= 4
		}
		m, err := message.NewSenderKeyFromBytes(wire)
		if err != nil {
			l.say("parse %s", class21(err))
			continue
		}
		pt, err := r.Group(s.Addr, w.gdist).DecryptMessage(ctx, m)
		l.say("receive %d: %s %s", k, pt, class21(err))
	}
}

func keys21(t *T, w *world21, l *log21) {
	own := must(curve.GenerateKeyPair(t.R))
	for i := 0; i < 6; i++ {
		msg := []byte(fmt.Sprintf("own message %d", i))
		k := w.kp.PrivateKey()
		pub := w.kp.PublicKey()
		if i%2 == 1 {
			k, pub = w.priv[i%3], w.keys[i%3]
		}
		sig, err := k.Sign(t.R, msg[:4], msg[4:])
		l.say("sign %s", class21(err))
		l.raw(sig)
		v, err := pub.VerifySignature(sig, msg)
		l.say("verify %v %s", v, class21(err))
		v, err = pub.VerifySignature(w.sig, []byte("signed"))
		l.say("verify shared %v %s", v, class21(err))
		x, err := k.Agreement(own.PublicKey())
		l.say("agree %s", class21(err))
		y, err := own.Agreement(pub)
		l.say("agree back %s, equal %v", class21(err), bytes.Equal(x, y))
		z, err := w.priv[0].Agreement(w.keys[1])
		l.say("agree shared %s", class21(err))
		l.raw(z)
		l.say("public %v", k.PublicKey().Equal(w.keys[i%3]))
		l.raw(k.PublicKey().Bytes())
		alt, err := w.kp.SignAlternateIdentity(t.R, w.other.IdentityKey())
		l.say("alternate %s", class21(err))
		v, err = w.kp.IdentityKey().VerifyAlternateIdentity(alt, w.other.IdentityKey())
		l.say("verify alternate %v %s", v, class21(err))
		v, err = w.kp.IdentityKey().VerifyAlternateIdentity(w.pni, w.other.IdentityKey())
		l.say("verify shared alternate %v %s", v, class21(err))
		n, err := curve.GeneratePrivateKey(t.R)
		l.say("generate %s", class21(err))
		if err == nil {
			l.raw(n.Bytes())
			p, err := curve.NewPrivateKey(n.Bytes())
			l.say("parse %s", class21(err))
			l.say("same %v", err == nil && bytes.Equal(p.PublicKey().Bytes(), n.PublicKey().Bytes()))
		}
	}
}

func read21(t *T, w *world21, l *log21) {
	mac := bytes.Repeat([]byte{7}, 32)
	for i := 0; i < 4; i++ {
		for _, x := range w.msgs {
			m, _ := x.(*message.Signal)
			if p, ok := x.(*message.PreKey); ok {
				l.say("%d %v %d %x %x %x %d", p.Version(), p.PreKeyID() != nil, p.SignedPreKeyID(), p.BaseKey().Bytes(), p.IdentityKey().Bytes(), p.Bytes(), p.RegistrationID())
				m = p.Message()
			}
			l.say("%d %d %x %x %x", m.Version(), m.Counter(), m.SenderRatchetKey().Bytes(), m.Message(), m.Bytes())
			v, err := m.VerifyMAC(mac, w.alice, w.kp.IdentityKey())
			l.say("mac %v %s", v, class21(err))
		}
		for _, d := range w.skds {
			l.say("%d %s %d %d %x %x", d.Version(), d.DistributionID(), d.ChainID()*0, d.Iteration(), d.ChainKey(), d.SigningKey().Bytes())
		}
		for _, m := range w.gms {
			v, err := m.VerifySignature(w.skds[0].SigningKey())
			l.say("%d %s %d %v %s %x", m.Version(), m.DistributionID(), m.Iteration(), v, class21(err), m.Message())
		}
		b := w.bundle
		l.say("%d %v %d %x %x %x", b.RegistrationID, b.PreKeyID != nil, b.SignedPreKeyID, b.SignedPreKeyPublic.Bytes(), b.SignedPreKeySignature, b.IdentityKey.Bytes())
	}
}

func print21(t *T, w *world21, l *log21) {
	for i := 0; i < 4; i++ {
		n := uint32(2 + t.Rng.IntN(20))
		id := randBytes(t, 1+t.Rng.IntN(8))
		f, err := fingerprint.New(2, n, id, w.kp.IdentityKey(), []byte("carol"), w.other.IdentityKey())
		l.say("fingerprint %s", class21(err))
		g, err := fingerprint.New(2, n, []byte("carol"), w.other.IdentityKey(), id, w.kp.IdentityKey())
		l.say("fingerprint %s", class21(err))
		if err == nil {
			l.raw([]byte(dump(f) + dump(g)))
		}
		if w.code != nil {
			v, err := w.code.Compare(clone(w.codeB))
			l.say("shared code %v %s", v, class21(err))
			b, err := w.code.Bytes()
			l.say("shared code %s", class21(err))
			l.raw(b)
		}
		l.say("equal %v %v", w.kp.IdentityKey().Equal(w.other.IdentityKey()), w.kp.IdentityKey().Equal(w.kp.IdentityKey()))
	}
}

// child21 starts in a fresh process. What it runs is in VMON_C21: "first <seed>" makes all parties of a world start
// with nothing of the library used before; "alone <seed> <k>" runs one party by itself.
func child21(tier string, seed uint64) {
	var mode, ws string
	var k int
	fmt.Sscan(os.Getenv("VMON_C21"), &mode, &ws, &k)
	os.Stderr, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	switch mode {
	case "alone":
		l := run21(newWorld21(ws), k)
		for _, s := range l.out {
			fmt.Println(s)
		}
	case "first":
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < workers21; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { recover() }()
				t := task21("first", ws, i)
				<-start
				switch i % 4 {
				case 0: // the world of its own makes identities, bundles, sessions and groups
					newWorld21(fmt.Sprint(ws, i))
				case 1:
					k := must(curve.NewPrivateKey(bytes.Repeat([]byte{byte(i + 1)}, 32)))
					sig := must(k.Sign(t.R, []byte("x")))
					k.PublicKey().VerifySignature(sig, []byte("x"))
				case 2:
					id := must(identity.NewKey(append([]byte{5}, bytes.Repeat([]byte{9}, 32)...)))
					fingerprint.New(2, 3, []byte("a"), id, []byte("b"), id)
					id.VerifyAlternateIdentity(bytes.Repeat([]byte{1}, 64), id)
				case 3:
					for _, b := range [][]byte{{0x33}, bytes.Repeat([]byte{0x33}, 80)} {
						message.NewSignalFromBytes(b)
						message.NewPreKeyFromBytes(b)
						message.NewSenderKeyFromBytes(b)
						message.NewSenderKeyDistributionFromBytes(b)
					}
					k := must(curve.GenerateKeyPair(t.R))
					k.Agreement(k.PublicKey())
				}
			}()
		}
		close(start)
		wg.Wait()
	}
	os.Exit(0)
}

func runC21(c *C) {
	if !raceEnabled {
		c.One("build", func(t *T) { t.Skip("not built with the race detector") })
		return
	}
	c.Cases("first use", c.N(24, 400), func(t *T, i int) {
		out, logs, err := spawn21(c, fmt.Sprintf("first %d-%d 0", c.Seed, i))
		t.Eval()
		t.races21(logs)
		if err != nil {
			t.crash21(out, err)
		}
		t.Count("processes starting with concurrent first use", 1)
	})
	c.Cases("world", c.N(60, 1500), func(t *T, i int) { world21case(t, fmt.Sprintf("%d-%d", c.Seed, i)) })
	c.After = func() {
		// The detector must be watching: a race of the harness's own is reported in the same way.
		t := &T{C: c, Name: "races", obs: map[string]int64{}}
		canary21()
		logs := raceLogs(os.Getenv("VMON_RACELOG"))
		if !strings.Contains(logs, "canary21") {
			c.inconcl = append(c.inconcl, "the race detector did not report the harness's deliberate race")
		}
		t.log = nil
		func() {
			defer func() { recover() }()
			t.races21(logs)
		}()
	}
	c.Require("parties run concurrently", 600)
	c.Require("shared objects used by several parties", 100)
}

var canaryVar int

//go:noinline
func canary21() {
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); canaryVar++; time.Sleep(time.Millisecond); canaryVar++ }()
	}
	wg.Wait()
}

func raceLogs(prefix string) string {
	fs, _ := filepath.Glob(prefix + ".*")
	var b strings.Builder
	for _, f := range fs {
		x, _ := os.ReadFile(f)
		b.Write(x)
	}
	return b.String()
}

// races21 judges race reports.
func (t *T) races21(logs string) {
	for _, r := range strings.Split(logs, "==================") {
		if !strings.Contains(r, "DATA RACE") {
			continue
		}
		acc, _, _ := strings.Cut(r, "\nGoroutine ")
		switch {
		case strings.Contains(acc, libPath):
			t.Count("data races", 1)
			t.violate("data race in the library", r)
		case strings.Contains(acc, "canary21"):
			t.Count("deliberate race reported", 1)
			t.C.mu.Lock()
			t.C.counts["deliberate race reported"]++
			t.C.mu.Unlock()
		default:
			t.C.mu.Lock()
			t.C.inconcl = append(t.C.inconcl, "data race outside the library:\n"+r)
			t.C.mu.Unlock()
		}
	}
}

func spawn21(c *C, what string) (out, logs string, err error) {
	dir, err := os.MkdirTemp(c.Dir, "p")
	if err != nil {
		return "", "", err
	}
	defer os.RemoveAll(dir)
	exe, err := os.Executable()
	if err != nil {
		return "", "", err
	}
	cmd := exec.Command(exe, "-prop", "C21", "-child", "c21")
	cmd.Env = append(os.Environ(), "VMON_C21="+what, "GORACE=halt_on_error=0 exitcode=0 history_size=4 log_path="+filepath.Join(dir, "race"))
	var b bytes.Buffer
	var e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &e
	err = cmd.Run()
	if err != nil {
		return b.String() + e.String(), raceLogs(filepath.Join(dir, "race")), err
	}
	return b.String(), raceLogs(filepath.Join(dir, "race")), nil
}

func (t *T) crash21(out string, err error) {
	if what, ok := crashVerdict(1, out); ok && crashStart.MatchString(out) {
		t.Logf("%s", clipN(out, 20000))
		t.Violate("%s", what)
	}
	t.Skip("child process: %v\n%s", err, clipN(out, 2000))
}

func world21case(t *T, seed string) {
	w := func() (w *world21) {
		defer func() {
			if p := recover(); p != nil {
				t.Skip("cannot build the world: %v", p)
			}
		}()
		return newWorld21(seed)
	}()
	n := workers21
	conc, seq := make([]*log21, n), make([]*log21, n)
	order := t.Rng.Perm(n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for _, k := range order {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			conc[k] = run21(w, k+t0(seed))
		}()
	}
	close(start)
	wg.Wait()
	for k := n - 1; k >= 0; k-- {
		seq[k] = run21(w, k+t0(seed))
	}
	t.Count("parties run concurrently", int64(n))
	t.Count("shared objects used by several parties", int64(len(w.msgs)+len(w.gms)+len(w.skds)+2))
	for k := range conc {
		t.Eval()
		a, b := conc[k], seq[k]
		t.Seen(a.kind, fmt.Sprint(a.out))
		t.Count("outcomes compared", int64(len(a.out)))
		d := diffLines(a.out, b.out)
		odd := false
		for _, s := range a.out {
			if strings.HasPrefix(s, "panic") {
				odd = true
			}
		}
		if d == "" && diffLines(a.bytes, b.bytes) != "" { // the same bytes, provided that sequential executions agree on them
			if x := run21(w, k+t0(seed)); diffLines(x.bytes, b.bytes) == "" {
				d = diffLines(a.bytes, b.bytes)
			}
		}
		if d == "" && !odd && t.Rng.IntN(12) != 0 {
			continue
		}
		// A party by itself in a process of its own.
		out, _, err := spawn21(t.C, fmt.Sprintf("alone %s %d", seed, k+t0(seed)))
		if err != nil {
			t.crash21(out, err)
		}
		t.Count("parties run alone", 1)
		alone := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
		t.Logf("concurrent:\n%s", strings.Join(a.out, "\n"))
		t.Logf("alone:\n%s", out)
		if d != "" {
			t.Violate("%s %d gives different results when run concurrently and sequentially: %s", a.kind, k, d)
		}
		norm := strings.Split(strings.Join(a.out, "\n"), "\n")
		if a.kind != "accessors" && diffLines(norm, alone) != "" { // accessors show random chain keys
			t.Violate("%s %d gives different results next to others and alone: %s", a.kind, k, diffLines(norm, alone))
		}
	}
	if t.wantSample() {
		t.Sample(map[string]any{"world": seed, "party": conc[0].kind, "transcript": conc[0].out})
	}
}

// t0 shifts the kinds of parties from world to world.
func t0(seed string) int { return int(seedOf(seed)[0]) % len(tasks21) }

func diffLines(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "<none>", "<none>"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("line %d: %s / %s", i, clip(x), clip(y))
		}
	}
	return ""
}
