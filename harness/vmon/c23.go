package main

import (
	"encoding/base32"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"flag"
	"fmt"
	"io/fs"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/golang/glog"
	"google.golang.org/protobuf/proto"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/crypto/aes"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/curve/curve25519"
	"github.com/RTann/libsignal-go/protocol/direction"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/fingerprint"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/senderkey"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:   "C23",
		Rule: "Conversations, group schedules and direct calls, mostly refused or failing ones (forged and replayed messages, untrusted identities, missing pre-keys, damaged stored sessions, failing stores and random sources, keys of wrong length), run with full logging while everything the process writes to its standard output and error, every file it leaves, every error text and every emitted message is searched for every plaintext, private, root, chain and message key and shared secret of the case, as raw bytes and in every usual printed form. Controls check in each run that leaks in each form would be seen. Distinct by the shape of the log line or error text.",
		Run:  runC23,
		Assume: []string{
			"8 consecutive bytes at an offset divisible by 8, or the last 8 bytes, of a secret are what is recognised; plaintexts and keys shorter than 8 bytes or with fewer than 6 distinct bytes in such a window are not",
			"the valid authentication tag which is logged with a bad one, identity and pre-key ids and public keys are not secrets",
		},
	})
}

// capture collects what the process writes to its standard output and error.
type capture struct {
	saved *os.File
	out   *os.File
	err   *os.File
	since time.Time
}

var capture23 *capture

func startCapture(c *C) error {
	glog.Flush()
	p := &capture{}
	fd, err := syscall.Dup(1)
	if err != nil {
		return err
	}
	p.saved = os.NewFile(uintptr(fd), "saved stdout")
	if p.out, err = os.Create(filepath.Join(os.TempDir(), "vmon-stdout")); err != nil {
		return err
	}
	if p.err, err = os.OpenFile(filepath.Join(os.TempDir(), "stderr"), os.O_RDWR, 0); err != nil { // the supervisor made it
		return err
	}
	if err := syscall.Dup3(int(p.out.Fd()), 1, 0); err != nil {
		return err
	}
	os.Stderr = os.NewFile(2, "/dev/stderr")
	for f, v := range map[string]string{"logtostderr": "true", "v": "99", "stderrthreshold": "INFO"} {
		if fl := flag.Lookup(f); fl != nil {
			fl.Value.Set(v)
		}
	}
	if err := os.Chdir(c.Dir); err != nil {
		return err
	}
	capture23 = p
	c.Restore = func() {
		glog.Flush()
		os.Stderr, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		syscall.Dup3(int(p.saved.Fd()), 1, 0)
	}
	return nil
}

// reset forgets what was written so far.
func (p *capture) reset() {
	glog.Flush()
	p.out.Truncate(0)
	syscall.Seek(1, 0, 0)
	p.err.Truncate(0)
	syscall.Seek(2, 0, 0)
	p.since = time.Now()
}

func (p *capture) read() (out, err []byte) {
	glog.Flush()
	out, _ = os.ReadFile(filepath.Join(os.TempDir(), "vmon-stdout"))
	err, _ = os.ReadFile(filepath.Join(os.TempDir(), "stderr"))
	return
}

// strays reads the files which nobody of the harness made.
func (p *capture) strays(dirs ...string) map[string][]byte {
	m := map[string][]byte{}
	for _, d := range dirs {
		filepath.WalkDir(d, func(path string, e fs.DirEntry, err error) error {
			if err != nil || e.IsDir() || filepath.Base(path) == "vmon-stdout" || path == filepath.Join(os.TempDir(), "stderr") {
				return nil
			}
			if e.Type().IsRegular() {
				m[path], _ = os.ReadFile(path)
			}
			return nil
		})
	}
	return m
}

var logLine = regexp.MustCompile(`(?m)^[IWEF]\d{4} \S+ +\d+ ([\w.-]+):\d+\] (.*)$`)

// watched adds a case during which the output is searched.
func (c *C) watched(name string, f func(t *T)) {
	c.One(name, func(t *T) {
		if capture23 == nil {
			if err := startCapture(c); err != nil {
				t.Skip("cannot capture the output: %v", err)
			}
		}
		capture23.reset()
		w := newWatcher(t)
		watch = w
		var panicked string
		func() {
			defer func() {
				if p := recover(); p != nil {
					if _, ok := p.(caseEnd); ok {
						return
					}
					st := string(debug.Stack())
					if inLibrary(st) {
						panicked = fmt.Sprint(p) // C14's business, except for what it says
						t.Count("panics searched", 1)
						return
					}
					if t.mute {
						t.Count("workloads ended by a panic of theirs", 1)
						return
					}
					panic(p)
				}
			}()
			f(t)
		}()
		watch = nil
		if os.Getenv("VERIF_TIMES") != "" {
			ran := time.Since(capture23.since)
			defer func() {
				fmt.Fprintf(capture23.saved, "# %s ran %.3fs, searched %.3fs, %d secrets\n", t.Name, ran.Seconds(), (time.Since(capture23.since) - ran).Seconds(), w.n)
			}()
		}
		mute := t.mute
		t.mute = false
		out, errs := capture23.read()
		if panicked != "" {
			w.errs.WriteString(panicked + "\n")
		}
		look := func(where string, b []byte) {
			t.Eval()
			t.Count("bytes of "+where+" searched", int64(len(b)))
			if what, ok := w.find(b); ok {
				t.Logf("%s:", where)
				for _, l := range strings.Split(string(b), "\n") {
					if _, bad := w.find([]byte(l)); bad {
						t.Logf("  %q", clipN(l, 2000))
					}
				}
				t.Violate("%s shows %s", where, what)
			}
		}
		look("standard error", errs)
		look("standard output", out)
		look("error texts", w.errs.Bytes())
		for path, b := range capture23.strays(os.TempDir()) {
			look("files left behind", append([]byte(filepath.Base(path)+"\n"), b...))
		}
		for _, o := range w.outputs {
			t.Eval()
			t.Count("messages searched", 1)
			if what, _, ok := w.raw([]byte(o)); ok {
				t.Logf("message %x", o)
				t.Violate("an emitted message shows %s", what)
			}
		}
		n := 0
		for _, m := range logLine.FindAllStringSubmatch(string(errs), -1) {
			t.Seen("log", m[1], shapeOf(m[2]))
			n++
		}
		t.Count("log lines searched", int64(n))
		t.Count("secrets looked for", int64(w.n))
		for k, v := range w.kinds {
			t.Count("looked for: "+k, int64(v))
		}
		if !mute && t.wantSample() {
			l := logLine.FindAllString(string(errs), -1)
			t.Sample(map[string]any{"case": t.Name, "secrets": w.n, "log lines": n, "last log lines": tail(l, 4), "error texts": tail(strings.Split(w.errs.String(), "\n"), 4)})
		}
	})
}

func runC23(c *C) {
	c.Serial = true
	c.One("controls", controls23)
	many := func(name string, n int, f func(t *T, i int)) {
		for i := 0; i < n; i++ {
			c.watched(fmt.Sprintf("%s#%d", name, i), func(t *T) { f(t, i) })
		}
	}
	many("talk", c.N(120, 4000), talk23)
	many("group", c.N(60, 2000), group23)
	many("direct", c.N(40, 2000), direct23)
	many("damaged", c.N(80, 3000), damaged23)
	reuse := func(id, group string, n int) {
		d := newC(checks[id], c.Tier, c.Seed)
		checks[id].Run(d)
		for _, j := range d.jobs {
			if g, _, _ := strings.Cut(j.name, "#"); g == group && n > 0 {
				n--
				c.watched(id+" "+j.name, func(t *T) { t.mute = true; j.f(t) })
			}
		}
	}
	reuse("C01", "sim", c.N(4, 400))
	reuse("C01", "self-far-60000", 1)
	reuse("C08", "limit", c.N(6, 48))
	reuse("C09", "limits", c.N(2, 12))
	reuse("C02", "sim", c.N(3, 300))
	reuse("C03", "misdirect", c.N(5, 400))
	reuse("C03", "impostor", c.N(20, 400))
	reuse("C04", "refused", c.N(25, 800))
	reuse("C04", "refused-group", c.N(25, 800))
	reuse("C04", "faults", c.N(2, 300))
	reuse("C04", "faults-group", c.N(6, 200))
	reuse("C05", "world", c.N(20, 1000))
	reuse("C06", "unknown", c.N(20, 500))
	reuse("C06", "forged-bundle", c.N(3, 50))
	reuse("C11", "attacks", c.N(15, 400))
	reuse("C12", "history", c.N(15, 400))
	reuse("C14", "mutate", c.N(8, 200))
	reuse("C14", "states", c.N(20, 500))
	reuse("C19", "differ", c.N(10, 100))
	reuse("C20", "matrix", c.N(10, 100))
	reuse("C22", "sessions", c.N(2, 40))
	reuse("C22", "groups", c.N(2, 40))
	c.Require("secrets looked for", 20000)
	c.Require("errors searched", 4000)
	c.Require("leak controls seen", 60)
	c.Require("refused calls", 1000)
}

// controls23 leaks a made-up secret in every form and expects each to be seen.
func controls23(t *T) {
	if capture23 == nil {
		if err := startCapture(t.C); err != nil {
			t.Skip("cannot capture the output: %v", err)
		}
	}
	s := randBytes(t, 32)
	s[0] |= 0x80
	var pb = &v1.SessionStructure{RootKey: s}
	forms := map[string]string{
		"raw": string(s), "%x": fmt.Sprintf("%x", s), "%X": fmt.Sprintf("%X", s), "% x": fmt.Sprintf("% x", s), "%#x": fmt.Sprintf("%#x", s), "% #x": fmt.Sprintf("% #x", s),
		"%v": fmt.Sprintf("%v", s), "%d": fmt.Sprintf("%d", s), "%#v": fmt.Sprintf("%#v", s), "%q": fmt.Sprintf("%q", s), "%+q": fmt.Sprintf("%+q", s), "%b": fmt.Sprintf("%b", s), "%o": fmt.Sprintf("%o", s),
		"string array": fmt.Sprintf("%s", [32]byte(s)), "struct": fmt.Sprintf("%+v", struct{ K []byte }{s}), "hex.Dump": hex.Dump(s), "prototext": pb.String(), "prefix": fmt.Sprintf("%x...", s[:8]), "suffix": fmt.Sprintf("...%x", s[24:]),
		"base64": base64.StdEncoding.EncodeToString(s), "base64 url": base64.RawURLEncoding.EncodeToString(s), "base32": base32.StdEncoding.EncodeToString(s),
		"base64 inside": base64.StdEncoding.EncodeToString(append([]byte("ab"), s...)), "big": new(big.Int).SetBytes(s).String(), "glued": "key" + hex.EncodeToString(s) + "end", "colons": strings.ReplaceAll(fmt.Sprintf("% x", s), " ", ":"),
		"odd": "a" + hex.EncodeToString(s), "json": fmt.Sprintf("{\"k\":[%s]}", strings.Trim(strings.ReplaceAll(fmt.Sprint(s), " ", ","), "[]")),
	}
	delete(forms, "hex.Dump") // interleaves its offsets; its words of 8 bytes are still checked below
	for name, f := range forms {
		for where, put := range map[string]func(){
			"log":    func() { glog.Warningf("secret %s in a line", f) },
			"stdout": func() { fmt.Println("secret", f) },
			"error":  func() {},
		} {
			capture23.reset()
			w := newWatcher(t)
			w.secret("a control", s)
			put()
			out, errs := capture23.read()
			if where == "error" {
				w.err(fmt.Errorf("wrapped: %w", errors.New(f)))
				errs = w.errs.Bytes()
			}
			t.Eval()
			_, a := w.find(out)
			_, b := w.find(errs)
			if !a && !b {
				t.Skip("the control leak %s by %s was not seen", name, where)
			}
			t.Count("leak controls seen", 1)
		}
	}
	// and nothing where there is nothing
	capture23.reset()
	w := newWatcher(t)
	w.secret("a control", s)
	for i := 0; i < 200; i++ {
		b := randBytes(t, 32)
		glog.Infof("no secret %x %v %q %s", b, b, b, base64.StdEncoding.EncodeToString(b))
	}
	_, errs := capture23.read()
	if what, ok := w.find(errs); ok {
		t.Skip("the search finds %s where it is not", what)
	}
}

func secretText(t *T) []byte {
	n := 24 + t.Rng.IntN(60)
	b := randBytes(t, n)
	if t.Rng.IntN(2) == 0 { // readable
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ ,.!?"[int(b[i])%57]
		}
	}
	watch.plaintext(b)
	return b
}

// note23 looks at the outcome of a call.
func note23(t *T, what string, err error) {
	watch.err(err)
	if err != nil {
		t.Count("refused calls", 1)
	} else {
		t.Count("accepted calls", 1)
	}
	t.Seen(what, err != nil)
}

// talk23 is a conversation in which much goes wrong.
func talk23(t *T, i int) {
	a := newParty(t, "alice", 1)
	b := newParty(t, "bob", 1)
	if i%8 == 0 {
		b = newPartyKey(t, "alice", 2, a.KP)
	}
	m := newParty(t, "mallory", 1)
	ps := []*Party{a, b}
	type fl struct {
		to   int
		typ  message.CiphertextType
		wire []byte
	}
	var fly []fl
	for n := 0; n < 50+t.Rng.IntN(40); n++ {
		who := t.Rng.IntN(2)
		p, q := ps[who], ps[1-who]
		fault := 0
		if t.Rng.IntN(6) == 0 { // a store operation or the random source fails
			fault = 1 + t.Rng.IntN(8)
			k := fault
			p.St.hook = func(op string) error {
				if k--; k == 0 {
					return fmt.Errorf("%s: %w", op, errInjected)
				}
				return nil
			}
			if t.Rng.IntN(3) == 0 {
				p.R = &faultReader{r: watchReader{watch, t.R}, left: t.Rng.IntN(160)}
			}
		} else if t.Rng.IntN(12) == 0 {
			p.St.trust = func(address.Address, identity.Key, direction.Direction) (bool, error) { return false, nil }
		}
		deliver := func(from address.Address, typ message.CiphertextType, w []byte, what string) {
			_, err := p.receive(from, typ, w)
			note23(t, what, err)
		}
		switch t.Rng.IntN(10) {
		case 0:
			r := q.Bundle(t.Rng.IntN(2) == 0)
			switch t.Rng.IntN(6) {
			case 0:
				r.SignedPreKeySignature = flip(r.SignedPreKeySignature, t.Rng.IntN(64), 1)
			case 1:
				r.SignedPreKeySignature = r.SignedPreKeySignature[:t.Rng.IntN(64)]
			case 2:
				r.SignedPreKeyPublic = must(curve.NewPublicKey(append([]byte{5}, make([]byte, 32)...)))
				r.SignedPreKeySignature = must(q.KP.PrivateKey().Sign(t.R, r.SignedPreKeyPublic.Bytes()))
			}
			err := p.Session(q.Addr).ProcessPreKeyBundle(ctx, p.R, r)
			note23(t, "bundle", err)
		case 1, 2, 3:
			for k := 1 + t.Rng.IntN(4); k > 0; k-- {
				ct, err := p.Session(q.Addr).EncryptMessage(ctx, secretText(t))
				note23(t, "encrypt", err)
				if err == nil {
					fly = append(fly, fl{1 - who, ct.Type(), clone(ct.Bytes())})
					watch.outputs = append(watch.outputs, string(ct.Bytes()))
				}
			}
		case 4, 5, 6:
			for x := range fly {
				f := fly[(x+n)%len(fly)]
				if f.to == who && t.Rng.IntN(3) > 0 {
					deliver(q.Addr, f.typ, f.wire, "deliver")
					if t.Rng.IntN(3) > 0 {
						break
					}
				}
			}
		case 7, 8:
			if len(fly) == 0 {
				break
			}
			f := fly[t.Rng.IntN(len(fly))]
			in := inner(f.typ, f.wire)
			sm, err := ref.ParseSignal(in)
			if err != nil {
				break
			}
			switch t.Rng.IntN(7) {
			case 0:
				deliver(q.Addr, message.WhisperType, flip(in, len(in)-1-t.Rng.IntN(8), 1), "bad tag")
			case 1:
				deliver(q.Addr, f.typ, flip(f.wire, t.Rng.IntN(len(f.wire)), byte(1+t.Rng.IntN(255))), "altered")
			case 2:
				if i%8 != 0 {
					deliver(q.Addr, message.WhisperType, append(ref.EncodeSignalBody(sm.RatchetKey, sm.Counter+26000, sm.Prev, sm.Ciphertext), sm.MAC...), "far ahead")
				}
			case 3:
				deliver(m.Addr, f.typ, f.wire, "misdirected")
			case 4:
				deliver(q.Addr, message.WhisperType, append(ref.EncodeSignalBody(ref.GenKP(t.R).Pub, sm.Counter, sm.Prev, sm.Ciphertext), sm.MAC...), "new ratchet key")
			case 5:
				deliver(q.Addr, message.WhisperType, append(ref.EncodeSignalBody(append([]byte{5}, make([]byte, 32)...), sm.Counter, sm.Prev, sm.Ciphertext), sm.MAC...), "low order ratchet key")
			case 6:
				deliver(q.Addr, message.WhisperType, append(ref.EncodeSignalBody(sm.RatchetKey, sm.Counter, sm.Prev, sm.Ciphertext[:t.Rng.IntN(len(sm.Ciphertext))]), sm.MAC...), "short ciphertext")
			}
		case 9: // authenticated but undecryptable: the sender encrypts garbage
			st := p.rawRecord(q.Addr)
			if st == nil || st.State() == nil {
				break
			}
			s := structOf(st.State())
			if len(s.ReceiverChains) == 0 {
				break
			}
			c := s.ReceiverChains[t.Rng.IntN(len(s.ReceiverChains))]
			watch.state(s)
			k := ref.MessageKeys(c.GetChainKey().GetKey())
			ct := ref.CBCRaw(k.Cipher, k.IV, append(secretText(t)[:16], secretText(t)[:16]...)) // no valid padding
			if t.Rng.IntN(2) == 0 {
				ct = ct[:t.Rng.IntN(32)]
			}
			body := ref.EncodeSignalBody(c.SenderRatchetKey, c.GetChainKey().GetIndex(), 0, ct)
			mac := ref.HMAC(k.MAC, s.RemoteIdentityPublic, s.LocalIdentityPublic, body)[:8]
			deliver(q.Addr, message.WhisperType, append(body, mac...), "authenticated garbage")
		}
		p.St.hook, p.St.trust = nil, nil
		p.R = watchReader{watch, t.R}
	}
}

// group23 is a group in which much goes wrong.
func group23(t *T, i int) {
	g := newGSim(t, 3, 1)
	d := g.Dists[0]
	a := g.Nodes[0].P
	var skds, msgs [][]byte
	deliver := func(p *Party, from address.Address, w []byte, what string) {
		m, err := message.NewSenderKeyFromBytes(clone(w))
		if err == nil {
			_, err = p.Group(from, d).DecryptMessage(ctx, m)
		}
		note23(t, what, err)
	}
	for n := 0; n < 40+t.Rng.IntN(40); n++ {
		p := g.Nodes[t.Rng.IntN(3)].P
		if t.Rng.IntN(6) == 0 {
			k := 1 + t.Rng.IntN(3)
			p.St.hook = func(op string) error {
				if k--; k == 0 {
					return fmt.Errorf("%s: %w", op, errInjected)
				}
				return nil
			}
			if t.Rng.IntN(2) == 0 {
				p.R = &faultReader{r: watchReader{watch, t.R}, left: t.Rng.IntN(100)}
			}
		}
		switch t.Rng.IntN(8) {
		case 0:
			m, err := a.Group(a.Addr, d).NewSenderKeyDistribution(ctx, a.R)
			note23(t, "new distribution", err)
			if err == nil {
				skds = append(skds, clone(m.Bytes()))
				if s, err := ref.ParseSKD(m.Bytes()); err == nil {
					watch.groupChain(s.ChainKey)
				}
			}
		case 1:
			if len(skds) == 0 {
				break
			}
			w := skds[t.Rng.IntN(len(skds))]
			if t.Rng.IntN(3) == 0 {
				s, _ := ref.ParseSKD(w)
				ck := s.ChainKey
				switch t.Rng.IntN(4) {
				case 0:
					ck = ck[:t.Rng.IntN(32)]
				case 1:
					ck = append(clone(ck), 1)
				case 2:
					s.SigningKey = s.SigningKey[:t.Rng.IntN(33)]
				case 3:
					s.ChainID++
				}
				w = ref.EncodeSKD(s.Dist, s.ChainID, s.Iteration, ck, s.SigningKey)
			}
			m, err := message.NewSenderKeyDistributionFromBytes(clone(w))
			if err == nil {
				err = p.Group(a.Addr, d).ProcessSenderKeyDistribution(ctx, m)
			}
			note23(t, "process distribution", err)
		case 2, 3:
			m, err := a.Group(a.Addr, d).EncryptMessage(ctx, a.R, secretText(t))
			note23(t, "group encrypt", err)
			if err == nil {
				msgs = append(msgs, clone(m.Bytes()))
				watch.outputs = append(watch.outputs, string(m.Bytes()))
			}
			_, err = p.Group(address.Address{Name: "nobody"}, d).EncryptMessage(ctx, p.R, secretText(t))
			note23(t, "group encrypt without key", err)
		case 4, 5:
			for x := range msgs {
				if t.Rng.IntN(2) == 0 {
					deliver(p, a.Addr, msgs[(x+n)%len(msgs)], "group deliver")
				}
			}
		case 6:
			if len(msgs) == 0 {
				break
			}
			w := msgs[t.Rng.IntN(len(msgs))]
			deliver(p, a.Addr, flip(w, t.Rng.IntN(len(w)), byte(1+t.Rng.IntN(255))), "group altered")
			deliver(p, g.Nodes[1].P.Addr, w, "group misattributed")
		case 7: // signed by the genuine sender, but garbage or far ahead
			if len(msgs) == 0 {
				break
			}
			r := loadGroup(a, a.Addr, d)
			var priv []byte
			var ck []byte
			for _, s := range groupStructs(r) {
				priv, ck = s.GetSenderSigningKey().GetPrivate(), s.GetSenderChainKey().GetSeed()
			}
			m, err := ref.ParseSenderKey(msgs[len(msgs)-1])
			if err != nil || len(priv) != 32 || len(ck) != 32 {
				break
			}
			iv, k := ref.SenderMsgKeys(ck)
			ct := ref.CBCRaw(k, iv, append(secretText(t)[:16], secretText(t)[:16]...))
			it := m.Iteration + 1
			switch t.Rng.IntN(3) {
			case 0:
				ct = ct[:t.Rng.IntN(31)]
			case 1:
				it += 26000
			}
			body := ref.EncodeSenderKeyBody(m.Dist, m.ChainID, it, ct)
			deliver(p, a.Addr, append(body, ref.XSign(priv, body, randBytes(t, 64))...), "signed garbage")
		}
		p.St.hook = nil
		p.R = watchReader{watch, t.R}
	}
}

// direct23 makes the calls below sessions, mostly with what they must refuse.
func direct23(t *T, i int) {
	w := watch
	key := func(kind string, n int) []byte {
		b := randBytes(t, n)
		w.secret(kind, b)
		return b
	}
	size := func() int { return []int{0, 8, 16, 31, 32, 33, 64, 24}[t.Rng.IntN(8)] }
	for n := 0; n < 20; n++ {
		_, err := curve.NewPrivateKey(key("a private key", size()))
		note23(t, "private key", err)
		_, err = curve25519.NewPrivateKey(key("a private key", size()))
		note23(t, "private key 25519", err)
		priv := key("a private key", size())
		_, err = curve.NewKeyPair(priv, append([]byte{byte(4 + t.Rng.IntN(2))}, randBytes(t, 31+t.Rng.IntN(2))...))
		note23(t, "key pair", err)
		_, err = ratchet.NewChainKey(key("a chain key", size()), 1)
		note23(t, "chain key", err)
		_, err = ratchet.NewRootKey(key("a root key", size()))
		note23(t, "root key", err)
		_, err = ratchet.NewMessageKeys(key("a message key", size()), key("a message key", size()), randBytes(t, size()), 1)
		note23(t, "message keys", err)
		_, _, err = ratchet.DeriveKeys(key("a shared secret", 128))
		note23(t, "derive keys", err)
		_, err = ratchet.DeriveMessageKeys(key("a message key seed", 32), 1)
		note23(t, "derive message keys", err)
		_, err = senderkey.DeriveMessageKey(key("a message key seed", size()), 1)
		note23(t, "derive group keys", err)
		_, err = senderkey.NewChainKey(key("a chain key", size()), 7).Next().MessageKey()
		note23(t, "group chain", err)

		pt := secretText(t)
		ct, err := aes.CBCEncrypt(key("a message key", size()), randBytes(t, 15+t.Rng.IntN(2)), pt)
		note23(t, "CBC encrypt", err)
		k, iv := key("a message key", 32), randBytes(t, 16)
		if ct, err = aes.CBCEncrypt(k, iv, pt); err == nil {
			switch t.Rng.IntN(4) {
			case 0:
				ct = flip(ct, t.Rng.IntN(len(ct)), byte(1+t.Rng.IntN(255)))
			case 1:
				ct = ct[:t.Rng.IntN(len(ct))]
			case 2:
				iv = iv[:t.Rng.IntN(16)]
			case 3: // decrypts to something without valid padding
				ct = ref.CBCRaw(k, iv, append(secretText(t)[:16], append(secretText(t)[:15], 0)...))
			}
			_, err = aes.CBCDecrypt(k, iv, ct)
			note23(t, "CBC decrypt", err)
			_, err = aes.CBCDecrypt(k[:t.Rng.IntN(32)], iv, ct)
			note23(t, "CBC decrypt", err)
		}

		kp := must(curve.GenerateKeyPair(watchReader{w, t.R}))
		w.private("a private key", kp.PrivateKey().Bytes(), false)
		pub := must(curve.NewPublicKey(append([]byte{5}, oddPoints[t.Rng.IntN(len(oddPoints))]...)))
		dh, err := kp.PrivateKey().Agreement(pub)
		if err == nil {
			w.secret("a shared secret", dh)
		}
		note23(t, "agreement", err)
		dh, err = kp.PrivateKey().Agreement(must(curve.GenerateKeyPair(t.R)).PublicKey())
		if err == nil {
			w.secret("a shared secret", dh)
		}
		note23(t, "agreement", err)
		_, err = kp.PrivateKey().Sign(&faultReader{r: t.R, left: t.Rng.IntN(65)}, pt)
		note23(t, "sign", err)
		sig, err := kp.PrivateKey().Sign(t.R, pt)
		if err == nil {
			_, err = kp.PublicKey().VerifySignature(sig[:t.Rng.IntN(65)], pt)
		}
		note23(t, "verify", err)
		_, err = curve.GenerateKeyPair(&faultReader{r: watchReader{w, t.R}, left: t.Rng.IntN(32)})
		note23(t, "generate", err)

		id := identity.NewKeyPair(kp.PrivateKey(), must(identity.NewKey(kp.PublicKey().Bytes())))
		s, err := id.SignAlternateIdentity(&faultReader{r: t.R, left: 30 + t.Rng.IntN(50)}, must(identity.GenerateKeyPair(t.R)).IdentityKey())
		note23(t, "alternate", err)
		if err == nil {
			_, err = id.IdentityKey().VerifyAlternateIdentity(s[:t.Rng.IntN(len(s))], id.IdentityKey())
			note23(t, "alternate verify", err)
		}
		pk := prekey.NewPreKey(5, kp)
		_, err = pk.KeyPair()
		note23(t, "pre-key", err)
		sp := prekey.NewSigned(5, 42, kp, sig)
		_, err = sp.KeyPair()
		note23(t, "signed pre-key", err)

		ik := id.IdentityKey()
		_, err = message.NewSignal(message.SignalConfig{Version: 3, MACKey: key("a message key", size()), SenderRatchetKey: kp.PublicKey(), Ciphertext: randBytes(t, 40), SenderIdentityKey: ik, ReceiverIdentityKey: ik})
		note23(t, "signal", err)
		mk := key("a message key", 32)
		m, err := message.NewSignal(message.SignalConfig{Version: 3, MACKey: mk, SenderRatchetKey: kp.PublicKey(), Ciphertext: randBytes(t, 40), SenderIdentityKey: ik, ReceiverIdentityKey: ik})
		if err == nil {
			sm := m.(*message.Signal)
			for _, k := range [][]byte{mk, flip(mk, 3, 1), mk[:t.Rng.IntN(32)], key("a message key", 32)} {
				w.secret("a message key", k)
				_, err = sm.VerifyMAC(k, ik, ik)
				note23(t, "verify MAC", err)
			}
		}
		ck := key("a sender chain key", size())
		skd, err := message.NewSenderKeyDistribution(message.SenderKeyDistConfig{DistID: newDist(t), ChainID: 1, ChainKey: ck, SigningKey: kp.PublicKey()})
		note23(t, "distribution", err)
		if err == nil {
			_, err = message.NewSenderKeyDistributionFromBytes(clone(skd.Bytes())[:t.Rng.IntN(len(skd.Bytes()))])
			note23(t, "distribution parse", err)
			p := newParty(t, "x", 1)
			note23(t, "distribution process", p.Group(p.Addr, distribution.ID{}).ProcessSenderKeyDistribution(ctx, skd))
		}
		f, err := fingerprint.New(1, uint32(t.Rng.IntN(4)), []byte("a"), ik, []byte("b"), ik)
		note23(t, "fingerprint", err)
		_ = f
	}
}

// damaged23 works on stored sessions and groups which lost something.
func damaged23(t *T, i int) {
	a, b := newParty(t, "alice", 1), newParty(t, "bob", 1)
	var last []byte
	exchange := func(p, q *Party, n int) (ws [][]byte) {
		for ; n > 0; n-- {
			ct, err := p.Session(q.Addr).EncryptMessage(ctx, secretText(t))
			note23(t, "encrypt", err)
			if err != nil {
				continue
			}
			last = clone(ct.Bytes())
			_, err = q.receive(p.Addr, ct.Type(), last)
			note23(t, "decrypt", err)
			ws = append(ws, inner(ct.Type(), last))
		}
		return
	}
	note23(t, "bundle", a.Session(b.Addr).ProcessPreKeyBundle(ctx, a.R, b.Bundle(i%2 == 0)))
	exchange(a, b, 2)
	if i%3 > 0 {
		exchange(b, a, 2)
		exchange(a, b, 1)
	}
	var waiting [][]byte
	for k := 0; k < 3; k++ {
		if ct, err := a.Session(b.Addr).EncryptMessage(ctx, secretText(t)); err == nil {
			waiting = append(waiting, inner(ct.Type(), clone(ct.Bytes())))
		}
	}
	if len(waiting) == 3 { // leaves skipped keys
		_, err := b.receive(a.Addr, message.WhisperType, waiting[2])
		note23(t, "decrypt", err)
	}
	for n := 0; n < 25; n++ {
		p, q := a, b
		if t.Rng.IntN(3) > 0 {
			p, q = b, a
		}
		r := p.rawRecord(q.Addr)
		if r == nil || r.State() == nil {
			t.Skip("no session")
		}
		s := structOf(r.State())
		watch.state(s)
		cut := func(b []byte) []byte {
			switch t.Rng.IntN(4) {
			case 0:
				return nil
			case 1:
				return append(clone(b), 7)
			case 2:
				return flip(b, t.Rng.IntN(len(b)), 1)
			}
			return clone(b)[:len(b)-1-t.Rng.IntN(min(len(b), 15))]
		}
		chain := s.SenderChain
		if len(s.ReceiverChains) > 0 && t.Rng.IntN(2) == 0 {
			chain = s.ReceiverChains[t.Rng.IntN(len(s.ReceiverChains))]
		}
		if chain == nil {
			continue
		}
		var mks *v1.SessionStructure_Chain_MessageKey
		for _, c := range s.ReceiverChains {
			if len(c.MessageKeys) > 0 {
				mks = c.MessageKeys[0]
			}
		}
		what := t.Rng.IntN(10)
		switch what {
		case 0:
			s.RootKey = cut(s.RootKey)
		case 1, 2:
			chain.ChainKey.Key = cut(chain.ChainKey.Key)
		case 3:
			if len(chain.SenderRatchetKeyPrivate) > 0 {
				chain.SenderRatchetKeyPrivate = cut(chain.SenderRatchetKeyPrivate)
			}
		case 4:
			chain.SenderRatchetKey = cut(chain.SenderRatchetKey)
		case 5:
			s.RemoteIdentityPublic = cut(s.RemoteIdentityPublic)
		case 6:
			s.LocalIdentityPublic = cut(s.LocalIdentityPublic)
		case 7:
			if mks != nil {
				mks.CipherKey = cut(mks.CipherKey)
			}
		case 8:
			if mks != nil {
				mks.MacKey = cut(mks.MacKey)
			}
		case 9:
			if s.SenderChain != nil {
				s.SenderChain = nil
			}
		}
		raw, err := proto.Marshal(s)
		if err != nil {
			t.Skip("%v", err)
		}
		nr, err := session.NewRecordBytes(raw)
		note23(t, "restore damaged", err)
		if err != nil {
			continue
		}
		x := p.fork()
		x.R = watchReader{watch, t.R}
		x.St.in.SessionStore().Store(ctx, q.Addr, nr)
		t.Seen("damage", what, chain == s.SenderChain)
		_, err = x.Session(q.Addr).EncryptMessage(ctx, secretText(t))
		note23(t, "encrypt damaged", err)
		for _, m := range append(waiting, last) {
			typ := message.CiphertextType(message.WhisperType)
			_, err = x.receive(q.Addr, typ, inner(typ, m))
			note23(t, "decrypt damaged", err)
		}
		if y := q.fork(); true { // a ratchet step on the damaged session
			if ct, err := y.Session(p.Addr).EncryptMessage(ctx, secretText(t)); err == nil {
				_, err = x.receive(q.Addr, ct.Type(), clone(ct.Bytes()))
				note23(t, "decrypt damaged", err)
			}
		}
	}
}
