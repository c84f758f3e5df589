package main

import (
	"bytes"
	"fmt"
	"reflect"

	"google.golang.org/protobuf/proto"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/crypto/aes"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/curve/curve25519"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/fingerprint"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/senderkey"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:   "C14",
		Rule: "Genuine messages, keys, sessions, codes and identifiers of running conversations are mutated byte-wise and field-wise (and random bytes of every small length made up) and given to every function that takes bytes; whatever parses goes on through every accessor, decryption, handshake, verification and comparison in many session states. Panics, fatal errors and calls that never return are violations; refusals of unsupported versions and malformed keys are checked. Distinct by (entry point, accepted or refused, length).",
		Run:  runC14,
		Assume: []string{
			"the work of catching up with a far-ahead message number in a session with one's own identity is exempt (by design unlimited)",
			"a call that has not returned after several minutes is taken to hang; nothing here takes more than milliseconds",
		},
	})
}

// env14 is a set of parties in various states.
type env14 struct {
	t      *T
	s      *Sim
	g      *GSim
	scan   *fingerprint.Scannable
	corpus [][]byte // serialized items of all kinds
	kinds  []string
	keys   []curve.PublicKey
}

func newEnv14(t *T) *env14 {
	e := &env14{t: t}
	e.s = scene03(t, 10+t.Rng.IntN(90))
	e.g = newGSim(t, 3, 1)
	for j := 0; j < 2; j++ {
		k := gkey{e.g.Nodes[j], e.g.Dists[0]}
		s := e.g.distribute(k)
		e.add("SKD", s.Wire)
		for _, n := range e.g.Nodes {
			if n != k.from && t.Rng.IntN(3) > 0 {
				e.g.process(n, s)
			}
		}
		for x := 0; x < 6; x++ {
			m := e.g.send(k, plaintextOf(t.Rng, t.R))
			e.add("SenderKey", m.Wire)
			if t.Rng.IntN(2) == 0 {
				e.g.deliver(e.g.other(k.from), m)
			}
		}
	}
	for _, m := range append(append([]*Msg(nil), e.s.Flight...), e.s.Done...) {
		if len(m.Wire) > 3000 || t.Rng.IntN(3) > 0 {
			continue
		}
		e.add([]string{2: "Signal", 3: "PreKey"}[m.Typ], m.Wire)
		e.add("Signal", m.Inner)
	}
	for _, n := range e.s.Nodes {
		for _, a := range n.P.Known {
			if r := n.P.rawRecord(a); r != nil && r.State() != nil {
				if b := r.State().Bytes(); len(b) < 6000 {
					e.add("State", b)
				}
			}
		}
	}
	a, b := e.s.Nodes[0].P.KP.IdentityKey(), e.s.Nodes[1].P.KP.IdentityKey()
	f := must(fingerprint.New(2, 3, []byte("a"), a, []byte("b"), b))
	v, ok := findField(reflect.ValueOf(f), reflect.TypeOf((*fingerprint.Scannable)(nil)), 0)
	if !ok {
		t.Skip("no scannable fingerprint found")
	}
	e.scan = v.Interface().(*fingerprint.Scannable)
	e.add("Scan", must(e.scan.Bytes()))
	e.add("Key", a.Bytes())
	e.add("Key", e.s.Nodes[0].P.KP.PrivateKey().Bytes())
	e.add("ID", []byte(e.g.Dists[0].String()))
	e.add("Plaintext", append([]byte{0xC0}, randBytes(t, 20)...))
	e.keys = []curve.PublicKey{a.PublicKey(), b.PublicKey()}
	for _, p := range oddPoints {
		e.keys = append(e.keys, must(curve.NewPublicKey(append([]byte{5}, p...))))
	}
	return e
}

func (e *env14) add(kind string, b []byte) {
	e.corpus = append(e.corpus, clone(b))
	e.kinds = append(e.kinds, kind)
}

// self tells whether a party has a session with its own identity under address a.
func (e *env14) self(n *Node, a address.Address) bool {
	r := n.P.rawRecord(a)
	if r == nil {
		return false
	}
	own := func(st *session.State) bool {
		s := structOf(st)
		return bytes.Equal(s.GetLocalIdentityPublic(), s.GetRemoteIdentityPublic())
	}
	if r.State() != nil && own(r.State()) {
		return true
	}
	prev, _ := r.PreviousStates()
	for _, st := range prev {
		if own(st) {
			return true
		}
	}
	return false
}

// getters calls every method of x that takes no arguments.
func getters(x any) {
	v := reflect.ValueOf(x)
	for i := 0; i < v.NumMethod(); i++ {
		m := v.Method(i)
		if m.Type().NumIn() == 0 {
			m.Call(nil)
		}
	}
}

func (e *env14) note(entry string, b []byte, err error) {
	watch.err(err)
	e.t.Eval()
	if err == nil {
		e.t.Count("accepted by "+entry, 1)
	} else {
		e.t.Count("refused by "+entry, 1)
	}
	e.t.Seen(entry, err == nil, bucket(len(b)))
}

// feed gives b to every entry point.
func (e *env14) feed(b []byte) {
	t := e.t
	t.log = append(t.log[:0], fmt.Sprintf("input %x", b))
	e.feedSignal(clone(b))
	e.feedPreKey(clone(b))
	e.feedSenderKey(clone(b))
	e.feedSKD(clone(b))
	e.feedKeys(clone(b))
	if p, err := message.NewPlaintextFromBytes(clone(b)); err == nil {
		if len(b) == 0 || b[0] != 0xC0 {
			t.Violate("a plaintext message of version %x was accepted", b[:1])
		}
		getters(p)
		_, err := e.s.Nodes[0].P.Session(e.s.Nodes[1].Addr).DecryptMessage(ctx, t.R, p)
		if err == nil {
			t.Violate("a plaintext-type message was decrypted")
		}
		e.note("plaintext", b, nil)
	}
	_, err := e.scan.Compare(clone(b))
	e.note("scannable compare", b, err)
	id, err := distribution.ParseBytes(clone(b))
	e.note("distribution id", b, err)
	if err == nil {
		_ = id.String()
	}
	_, err = distribution.Parse(string(b))
	e.note("distribution id string", b, err)
	if d, err := fingerprint.NewDisplayable(clone(b), clone(b)); err == nil {
		_ = d.String()
	}
	if s, err := fingerprint.NewScannable(7, clone(b), clone(b)); err == nil {
		s.Bytes()
		s.Compare(clone(b))
	}
	e.feedState(clone(b))
}

func (e *env14) feedSignal(b []byte) {
	t := e.t
	m, err := message.NewSignalFromBytes(b)
	e.note("signal", b, err)
	if err != nil {
		return
	}
	if b[0]>>4 != 3 {
		t.Violate("a Signal message of version %d was accepted", b[0]>>4)
	}
	sm := m.(*message.Signal)
	getters(sm)
	for _, k := range [][]byte{nil, make([]byte, 31), make([]byte, 32), make([]byte, 33)} {
		ok, err := sm.VerifyMAC(k, e.s.Nodes[0].P.KP.IdentityKey(), e.s.Nodes[1].P.KP.IdentityKey())
		if len(k) != 32 && (ok || err == nil) {
			t.Violate("VerifyMAC with a key of %d bytes did not fail", len(k))
		}
	}
	e.deliver(m, sm.Counter())
}

func (e *env14) deliver(m message.Ciphertext, counter uint32) {
	if pm, ok := m.(*message.PreKey); ok && counter > 20000 { // names the receiver's own identity: works through any distance
		for _, n := range e.s.Nodes {
			if bytes.Equal(pm.IdentityKey().Bytes(), n.P.KP.IdentityKey().Bytes()) {
				return
			}
		}
	}
	for _, n := range e.s.Nodes {
		for _, x := range e.s.Nodes {
			if n == x && counter > 20000 {
				continue
			}
			if counter > 20000 && e.self(n, x.Addr) {
				continue
			}
			_, err := n.P.Session(x.Addr).DecryptMessage(ctx, n.P.R, m)
			e.note("decrypt", nil, err)
		}
	}
	nobody := address.Address{Name: "nobody"}
	if counter > 20000 && e.self(e.s.Nodes[0], nobody) {
		return
	}
	_, err := e.s.Nodes[0].P.Session(nobody).DecryptMessage(ctx, e.t.R, m)
	e.note("decrypt", nil, err)
}

func (e *env14) feedPreKey(b []byte) {
	t := e.t
	m, err := message.NewPreKeyFromBytes(b)
	e.note("pre-key message", b, err)
	if err != nil {
		return
	}
	if b[0]>>4 != 3 {
		t.Violate("a pre-key message of version %d was accepted", b[0]>>4)
	}
	pm := m.(*message.PreKey)
	getters(pm)
	if pm.Message() == nil || pm.BaseKey() == nil {
		t.Violate("a pre-key message without message or base key was accepted")
	}
	if v := pm.Message().Version(); v != 3 {
		t.Violate("a pre-key message around a message of version %d was accepted", v)
	}
	getters(pm.Message())
	for _, k := range [][]byte{nil, make([]byte, 32)} {
		pm.Message().VerifyMAC(k, pm.IdentityKey(), e.s.Nodes[1].P.KP.IdentityKey())
	}
	getters(pm.IdentityKey())
	getters(pm.BaseKey())
	e.deliver(m, pm.Message().Counter())
	if n := e.s.Nodes[t.Rng.IntN(len(e.s.Nodes))]; t.Rng.IntN(4) == 0 {
		r := session.NewRecord(nil)
		_, err := n.P.fork().Session(address.Address{Name: "stranger"}).ProcessPreKey(ctx, r, pm)
		e.note("process pre-key message", nil, err)
	}
}

func (e *env14) feedSenderKey(b []byte) {
	t := e.t
	m, err := message.NewSenderKeyFromBytes(b)
	e.note("group message", b, err)
	if err != nil {
		return
	}
	if b[0]>>4 != 3 {
		t.Violate("a group message of version %d was accepted", b[0]>>4)
	}
	getters(m)
	for _, k := range e.keys {
		m.VerifySignature(k)
	}
	for _, n := range e.g.Nodes {
		for _, x := range e.g.Nodes {
			_, err := n.P.Group(x.Addr, distribution.ID{}).DecryptMessage(ctx, m)
			e.note("group decrypt", nil, err)
		}
	}
}

func (e *env14) feedSKD(b []byte) {
	t := e.t
	m, err := message.NewSenderKeyDistributionFromBytes(b)
	e.note("distribution message", b, err)
	if err != nil {
		return
	}
	if b[0]>>4 != 3 {
		t.Violate("a distribution message of version %d was accepted", b[0]>>4)
	}
	if len(m.ChainKey()) != 32 || m.SigningKey() == nil {
		t.Violate("a distribution message with a chain key of %d bytes was accepted", len(m.ChainKey()))
	}
	getters(m)
	n := e.g.Nodes[2].P.fork()
	err = n.Group(e.g.Nodes[0].Addr, distribution.ID{}).ProcessSenderKeyDistribution(ctx, m)
	e.note("process distribution message", nil, err)
	// messages under it
	for i, k := range e.kinds {
		if k == "SenderKey" && t.Rng.IntN(4) == 0 {
			if x, err := message.NewSenderKeyFromBytes(clone(e.corpus[i])); err == nil {
				n.Group(e.g.Nodes[0].Addr, distribution.ID{}).DecryptMessage(ctx, x)
			}
		}
	}
	if r, ok, _ := n.St.in.GroupStore().Load(ctx, e.g.Nodes[0].Addr, m.DistributionID()); ok {
		if st, err := r.State(); err == nil {
			getters(st)
		}
		n.Group(e.g.Nodes[0].Addr, m.DistributionID()).NewSenderKeyDistribution(ctx, t.R)
		n.Group(e.g.Nodes[0].Addr, m.DistributionID()).EncryptMessage(ctx, t.R, []byte("x"))
	}
}

func (e *env14) feedKeys(b []byte) {
	t := e.t
	pub, err := curve.NewPublicKey(b)
	e.note("public key", b, err)
	if err == nil {
		if len(b) < 33 || b[0] != 5 {
			t.Violate("a public key of %d bytes, %x, was accepted", len(b), b)
		}
		getters(pub)
		e.usePub(pub, b)
	}
	ik, err := identity.NewKey(b)
	e.note("identity key", b, err)
	if err == nil {
		if len(b) < 33 || b[0] != 5 {
			t.Violate("an identity key of %d bytes, %x, was accepted", len(b), b)
		}
		ik.VerifyAlternateIdentity(b, ik)
		ik.Equal(e.s.Nodes[0].P.KP.IdentityKey())
		f, err := fingerprint.New(uint32(b[0]), 2+uint32(b[1]), b, ik, b[1:], ik)
		if err == nil {
			_ = f.String()
		}
	}
	priv, err := curve.NewPrivateKey(b)
	e.note("private key", b, err)
	if err == nil {
		if len(b) != 32 {
			t.Violate("a private key of %d bytes was accepted", len(b))
		}
		getters(priv)
		for _, k := range e.keys {
			priv.Agreement(k)
		}
		priv.Sign(t.R, b)
	}
	if _, err := curve25519.NewPrivateKey(b); (err == nil) != (len(b) == 32) {
		t.Violate("curve25519.NewPrivateKey of %d bytes: %v", len(b), err)
	}
	if p, err := curve25519.NewPrivateKey(randBytes(t, 32)); err == nil {
		if _, err := p.Agreement(b); err == nil && len(b) != 32 {
			t.Violate("key agreement with a public key of %d bytes succeeded", len(b))
		}
	}
	half := b[:len(b)/2]
	for _, x := range [][]byte{b, half} {
		if _, err := curve.NewKeyPair(x, b); err == nil && (len(x) != 32 || len(b) < 33) {
			t.Violate("a key pair of %d and %d bytes was accepted", len(x), len(b))
		}
	}
	// verification with b as key, signature or message
	sig := randBytes(t, 64)
	for _, s := range [][]byte{b, sig, nil, sig[:63]} {
		if ok, _ := curve25519.VerifySignature(b, s, b); ok && (len(b) != 32 || len(s) != 64) {
			t.Violate("a signature of %d bytes verified under a key of %d bytes", len(s), len(b))
		}
	}
	for _, k := range e.keys {
		ok, _ := k.VerifySignature(b, b)
		e.note("verify", b, nil)
		if ok && len(b) != 64 {
			t.Violate("a signature of %d bytes verified", len(b))
		}
	}
	// symmetric keys
	if _, err := ratchet.NewRootKey(b); (err == nil) != (len(b) == 32) {
		t.Violate("NewRootKey of %d bytes: %v", len(b), err)
	}
	if ck, err := ratchet.NewChainKey(b, 0); err == nil {
		if len(b) != 32 {
			t.Violate("NewChainKey of %d bytes accepted", len(b))
		}
		ck.MessageKeys()
		getters(ck)
	}
	for _, l := range [][3]int{{len(b), 32, 16}, {32, len(b), 16}, {32, 32, len(b)}} {
		_, err := ratchet.NewMessageKeys(make([]byte, l[0]), make([]byte, l[1]), make([]byte, l[2]), 3)
		if (err == nil) != (l == [3]int{32, 32, 16}) {
			t.Violate("NewMessageKeys of %v bytes: %v", l, err)
		}
	}
	ratchet.DeriveKeys(b)
	ratchet.DeriveMessageKeys(b, 1)
	if mk, err := senderkey.DeriveMessageKey(b, 1); err == nil {
		getters(mk)
	}
	sk := senderkey.NewChainKey(b, 4)
	sk.Next().MessageKey()
	getters(sk)
	// ciphers
	key, iv := randBytes(t, 32), randBytes(t, 16)
	aes.CBCDecrypt(key, iv, b)
	for _, x := range [][3][]byte{{b, iv, key}, {key, b, key}, {b, b, b}, {nil, nil, b}, {key, iv, nil}, {key, nil, b}} {
		if _, err := aes.CBCDecrypt(x[0], x[1], x[2]); err == nil && len(x[1]) != 16 {
			t.Violate("CBCDecrypt with an IV of %d bytes succeeded", len(x[1]))
		}
		if _, err := aes.CBCEncrypt(x[0], x[1], x[2]); err == nil && len(x[1]) != 16 {
			t.Violate("CBCEncrypt with an IV of %d bytes succeeded", len(x[1]))
		}
	}
}

// usePub passes a parsed key on to handshakes, agreement and verification.
func (e *env14) usePub(pub curve.PublicKey, b []byte) {
	t := e.t
	n := e.s.Nodes[0]
	n.P.KP.PrivateKey().Agreement(pub)
	pub.VerifySignature(randBytes(t, 64), b)
	for _, k := range e.keys {
		k.Equal(pub)
		pub.Equal(k)
	}
	p := n.P.fork()
	x := e.s.Nodes[1].P
	bun := x.Bundle(t.Rng.IntN(2) == 0)
	switch t.Rng.IntN(5) {
	case 0:
		bun.IdentityKey = must(identity.NewKey(pub.Bytes()))
	case 1:
		bun.SignedPreKeyPublic = pub
	case 2: // properly signed by its owner
		bun.SignedPreKeyPublic = pub
		bun.SignedPreKeySignature = must(x.KP.PrivateKey().Sign(t.R, pub.Bytes()))
	case 3:
		id := prekey.ID(t.Rng.Uint32())
		bun.PreKeyID, bun.PreKeyPublic = &id, pub
	case 4:
		bun.SignedPreKeySignature = b
	}
	err := p.Session(e.s.Nodes[1].Addr).ProcessPreKeyBundle(ctx, t.R, bun)
	e.note("bundle", b, err)
	if err == nil {
		p.Session(e.s.Nodes[1].Addr).EncryptMessage(ctx, []byte("x"))
	}
}

// feedState uses b as a stored session.
func (e *env14) feedState(b []byte) {
	t := e.t
	r, err := session.NewRecordBytes(b)
	e.note("stored session", b, err)
	if err != nil {
		return
	}
	if r.State() != nil {
		if self, err := r.State().SessionWithSelf(); self || err != nil && t.Rng.IntN(4) > 0 {
			return
		}
	}
	getters(r)
	st := r.State()
	if st != nil {
		getters(st)
		for _, k := range e.keys {
			st.Clone().MessageKeys(k, 0)
			st.ReceiverChainKey(k)
			r.ReceiverChainKey(k)
		}
		r.HasSessionState(3, b)
	}
	if !bytes.Contains(b, e.s.Nodes[0].P.KP.PublicKey().Bytes()) && t.Rng.IntN(6) > 0 {
		return // nothing much to decrypt with
	}
	p := e.s.Nodes[t.Rng.IntN(2)].P.fork()
	a := address.Address{Name: "peer", DeviceID: 1}
	p.St.in.SessionStore().Store(ctx, a, r)
	s := p.Session(a)
	cnt := 0
	for _, j := range t.Rng.Perm(len(e.corpus)) {
		var m message.Ciphertext
		switch e.kinds[j] {
		case "Signal":
			m, err = message.NewSignalFromBytes(clone(e.corpus[j]))
		case "PreKey":
			m, err = message.NewPreKeyFromBytes(clone(e.corpus[j]))
		default:
			continue
		}
		if err != nil {
			continue
		}
		_, err := s.DecryptMessage(ctx, t.R, m)
		e.note("decrypt with stored session", nil, err)
		if cnt++; cnt > 5 {
			break
		}
	}
	_, err = s.EncryptMessage(ctx, []byte("x"))
	e.note("encrypt with stored session", nil, err)
	if t.Rng.IntN(4) == 0 {
		s.ProcessPreKeyBundle(ctx, t.R, e.s.Nodes[2].P.Bundle(true))
		s.EncryptMessage(ctx, nil)
	}
}

func runC14(c *C) {
	c.Cases("mutate", c.N(100, 4000), func(t *T, i int) {
		e := newEnv14(t)
		for j := 0; j < 60; j++ {
			x := t.Rng.IntN(len(e.corpus))
			b := e.corpus[x]
			kind := e.kinds[x]
			switch t.Rng.IntN(3) {
			case 0:
				b = mutBytes(t.Rng, b, e.corpus)
			default:
				switch kind {
				case "Signal", "PreKey", "SKD", "SenderKey":
					n := map[string]int{"Signal": 8, "SenderKey": 64}[kind]
					body := mutFields(t.Rng, b[1:len(b)-n], 0)
					b = append(append(clone(b[:1]), body...), b[len(b)-n:]...)
				case "State", "Scan":
					b = mutFields(t.Rng, b, 0)
				default:
					b = mutBytes(t.Rng, b, e.corpus)
				}
			}
			e.feed(b)
		}
		t.Count("conversations used", 1)
		if t.wantSample() {
			t.Sample(map[string]any{"case": t.Name, "corpus": len(e.corpus), "an input": hexs(e.corpus[t.Rng.IntN(len(e.corpus))])})
		}
	})
	c.Cases("short", c.N(16, 128), func(t *T, i int) { // every small length behind every version byte
		e := newEnv14(t)
		vb := []byte{0x33, 0x34, 0x23, 0x43, 0x03, 0xff, 0x05, 0xC0}[i%8]
		for n := 0; n <= 140; n++ {
			if n%2 != (i/8)%2 && n > 80 {
				continue
			}
			b := rbytes(t.Rng, n)
			if n > 0 {
				b[0] = vb
			}
			e.feed(b)
			if n > 1 && t.Rng.IntN(2) == 0 {
				for j := 1; j < n; j++ {
					b[j] = 0
				}
				e.feed(b)
			}
		}
		t.Count("lengths swept", 141)
	})
	c.Cases("truncate", c.N(12, 200), func(t *T, i int) { // every prefix of genuine items
		e := newEnv14(t)
		for try := 0; try < 3; try++ {
			b := e.corpus[t.Rng.IntN(len(e.corpus))]
			if len(b) > 400 {
				continue
			}
			for n := 0; n < len(b); n += 1 + t.Rng.IntN(2) {
				e.feed(b[:n])
			}
		}
	})
	c.Cases("fields", c.N(8, 80), fields14)
	c.Require("items with a field changed in every way", 20)
	c.Cases("insider", c.N(24, 300), func(t *T, i int) {
		insider(t, i, func(p *Party, what string, f func() ([]byte, error)) { f() }, t.Skip)
	})
	c.Require("messages of a misbehaving peer", 300)
	c.Cases("states", c.N(60, 2000), states14)
	c.Cases("points", c.N(16, 64), points14)
	c.Require("unusual points presented", 500)
	c.Cases("versions", c.N(30, 300), versions14)
	c.Require("accepted by signal", 400)
	c.Require("accepted by pre-key message", 100)
	c.Require("accepted by group message", 150)
	c.Require("accepted by distribution message", 50)
	c.Require("accepted by stored session", 300)
	c.Require("malformed stored keys refused", 100)
	c.Require("unsupported versions refused", 200)
}

// states14: stored sessions with malformed keys refuse to work instead of going on.
func states14(t *T, i int) {
	s := scene03(t, 30+t.Rng.IntN(60))
	a, b := s.pair()
	for n := 0; n < 20 && (a.Addr == b.Addr || idOf(a.P.KP) == idOf(b.P.KP)); n++ {
		a, b = s.pair()
	}
	if idOf(a.P.KP) == idOf(b.P.KP) {
		return
	}
	var m *Msg
	for n := 0; n < 30; n++ {
		if m = s.fresh(t); m == nil {
			return
		}
		if idOf(m.To.P.KP) != idOf(m.From.P.KP) && m.To.P.rawRecord(m.From.Addr) != nil && m.To.P.rawRecord(m.From.Addr).State() != nil && m.Typ == message.WhisperType {
			break
		}
		m = nil
	}
	if m == nil {
		return
	}
	n := m.To
	bad := [][]byte{nil, {}, make([]byte, 1), make([]byte, 16), make([]byte, 31)}
	long := make([]byte, 34)
	base := structOf(n.P.rawRecord(m.From.Addr).State())
	probe := func(what string, mustFailSend, mustFailRecv bool, change func(st *v1.SessionStructure)) {
		st := proto.Clone(base).(*v1.SessionStructure)
		change(st)
		r, err := session.NewRecordBytes(must(proto.Marshal(st)))
		if err != nil {
			t.Count("malformed stored keys refused", 1)
			return
		}
		q := n.P.fork()
		q.St.in.SessionStore().Store(ctx, m.From.Addr, r)
		t.Eval()
		pt, err := q.receive(m.From.Addr, m.Typ, m.Wire)
		t.Logf("%s: receive -> %v", what, err)
		if mustFailRecv && err == nil {
			t.Violate("a session with %s still decrypts (%x)", what, pt)
		}
		q = n.P.fork()
		r, _ = session.NewRecordBytes(must(proto.Marshal(st)))
		q.St.in.SessionStore().Store(ctx, m.From.Addr, r)
		_, err = q.Session(m.From.Addr).EncryptMessage(ctx, []byte("x"))
		t.Logf("%s: send -> %v", what, err)
		if mustFailSend && err == nil {
			t.Violate("a session with %s still encrypts", what)
		}
		t.Count("malformed stored keys refused", 1)
		t.Seen(what)
	}
	// which chain does m use?
	sm := must(message.NewSignalFromBytes(clone(m.Inner))).(*message.Signal)
	newChain := true
	for _, c := range base.ReceiverChains {
		if bytes.Equal(c.SenderRatchetKey, sm.SenderRatchetKey().Bytes()) {
			newChain = false
		}
	}
	for _, w := range append(bad, long, make([]byte, 33)) {
		l := len(w)
		probe(fmt.Sprintf("a root key of %d bytes (new chain %v)", l, newChain), false, newChain, func(st *v1.SessionStructure) { st.RootKey = w })
		probe(fmt.Sprintf("a sending chain key of %d bytes", l), true, false, func(st *v1.SessionStructure) { st.SenderChain.ChainKey.Key = w })
		probe(fmt.Sprintf("a ratchet private key of %d bytes", l), false, newChain, func(st *v1.SessionStructure) { st.SenderChain.SenderRatchetKeyPrivate = w })
		probe(fmt.Sprintf("receiving chain keys of %d bytes", l), false, false, func(st *v1.SessionStructure) {
			for _, c := range st.ReceiverChains {
				c.ChainKey.Key = w
				for _, k := range c.MessageKeys {
					k.CipherKey, k.MacKey, k.Iv = w, w, w
				}
			}
		})
		if l < 33 {
			probe(fmt.Sprintf("a ratchet public key of %d bytes", l), true, false, func(st *v1.SessionStructure) { st.SenderChain.SenderRatchetKey = w })
			probe(fmt.Sprintf("a remote identity key of %d bytes", l), true, true, func(st *v1.SessionStructure) { st.RemoteIdentityPublic = w })
			probe(fmt.Sprintf("a local identity key of %d bytes", l), true, true, func(st *v1.SessionStructure) { st.LocalIdentityPublic = w })
			probe(fmt.Sprintf("a pending base key of %d bytes", l), true, false, func(st *v1.SessionStructure) {
				st.PendingPreKey = &v1.SessionStructure_PendingPreKey{BaseKey: w, SignedPreKeyId: 1}
			})
		}
	}
	wrong := append([]byte{6}, m.From.P.KP.PublicKey().KeyBytes()...)
	probe("a remote identity key of unknown type", true, true, func(st *v1.SessionStructure) { st.RemoteIdentityPublic = wrong })
	probe("a local identity key of unknown type", true, true, func(st *v1.SessionStructure) { st.LocalIdentityPublic = wrong })
	probe("no sending chain", true, true, func(st *v1.SessionStructure) { st.SenderChain = nil })
	probe("a sending chain without chain key", true, false, func(st *v1.SessionStructure) { st.SenderChain.ChainKey = nil })
	for _, v := range []uint32{0, 1, 2, 4, 5, 19, 1 << 31} {
		probe(fmt.Sprintf("version %d", v), false, true, func(st *v1.SessionStructure) { st.SessionVersion = v })
	}
}

// versions14: well-formed messages of every other version are refused.
func versions14(t *T, i int) {
	e := newEnv14(t)
	p := e.s.Nodes[0].P
	for v := 0; v < 16; v++ {
		for _, low := range []byte{3, byte(v)} {
			for x, b := range e.corpus {
				if v == 3 || len(b) == 0 || t.Rng.IntN(4) > 0 {
					continue
				}
				w := clone(b)
				w[0] = byte(v)<<4 | low
				var err error
				switch e.kinds[x] {
				case "Signal":
					_, err = message.NewSignalFromBytes(w)
				case "PreKey":
					_, err = message.NewPreKeyFromBytes(w)
				case "SenderKey":
					_, err = message.NewSenderKeyFromBytes(w)
				case "SKD":
					_, err = message.NewSenderKeyDistributionFromBytes(w)
				default:
					continue
				}
				t.Eval()
				if err == nil {
					t.Violate("a %s message of version %d (first byte %#x) was accepted", e.kinds[x], v, w[0])
				}
				t.Count("unsupported versions refused", 1)
			}
		}
	}
	// group state of another version
	for _, v := range []uint8{1, 2, 4, 200} {
		kp := must(curve.GenerateKeyPair(t.R))
		d := newDist(t)
		mk := func(ver uint8) *session.GroupRecord {
			r := session.NewGroupRecord()
			r.AddState(session.NewGroupState(session.GroupStateConfig{MessageVersion: ver, ChainID: 4, ChainKey: make([]byte, 32), SignatureKey: kp.PublicKey(), SignaturePrivateKey: kp.PrivateKey()}))
			return r
		}
		from := address.Address{Name: "s", DeviceID: 1}
		q := p.fork()
		q.St.in.GroupStore().Store(ctx, from, d, mk(3))
		m, err := q.Group(from, d).EncryptMessage(ctx, t.R, []byte("x"))
		if err != nil {
			t.Skip("%v", err)
		}
		o := p.fork()
		o.St.in.GroupStore().Store(ctx, from, d, mk(v))
		t.Eval()
		if _, err := o.Group(from, d).DecryptMessage(ctx, must(message.NewSenderKeyFromBytes(clone(m.Bytes())))); err == nil {
			t.Violate("a group message of version 3 was decrypted by a sender key of version %d", v)
		}
		t.Count("unsupported versions refused", 1)
	}
	t.Seen("versions", i)
}

// points14: low-order and other unusual points in every place of handshakes, messages and bundles that holds a key.
func points14(t *T, i int) {
	oneTime, had := i%2 == 0, i/2%2 == 0
	p, o := newParty(t, "bob", 1), newParty(t, "carol", 1)
	from := address.Address{Name: "alice", DeviceID: 1}
	id := ref.GenKP(t.R)
	var old *ref.Session
	if had { // there is a session already
		var err error
		old, err = ref.NewAlice(t.R, id, 7, refBundle(p.Bundle(i/4%2 == 0)))
		if err != nil {
			t.Skip("reference: %v", err)
		}
		typ, w := old.Encrypt([]byte("hello"))
		if _, err := p.receive(from, message.CiphertextType(typ), w); err != nil {
			t.Skip("handshake: %v", err)
		}
		if i/8%2 == 0 {
			if ct, err := p.Session(from).EncryptMessage(ctx, []byte("back")); err == nil {
				old.Decrypt(inner(ct.Type(), ct.Bytes()))
			}
		}
	}
	hs, err := ref.NewAlice(t.R, id, 7, refBundle(p.Bundle(oneTime)))
	if err != nil {
		t.Skip("reference: %v", err)
	}
	_, w := hs.Encrypt([]byte("hello"))
	pm, err := ref.ParsePreKey(w)
	if err != nil {
		t.Skip("reference: %v", err)
	}
	for j, pt := range oddPoints {
		key := append([]byte{5}, pt...)
		low := j >= len(oddPoints)-len(lowOrder)
		give := func(what string, mustFail bool, f func(q *Party) error) {
			q := p.fork()
			t.Eval()
			err := f(q)
			t.Logf("%s %x: %v", what, key, err)
			t.Count("unusual points presented", 1)
			t.Seen("point", what, j, had, oneTime, err == nil)
			if mustFail && err == nil {
				t.Violate("%s %x was accepted", what, key)
			}
		}
		alter := func(f func(m *ref.PreKeyMsg)) func(q *Party) error {
			m := *pm
			f(&m)
			w := ref.EncodePreKey(&m)
			return func(q *Party) error {
				pt, err := q.receive(from, message.PreKeyType, w)
				if err == nil {
					t.Logf("plaintext %x", pt)
				}
				return err
			}
		}
		give("base key", low, alter(func(m *ref.PreKeyMsg) { m.BaseKey = key }))
		give("identity key", low, alter(func(m *ref.PreKeyMsg) { m.IdentityKey = key }))
		give("identity and base key", low, alter(func(m *ref.PreKeyMsg) { m.IdentityKey, m.BaseKey = key, key }))
		sig := func(from []byte) []byte {
			sm, err := ref.ParseSignal(from)
			if err != nil {
				t.Skip("%v", err)
			}
			return append(ref.EncodeSignalBody(key, sm.Counter, sm.Prev, sm.Ciphertext), sm.MAC...)
		}
		give("ratchet key of a first message", low, alter(func(m *ref.PreKeyMsg) { m.Message = sig(m.Message) }))
		if had {
			typ, w := old.Encrypt([]byte("next"))
			in := sig(inner(message.CiphertextType(typ), w))
			give("ratchet key", low, func(q *Party) error { _, err := q.receive(from, message.WhisperType, in); return err })
		}
		pk, err := curve.NewPublicKey(key)
		if err != nil {
			continue
		}
		ik, err := identity.NewKey(key)
		if err != nil {
			continue
		}
		bundle := func(f func(b *prekey.Bundle)) func(q *Party) error {
			b := o.Bundle(oneTime)
			f(b)
			return func(q *Party) error {
				if err := q.Session(o.Addr).ProcessPreKeyBundle(ctx, t.R, b); err != nil {
					return err
				}
				_, err := q.Session(o.Addr).EncryptMessage(ctx, []byte("x"))
				return err
			}
		}
		give("identity key of a bundle", true, bundle(func(b *prekey.Bundle) { b.IdentityKey = ik }))
		give("signed pre-key of a bundle", low, bundle(func(b *prekey.Bundle) {
			b.SignedPreKeyPublic = pk
			b.SignedPreKeySignature = must(o.KP.PrivateKey().Sign(t.R, key))
		}))
		if oneTime {
			give("one-time pre-key of a bundle", low, bundle(func(b *prekey.Bundle) { b.PreKeyPublic = pk }))
		}
		give("verification", false, func(q *Party) error {
			for _, s := range [][]byte{make([]byte, 64), must(o.KP.PrivateKey().Sign(t.R, key)), append(append([]byte{}, pt...), make([]byte, 32)...)} {
				if _, err := pk.VerifySignature(s, key); err != nil {
					return err
				}
				if _, err := ik.VerifyAlternateIdentity(s, ik); err != nil {
					return err
				}
			}
			return nil
		})
		for _, it := range []uint32{2, 5200} {
			give("fingerprint", false, func(q *Party) error {
				_, err := fingerprint.New(2, it, []byte("a"), ik, []byte("b"), o.KP.IdentityKey())
				return err
			})
		}
	}
}

// everyField calls f with b, a protobuf message, after each of a fixed set of changes to each of its fields.
func everyField(b []byte, f func([]byte)) {
	fs, err := ref.ParseFields(b)
	if err != nil {
		return
	}
	with := func(g []ref.Field) { f(encodeFields(g)) }
	cut := func(i int) []ref.Field { return append(append([]ref.Field(nil), fs[:i]...), fs[i+1:]...) }
	set := func(i int, x ref.Field) []ref.Field {
		g := append([]ref.Field(nil), fs...)
		g[i] = x
		return g
	}
	f(nil)
	for i, x := range fs {
		with(cut(i))
		with([]ref.Field{x})
		with(append(append([]ref.Field(nil), fs...), x))
		for j := range fs {
			if j < i {
				g := cut(i)
				with(append(append([]ref.Field(nil), g[:j]...), g[j+1:]...))
			}
		}
		for _, w := range []int{0, 1, 2, 3, 5} {
			if w != x.Wire {
				y := x
				y.Wire = w
				with(set(i, y))
			}
		}
		y := x
		if x.Wire == 0 {
			for _, n := range hugeNums {
				if n > 5000 && n < 30_000 && len(fs) > 2 && i%2 == 0 {
					continue // slow, and met elsewhere
				}
				y.Num = n
				with(set(i, y))
			}
			continue
		}
		for _, n := range []int{0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 35, 36, 37, 63, 64, 65} {
			for _, v := range []byte{0, 5, 0xff} {
				y.Bytes = bytes.Repeat([]byte{v}, n)
				if n > 0 {
					if v == 5 {
						y.Bytes = append([]byte{5}, make([]byte, n-1)...)
					} else if n > 1 && len(x.Bytes) > 0 {
						y.Bytes[0] = x.Bytes[0]
					}
				}
				with(set(i, y))
				with(append(append([]ref.Field(nil), fs...), y))
			}
		}
		for _, n := range []int{1, 2, 8, len(x.Bytes) / 2, len(x.Bytes) - 1} {
			if n >= 0 && n < len(x.Bytes) {
				y.Bytes = x.Bytes[:n]
				with(set(i, y))
				y.Bytes = x.Bytes[len(x.Bytes)-n:]
				with(set(i, y))
			}
		}
		y.Bytes = append(clone(x.Bytes), x.Bytes...)
		with(set(i, y))
	}
}

// fields14: every field of genuine items is dropped, doubled, emptied, resized and retyped.
func fields14(t *T, i int) {
	e := newEnv14(t)
	done := map[string]int{}
	for _, x := range t.Rng.Perm(len(e.corpus)) {
		b, kind := e.corpus[x], e.kinds[x]
		tail, ok := map[string]int{"Signal": 8, "PreKey": 0, "SKD": 0, "SenderKey": 64}[kind]
		if !ok || done[kind] >= 2 || len(b) > 600 {
			continue
		}
		done[kind]++
		feed := map[string]func([]byte){"Signal": e.feedSignal, "PreKey": e.feedPreKey, "SKD": e.feedSKD, "SenderKey": e.feedSenderKey}[kind]
		present := func(w []byte) {
			t.log = append(t.log[:0], fmt.Sprintf("input %x", w))
			feed(clone(w))
			t.Count("field changes presented", 1)
		}
		everyField(b[1:len(b)-tail], func(m []byte) {
			present(append(append(clone(b[:1]), m...), b[len(b)-tail:]...))
		})
		if kind == "PreKey" {
			pm, err := ref.ParsePreKey(b)
			if err != nil {
				t.Skip("%v", err)
			}
			in := pm.Message
			everyField(in[1:len(in)-8], func(m []byte) {
				q := *pm
				q.Message = append(append(clone(in[:1]), m...), in[len(in)-8:]...)
				present(ref.EncodePreKey(&q))
			})
		}
		t.Count("items with a field changed in every way", 1)
	}
	for _, x := range t.Rng.Perm(len(e.corpus)) {
		if b := e.corpus[x]; e.kinds[x] == "Scan" {
			everyField(b, func(m []byte) {
				t.log = append(t.log[:0], fmt.Sprintf("input %x", m))
				_, err := e.scan.Compare(clone(m))
				e.note("scannable compare", m, err)
			})
			break
		}
	}
}

// badPlain are final blocks whose padding is certainly wrong.
var badPlain = [][]byte{
	make([]byte, 16),
	append(make([]byte, 15), 17),
	append(make([]byte, 15), 255),
	append(make([]byte, 14), 3, 2),
	append(make([]byte, 1), bytes.Repeat([]byte{16}, 15)...),
	append(make([]byte, 16), append(make([]byte, 15), 32)...),
	make([]byte, 64),
}

// insider: a peer that holds the keys sends correctly authenticated messages with undecryptable contents at various
// points of a session; present makes each call. Later proper messages are accepted.
func insider(t *T, i int, present func(p *Party, what string, f func() ([]byte, error)), fail func(string, ...any)) {
	p := newParty(t, "bob", 1)
	from := address.Address{Name: "alice", DeviceID: 1}
	p.know(from)
	rs, err := ref.NewAlice(t.R, ref.GenKP(t.R), 7, refBundle(p.Bundle(i%2 == 0)))
	if err != nil {
		t.Skip("reference: %v", err)
	}
	proper := func() {
		typ, w := rs.Encrypt([]byte("proper"))
		if pt, err := p.receive(from, message.CiphertextType(typ), w); err != nil || string(pt) != "proper" {
			fail("a proper message after undecryptable ones gives %q, %v", pt, err)
		}
		t.Eval()
	}
	bad := func(where string) {
		for j := 0; j < 9+len(badPlain); j++ {
			typ, w := rs.Craft(func(k ref.MsgKeys) []byte {
				if j < len(badPlain) {
					return ref.CBCRaw(k.Cipher, k.IV, badPlain[j])
				}
				return randBytes(t, []int{0, 1, 7, 15, 17, 31, 33, 63, 100}[j-len(badPlain)])
			}, nil, uint32(hugeNums[t.Rng.IntN(len(hugeNums))]))
			t.Eval()
			t.Count("messages of a misbehaving peer", 1)
			t.Seen("insider", where, j, typ)
			present(p, fmt.Sprintf("a correctly authenticated message with undecryptable contents (%s, kind %d)", where, j), func() ([]byte, error) {
				return p.receive(from, message.CiphertextType(typ), w)
			})
		}
	}
	if i%3 == 0 {
		bad("handshake")
	}
	proper()
	bad("same chain")
	rs.Skip([]int{1, 30, 1999, 2500}[i%4])
	bad("ahead")
	proper()
	for r := 0; r < 1+i%7; r++ {
		ct, err := p.Session(from).EncryptMessage(ctx, []byte("back"))
		if err != nil {
			t.Skip("%v", err)
		}
		if _, err := rs.Decrypt(inner(ct.Type(), ct.Bytes())); err != nil {
			t.Skip("%v", err)
		}
		if r%2 == 0 {
			bad("new chain")
		}
		proper()
	}
}
