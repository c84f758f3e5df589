package main

import (
	"bytes"
	"fmt"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:   "C07",
		Rule: "Conversations between the library and an independently written X3DH/Double Ratchet/XEdDSA peer under random schedules (reordering, loss, both directions, both roles), plus direct comparison of the exported key-derivation functions with the reference; a case is distinct by role, pre-key use and its sequence of ratchet steps, jumps and late deliveries.",
		Run:  runC07,
		Assume: []string{
			"the reference peer in harness/ref follows the published specifications; it is itself checked against standard vectors (ref_test.go) and Go's crypto library",
		},
	})
}

func runC07(c *C) {
	c.Cases("interop", c.N(900, 9000), interop07)
	c.Cases("raw-sessions", c.N(400, 4000), raw07)
	c.Cases("kdf", c.N(60, 2000), kdf07)
	c.Cases("window", c.N(6, 40), window07)
	c.Cases("far", c.N(136, 1200), far07)
	c.Cases("sizes", c.N(24, 60), sizes07)
	c.Require("library messages opened by the reference", 1000)
	c.Require("reference messages opened by the library", 1000)
	c.Require("ratchet steps of the library", 200)
	c.Require("late deliveries", 100)
}

func refKP(t *T, priv curve.PrivateKey) ref.KP { return ref.KPFrom(priv.Bytes()) }

// libSide tracks what the specification prescribes for the library's next message.
type libSide struct {
	sendN, prevN uint32
	ratchet      []byte // current ratchet key, nil until seen
	past         map[string]bool
	seen         map[string]bool // remote ratchet keys already answered
	chains       []string        // the receiving chains within the retention limit
}

func (l *libSide) chain(rk []byte) {
	l.seen[string(rk)] = true
	l.chains = append(l.chains, string(rk))
	if len(l.chains) > modelMaxChains {
		l.chains = l.chains[1:]
	}
}

// expired reports whether the chain of rk is beyond the retention limit.
func (l *libSide) expired(rk []byte) bool {
	if !l.seen[string(rk)] {
		return false
	}
	for _, c := range l.chains {
		if c == string(rk) {
			return false
		}
	}
	return true
}

func (l *libSide) accepted(rk []byte) bool {
	if l.seen[string(rk)] {
		return false
	}
	l.chain(rk)
	if l.ratchet != nil {
		l.past[string(l.ratchet)] = true
	}
	l.prevN = 0
	if l.sendN > 0 {
		l.prevN = l.sendN - 1
	}
	l.sendN = 0
	l.ratchet = nil
	return true
}

// emitted checks the header of a library message against the prescription.
func (l *libSide) emitted(t *T, wire []byte) *ref.SignalMsg {
	m, err := ref.ParseSignal(wire)
	if err != nil {
		t.Violate("the library emitted a message which is not a version-3 Signal message: %v (%x)", err, wire)
	}
	t.Eval()
	if m.VersionByte != 0x33 {
		t.Violate("emitted version byte %#x, not 0x33", m.VersionByte)
	}
	if m.Extra {
		t.Violate("emitted message has unknown fields: %x", wire)
	}
	if !m.HasCounter || m.Counter != l.sendN {
		t.Violate("emitted message number %d (present %v), the schedule prescribes %d", m.Counter, m.HasCounter, l.sendN)
	}
	if !m.HasPrev || m.Prev != l.prevN {
		t.Violate("emitted previous-chain counter %d (present %v), the schedule prescribes %d", m.Prev, m.HasPrev, l.prevN)
	}
	if l.ratchet == nil {
		if l.past[string(m.RatchetKey)] {
			t.Violate("ratchet key %x used again after a ratchet step", m.RatchetKey)
		}
		l.ratchet = clone(m.RatchetKey)
	} else if !bytes.Equal(l.ratchet, m.RatchetKey) {
		t.Violate("ratchet key changed to %x without a ratchet step", m.RatchetKey)
	}
	l.sendN++
	return m
}

type flight07 struct {
	wire  []byte
	typ   int
	plain []byte
	fresh bool
}

// talk07 runs a schedule between the library (send, recv) and the reference session rs. rs is nil until the
// reference, as responder, has seen the first message: start then builds it.
func talk07(t *T, lib *libSide, libSend func(pt []byte) (message.Ciphertext, error), libRecv func(typ message.CiphertextType, wire []byte) ([]byte, error),
	rs *ref.Session, start func(m *ref.PreKeyMsg) *ref.Session, libFirst bool, ops int) {
	var toRef, toLib []*flight07
	var trail bytes.Buffer
	canLib := libFirst
	order := t.Rng.IntN(3)
	idx := func(n int) int {
		switch order {
		case 0:
			return 0
		case 1:
			return t.Rng.IntN(n)
		}
		if t.Rng.IntN(3) > 0 {
			return 0
		}
		return t.Rng.IntN(n)
	}
	lastRef := uint32(0)
	for op := 0; op < ops; op++ {
		switch k := t.Rng.IntN(100); {
		case k < 26 && canLib:
			pt := plaintextOf(t.Rng, t.R)
			ct, err := libSend(pt)
			if err != nil {
				t.Violate("the library cannot send: %v", err)
			}
			w := clone(ct.Bytes())
			in := inner(ct.Type(), w)
			m := lib.emitted(t, in)
			t.Logf("library sends #%d (prev %d) ratchet %x, type %d, %d bytes", m.Counter, m.Prev, m.RatchetKey[:5], ct.Type(), len(pt))
			toRef = append(toRef, &flight07{wire: w, typ: int(ct.Type()), plain: pt})
			trail.WriteByte('s')
		case k < 52 && rs != nil:
			if t.Rng.IntN(12) == 0 {
				n := 1 + t.Rng.IntN(60)
				rs.Skip(n)
				t.Logf("reference loses %d messages", n)
			}
			pt := plaintextOf(t.Rng, t.R)
			typ, w := rs.Encrypt(pt)
			t.Logf("reference sends #%d type %d", rs.SendN-1, typ)
			toLib = append(toLib, &flight07{wire: w, typ: typ, plain: pt})
		case k < 76 && len(toRef) > 0:
			i := idx(len(toRef))
			f := toRef[i]
			toRef = append(toRef[:i:i], toRef[i+1:]...)
			if t.Rng.IntN(12) == 0 {
				continue // lost
			}
			in := inner(message.CiphertextType(f.typ), f.wire)
			if rs == nil {
				pm, err := ref.ParsePreKey(f.wire)
				if f.typ != int(message.PreKeyType) || err != nil {
					t.Violate("a message sent before any reply carries no handshake (%v)", err)
				}
				rs = start(pm)
			}
			m, _ := ref.ParseSignal(in)
			pt, err := rs.Decrypt(in)
			t.Eval()
			if err != nil {
				t.Violate("the reference peer cannot open the library's message #%d: %v", m.Counter, err)
			}
			if !bytes.Equal(pt, f.plain) {
				t.Violate("the reference peer reads %x, the library encrypted %x", pt, f.plain)
			}
			if want := ref.CBCEncrypt(rs.LastKeys.Cipher, rs.LastKeys.IV, f.plain); !bytes.Equal(want, m.Ciphertext) {
				t.Violate("ciphertext %x, the key schedule prescribes %x", m.Ciphertext, want)
			}
			if m.Counter < lastRef {
				t.Count("late deliveries", 1)
			}
			lastRef = m.Counter
			t.Count("library messages opened by the reference", 1)
		case k < 98 && len(toLib) > 0:
			i := idx(len(toLib))
			f := toLib[i]
			toLib = append(toLib[:i:i], toLib[i+1:]...)
			if t.Rng.IntN(12) == 0 {
				continue
			}
			typ, w := message.CiphertextType(f.typ), f.wire
			m, err := ref.ParseSignal(inner(typ, w))
			if err != nil {
				t.Skip("reference made a bad message: %v", err)
			}
			if lib.expired(m.RatchetKey) {
				continue
			}
			pt, err := libRecv(typ, w)
			t.Eval()
			t.Logf("library receives #%d -> %v", m.Counter, err)
			if err != nil {
				t.Violate("the library cannot open the reference peer's message #%d (type %d): %v", m.Counter, typ, err)
			}
			if !bytes.Equal(pt, f.plain) {
				t.Violate("the library reads %x, the reference peer encrypted %x", pt, f.plain)
			}
			if lib.accepted(m.RatchetKey) {
				t.Count("ratchet steps of the library", 1)
				trail.WriteByte('R')
			} else {
				fmt.Fprintf(&trail, "d%d,", m.Counter)
			}
			canLib = true
			t.Count("reference messages opened by the library", 1)
		}
	}
	t.Seen(trail.Bytes(), libFirst)
	if t.wantSample() {
		t.Sample(map[string]any{"case": t.Name, "library_first": libFirst, "events": tail(t.log, 12)})
	}
}

func newLibSide() *libSide { return &libSide{past: map[string]bool{}, seen: map[string]bool{}} }

func interop07(t *T, i int) {
	p := newParty(t, "lib", 1)
	id := ref.GenKP(t.R)
	if i%9 == 8 { // another device with the same identity key
		id = refKP(t, p.KP.PrivateKey())
	}
	reg := anyID(t)
	peer := address.Address{Name: "ref", DeviceID: 1}
	send := func(pt []byte) (message.Ciphertext, error) { return p.Session(peer).EncryptMessage(ctx, pt) }
	recv := func(typ message.CiphertextType, w []byte) ([]byte, error) { return p.receive(peer, typ, w) }
	if t.Rng.IntN(3) == 0 {
		p.St.persist = map[address.Address]savedRecord{}
	}
	ops := 40 + t.Rng.IntN(160)
	lib := newLibSide()
	if i%2 == 0 { // the library starts
		spk, opk := ref.GenKP(t.R), ref.GenKP(t.R)
		sig := ref.XSign(id.Priv, spk.Pub, randBytes(t, 64))
		b := &prekey.Bundle{RegistrationID: reg, DeviceID: 1, SignedPreKeyID: prekey.ID(anyID(t)), SignedPreKeyPublic: must(curve.NewPublicKey(spk.Pub)), SignedPreKeySignature: sig, IdentityKey: must(identity.NewKey(id.Pub))}
		one := i%4 == 0
		if one {
			pid := prekey.ID(anyID(t) | 1)
			b.PreKeyID, b.PreKeyPublic = &pid, must(curve.NewPublicKey(opk.Pub))
		}
		if err := p.Session(peer).ProcessPreKeyBundle(ctx, p.R, b); err != nil {
			t.Violate("the library refuses the reference peer's genuine bundle: %v", err)
		}
		t.Logf("library starts, one-time pre-key %v", one)
		lib.chain(spk.Pub)
		talk07(t, lib, send, recv, nil, func(m *ref.PreKeyMsg) *ref.Session {
			if m.VersionByte != 0x33 {
				t.Violate("handshake version byte %#x, not 0x33", m.VersionByte)
			}
			if len(m.BaseKey) != 33 || len(m.IdentityKey) != 33 {
				t.Violate("handshake carries malformed keys")
			}
			o := &opk
			if !one {
				o = nil
			}
			return ref.NewBob(t.R, id, reg, spk, o, m.IdentityKey, m.BaseKey)
		}, true, ops)
		return
	}
	b := p.Bundle(i%4 == 1)
	rs, err := ref.NewAlice(t.R, id, reg, refBundle(b))
	if err != nil {
		t.Violate("the reference peer refuses the library's bundle: %v", err)
	}
	t.Logf("reference starts, one-time pre-key %v", b.PreKeyID != nil)
	lib.ratchet = clone(b.SignedPreKeyPublic.Bytes())
	talk07(t, lib, send, recv, rs, nil, false, ops)
}

// raw07 uses the exported constructors of session records; the responder may then send first.
func raw07(t *T, i int) {
	p := newParty(t, "lib", 1)
	id := ref.GenKP(t.R)
	peer := address.Address{Name: "ref", DeviceID: 1}
	send := func(pt []byte) (message.Ciphertext, error) { return p.Session(peer).EncryptMessage(ctx, pt) }
	recv := func(typ message.CiphertextType, w []byte) ([]byte, error) { return p.receive(peer, typ, w) }
	base := ref.GenKP(t.R)
	lib := newLibSide()
	one := i%4 < 2
	libOf := func(k ref.KP) *curve.KeyPair { return must(curve.NewKeyPair(k.Priv, k.Pub)) }
	var rs *ref.Session
	var rec *session.Record
	var err error
	ops := 30 + t.Rng.IntN(80)
	spk, opk := ref.GenKP(t.R), ref.GenKP(t.R)
	mine := refKP(t, p.KP.PrivateKey())
	if i%2 == 0 { // library is the initiator
		par := &ratchet.AliceParameters{OurIdentityKeyPair: p.KP, OurBaseKeyPair: libOf(base), TheirIdentityKey: must(identity.NewKey(id.Pub)),
			TheirSignedPreKey: must(curve.NewPublicKey(spk.Pub)), TheirRatchetKey: must(curve.NewPublicKey(spk.Pub))}
		o := &opk
		if one {
			par.TheirOneTimePreKey = must(curve.NewPublicKey(opk.Pub))
		} else {
			o = nil
		}
		rec, err = session.InitializeAliceSessionRecord(p.R, par)
		rs = ref.NewBob(t.R, id, 1, spk, o, mine.Pub, base.Pub)
		lib.chain(spk.Pub)
	} else {
		par := &ratchet.BobParameters{OurIdentityKeyPair: p.KP, OurSignedPreKeyPair: libOf(spk), OurRatchetKeyPair: libOf(spk), TheirIdentityKey: must(identity.NewKey(id.Pub)), TheirBaseKey: must(curve.NewPublicKey(base.Pub))}
		dhs := [][]byte{must(ref.DH(id.Priv, spk.Pub)), must(ref.DH(base.Priv, mine.Pub)), must(ref.DH(base.Priv, spk.Pub))}
		if one {
			par.OurOneTimePreKeyPair = libOf(opk)
			dhs = append(dhs, must(ref.DH(base.Priv, opk.Pub)))
		}
		rec, err = session.InitializeBobSessionRecord(par)
		rs = ref.AliceFromDH(t.R, base, id.Pub, 1, &ref.Bundle{SignedKey: spk.Pub, Identity: mine.Pub}, dhs)
		rs.Pending = nil
		lib.ratchet = clone(spk.Pub)
	}
	if err != nil {
		t.Violate("cannot initialize the session record: %v", err)
	}
	if err := p.St.in.SessionStore().Store(ctx, peer, rec); err != nil {
		t.Skip("store: %v", err)
	}
	talk07(t, lib, send, recv, rs, nil, true, ops)
}

func eq07(t *T, what string, got, want []byte) {
	t.Eval()
	if !bytes.Equal(got, want) {
		t.Violate("%s: library %x, specification %x", what, got, want)
	}
}

// kdf07 compares the exported derivations with the reference.
func kdf07(t *T, i int) {
	key := randBytes(t, 32)
	n := anyID(t)
	ck, err := ratchet.NewChainKey(clone(key), n)
	if err != nil {
		t.Violate("NewChainKey: %v", err)
	}
	rk := key
	for k := 0; k < 6; k++ {
		mk, err := ck.MessageKeys()
		if err != nil {
			t.Violate("MessageKeys: %v", err)
		}
		want := ref.MessageKeys(rk)
		eq07(t, "cipher key", mk.CipherKey(), want.Cipher)
		eq07(t, "MAC key", mk.MACKey(), want.MAC)
		eq07(t, "IV", mk.IV(), want.IV)
		if mk.Counter() != n+uint32(k) || ck.Index() != n+uint32(k) {
			t.Violate("counter %d, index %d, expected %d", mk.Counter(), ck.Index(), n+uint32(k))
		}
		ck, rk = ck.Next(), ref.NextChain(rk)
		eq07(t, "chain key", ck.Key(), rk)
	}
	a, b := ref.GenKP(t.R), ref.GenKP(t.R)
	root := randBytes(t, 32)
	lr, err := ratchet.NewRootKey(clone(root))
	if err != nil {
		t.Violate("NewRootKey: %v", err)
	}
	nr, nc, err := lr.CreateChain(must(curve.NewPrivateKey(a.Priv)), must(curve.NewPublicKey(b.Pub)))
	if err != nil {
		t.Violate("CreateChain: %v", err)
	}
	dh := must(ref.DH(a.Priv, b.Pub))
	wr, wc := ref.RootStep(root, dh)
	eq07(t, "root key", nr.Bytes(), wr)
	eq07(t, "chain key of a ratchet step", nc.Key(), wc)
	if nc.Index() != 0 {
		t.Violate("a new chain starts at %d", nc.Index())
	}
	sec := randBytes(t, 128+32*(i%2))
	dr, dc, err := ratchet.DeriveKeys(sec)
	if err != nil {
		t.Violate("DeriveKeys: %v", err)
	}
	k := ref.HKDF(sec, nil, []byte("WhisperText"), 64)
	eq07(t, "initial root key", dr.Bytes(), k[:32])
	eq07(t, "initial chain key", dc.Key(), k[32:])
	ikm := randBytes(t, t.Rng.IntN(70))
	dm, err := ratchet.DeriveMessageKeys(ikm, n)
	if err != nil {
		t.Violate("DeriveMessageKeys: %v", err)
	}
	k = ref.HKDF(ikm, nil, []byte("WhisperMessageKeys"), 80)
	eq07(t, "derived message keys", append(append(clone(dm.CipherKey()), dm.MACKey()...), dm.IV()...), k)

	// the tag of a message
	mac := randBytes(t, 32)
	cipher := randBytes(t, 16*(1+t.Rng.IntN(4)))
	m, err := message.NewSignal(message.SignalConfig{Version: 3, MACKey: mac, SenderRatchetKey: must(curve.NewPublicKey(a.Pub)), PreviousCounter: anyID(t), Counter: n, Ciphertext: cipher,
		SenderIdentityKey: must(identity.NewKey(a.Pub)), ReceiverIdentityKey: must(identity.NewKey(b.Pub))})
	if err != nil {
		t.Violate("NewSignal: %v", err)
	}
	w := m.Bytes()
	if len(w) < 9 {
		t.Violate("message of %d bytes", len(w))
	}
	eq07(t, "tag", w[len(w)-8:], ref.HMAC(mac, a.Pub, b.Pub, w[:len(w)-8])[:8])
	t.Count("derivations compared", 1)
	t.Seen("kdf", i%2, n)
}

// window07 has the reference jump far ahead and then deliver what is still within the limits.
func window07(t *T, i int) {
	p := newParty(t, "lib", 1)
	peer := address.Address{Name: "ref", DeviceID: 1}
	b := p.Bundle(true)
	rs, err := ref.NewAlice(t.R, ref.GenKP(t.R), 1, refBundle(b))
	if err != nil {
		t.Violate("the reference peer refuses the library's bundle: %v", err)
	}
	jump := []int{1999, 2000, 2001, 24_999, 25_000, 5000}[i%6]
	type sent struct {
		typ  int
		wire []byte
		pt   []byte
	}
	var ms []sent
	for k := 0; k <= jump; k++ {
		if k == jump || jump-k <= 3 || jump-k == 1999 || jump-k == 2000 {
			pt := plaintextOf(t.Rng, t.R)
			typ, w := rs.Encrypt(pt)
			ms = append(ms, sent{typ, w, pt})
		} else {
			rs.Skip(1)
		}
	}
	for k := len(ms) - 1; k >= 0; k-- {
		pt, err := p.receive(peer, message.CiphertextType(ms[k].typ), ms[k].wire)
		t.Eval()
		if err != nil || !bytes.Equal(pt, ms[k].pt) {
			t.Violate("jump of %d: the library cannot open message %d of %d: %v", jump, k, len(ms), err)
		}
		t.Count("reference messages opened by the library", 1)
	}
	t.Seen("window", jump)
}

var bases07 = []uint32{126, 254, 255, 256, 16382, 32766, 65534, 65535, 65536, 1 << 20, 1<<24 - 2, 1<<24 + 3, 1<<31 - 3, 1 << 31, 1<<31 + 9, 1<<32 - 6000, 3 << 30}

// far07: a conversation goes on in chains that are already long, the numbers of both sides chosen independently.
func far07(t *T, i int) {
	p := newParty(t, "lib", 1)
	peer := address.Address{Name: "ref", DeviceID: 1}
	rs, err := ref.NewAlice(t.R, ref.GenKP(t.R), 1, refBundle(p.Bundle(i%2 == 0)))
	if err != nil {
		t.Violate("the reference peer refuses the library's bundle: %v", err)
	}
	send := func(pt []byte) (message.Ciphertext, error) { return p.Session(peer).EncryptMessage(ctx, pt) }
	recv := func(typ message.CiphertextType, w []byte) ([]byte, error) { return p.receive(peer, typ, w) }
	lib := newLibSide()
	for k := 0; k < 2+i%2; k++ {
		typ, w := rs.Encrypt([]byte("ping"))
		m, _ := ref.ParseSignal(inner(message.CiphertextType(typ), w))
		if _, err := recv(message.CiphertextType(typ), w); err != nil {
			t.Violate("the library cannot open the reference peer's message: %v", err)
		}
		lib.accepted(m.RatchetKey)
		ct, err := send([]byte("pong"))
		if err != nil {
			t.Violate("the library cannot send: %v", err)
		}
		in := inner(ct.Type(), clone(ct.Bytes()))
		lib.emitted(t, in)
		if _, err := rs.Decrypt(in); err != nil {
			t.Violate("the reference peer cannot open the library's message: %v", err)
		}
	}
	typ, w := rs.Encrypt([]byte("ping"))
	m, _ := ref.ParseSignal(inner(message.CiphertextType(typ), w))
	if _, err := recv(message.CiphertextType(typ), w); err != nil {
		t.Violate("the library cannot open the reference peer's message: %v", err)
	}
	lib.accepted(m.RatchetKey)
	ct, err := send([]byte("pong"))
	if err != nil {
		t.Violate("the library cannot send: %v", err)
	}
	in := inner(ct.Type(), clone(ct.Bytes()))
	lib.emitted(t, in)
	if i%4 == 3 { // the reference stays in its present sending chain
		if _, err := rs.Decrypt(in); err != nil {
			t.Violate("the reference peer cannot open the library's message: %v", err)
		}
		typ, w := rs.Encrypt([]byte("ping"))
		m, _ := ref.ParseSignal(inner(message.CiphertextType(typ), w))
		if _, err := recv(message.CiphertextType(typ), w); err != nil {
			t.Violate("the library cannot open the reference peer's message: %v", err)
		}
		lib.accepted(m.RatchetKey)
		lib.renumber(t, p, peer, rs, bases07[t.Rng.IntN(len(bases07))], 0, m.RatchetKey)
	} else {
		if _, err := rs.Decrypt(in); err != nil {
			t.Violate("the reference peer cannot open the library's message: %v", err)
		}
		lib.renumber(t, p, peer, rs, 0, bases07[i%len(bases07)], nil)
	}
	talk07(t, lib, send, recv, rs, nil, true, 60+t.Rng.IntN(100))
	t.Count("conversations at large message numbers", 1)
}

// renumber moves a pair of chains without outstanding messages to a large number on both sides: the chain from the
// reference (whose ratchet key is rk) to recv, or the one from the library to send.
func (l *libSide) renumber(t *T, p *Party, peer address.Address, rs *ref.Session, recv, send uint32, rk []byte) {
	r := p.rawRecord(peer)
	st := structOf(r.State())
	if rk != nil {
		found := false
		for _, c := range st.ReceiverChains {
			if bytes.Equal(c.SenderRatchetKey, rk) && len(c.MessageKeys) == 0 {
				c.ChainKey.Index = recv
				found = true
			}
		}
		if !found {
			t.Skip("no such chain")
		}
		rs.SendN = recv
	} else {
		rs.Renumber(rs.SendN, send)
		st.SenderChain.ChainKey.Index = send
		l.sendN = send
	}
	r.SetSessionState(session.NewState(st))
	if err := p.St.in.SessionStore().Store(ctx, peer, r); err != nil {
		t.Skip("store: %v", err)
	}
	t.Logf("chains at library %d, reference %d", st.SenderChain.ChainKey.Index, rs.SendN)
	t.Seen("far", recv, send)
}

// sizes07: messages of large and exact sizes in both directions.
func sizes07(t *T, i int) {
	p := newParty(t, "lib", 1)
	peer := address.Address{Name: "ref", DeviceID: 1}
	rs, err := ref.NewAlice(t.R, ref.GenKP(t.R), 1, refBundle(p.Bundle(i%2 == 0)))
	if err != nil {
		t.Violate("the reference peer refuses the library's bundle: %v", err)
	}
	n := 1<<(i%21) + i/21 - 1
	for k := 0; k < 3; k++ {
		pt := randBytes(t, n+[]int{0, -1, 1}[k]*min(1, n))
		typ, w := rs.Encrypt(pt)
		got, err := p.receive(peer, message.CiphertextType(typ), w)
		t.Eval()
		if err != nil || !bytes.Equal(got, pt) {
			t.Violate("the library opens the reference peer's message of %d bytes to %s, %v", len(pt), hexs(got), err)
		}
		ct, err := p.Session(peer).EncryptMessage(ctx, pt)
		if err != nil {
			t.Violate("the library cannot send %d bytes: %v", len(pt), err)
		}
		got, err = rs.Decrypt(inner(ct.Type(), ct.Bytes()))
		t.Eval()
		if err != nil || !bytes.Equal(got, pt) {
			t.Violate("the reference peer opens the library's message of %d bytes to %s, %v", len(pt), hexs(got), err)
		}
		t.Seen("size", len(pt))
		t.Count("library messages opened by the reference", 1)
		t.Count("reference messages opened by the library", 1)
	}
}
