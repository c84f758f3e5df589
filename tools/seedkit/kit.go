package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"io"
	"os"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/protocol"
	"github.com/RTann/libsignal-go/protocol/session"
)

var ctx = context.Background()

// fail reports that the property does not hold.
func fail(format string, args ...any) {
	fmt.Printf("BROKEN: "+format+"\n", args...)
	os.Exit(1)
}

func check(err error, what string) {
	if err != nil {
		fail("%s: %v", what, err)
	}
}

func must[A any](v A, err error) A {
	check(err, "unexpected error")
	return v
}

// stream is a deterministic random source.
type stream struct {
	seed string
	n    uint64
	buf  []byte
}

func rnd(seed string) io.Reader { return &stream{seed: seed} }

func (s *stream) Read(p []byte) (int, error) {
	for len(s.buf) < len(p) {
		b := binary.BigEndian.AppendUint64([]byte(s.seed+"/"), s.n)
		h := sha256.Sum256(b)
		s.n++
		s.buf = append(s.buf, h[:]...)
	}
	copy(p, s.buf[:len(p)])
	s.buf = s.buf[len(p):]
	return len(p), nil
}

type party struct {
	addr   address.Address
	id     identity.KeyPair
	st     protocol.Store
	r      io.Reader
	signed *curve.KeyPair
	sig    []byte
	next   prekey.ID
}

func newParty(name string) *party {
	p := &party{addr: address.Address{Name: name, DeviceID: 1}, r: rnd("party " + name), next: 1}
	kp := must(curve.GenerateKeyPair(p.r))
	p.id = identity.NewKeyPair(kp.PrivateKey(), must(identity.NewKey(kp.PublicKey().Bytes())))
	p.st = protocol.NewInMemStore(p.id, 4321)
	p.signed = must(curve.GenerateKeyPair(p.r))
	p.sig = must(p.id.PrivateKey().Sign(p.r, p.signed.PublicKey().Bytes()))
	check(p.st.SignedPreKeyStore().Store(ctx, 22, prekey.NewSigned(22, 1, p.signed, p.sig)), "store signed pre-key")
	return p
}

// bundle publishes a bundle, with a new one-time pre-key if wanted.
func (p *party) bundle(oneTime bool) *prekey.Bundle {
	b := &prekey.Bundle{RegistrationID: 4321, DeviceID: p.addr.DeviceID, SignedPreKeyID: 22, SignedPreKeyPublic: p.signed.PublicKey(), SignedPreKeySignature: p.sig, IdentityKey: p.id.IdentityKey()}
	if oneTime {
		id := p.next
		p.next++
		kp := must(curve.GenerateKeyPair(p.r))
		check(p.st.PreKeyStore().Store(ctx, id, prekey.NewPreKey(id, kp)), "store pre-key")
		b.PreKeyID, b.PreKeyPublic = &id, kp.PublicKey()
	}
	return b
}

func (p *party) with(q *party) *session.Session {
	return &session.Session{RemoteAddress: q.addr, SessionStore: p.st.SessionStore(), PreKeyStore: p.st.PreKeyStore(), SignedPreKeyStore: p.st.SignedPreKeyStore(), IdentityKeyStore: p.st.IdentityStore()}
}

// connect makes p establish a session with q.
func (p *party) connect(q *party, oneTime bool) {
	check(p.with(q).ProcessPreKeyBundle(ctx, p.r, q.bundle(oneTime)), "process bundle")
}

// parse parses a one-to-one message.
func parse(w []byte) (message.Ciphertext, error) {
	if m, err := message.NewPreKeyFromBytes(w); err == nil {
		return m, nil
	}
	return message.NewSignalFromBytes(w)
}

func (p *party) send(q *party, text string) []byte {
	m, err := p.with(q).EncryptMessage(ctx, []byte(text))
	check(err, "encrypt")
	return bytes.Clone(m.Bytes())
}

func (q *party) recv(p *party, w []byte) ([]byte, error) {
	m, err := parse(bytes.Clone(w))
	if err != nil {
		return nil, err
	}
	return q.with(p).DecryptMessage(ctx, q.r, m)
}

// gets requires that q decrypts the message to the text.
func (q *party) gets(p *party, w []byte, text string) {
	pt, err := q.recv(p, w)
	if err != nil {
		fail("%s refuses %q from %s: %v", q.addr, text, p.addr, err)
	}
	if string(pt) != text {
		fail("%s decrypts %q instead of %q", q.addr, pt, text)
	}
}

// talk exchanges a message in each direction, p first.
func talk(p, q *party) {
	q.gets(p, p.send(q, "ping"), "ping")
	p.gets(q, q.send(p, "pong"), "pong")
}

// record is the stored session of p with q.
func (p *party) record(q *party) *session.Record {
	r, ok, err := p.st.SessionStore().Load(ctx, q.addr)
	check(err, "load session")
	if !ok {
		fail("no session")
	}
	return r
}

var group = distribution.MustParse("d1d1d1d1-7000-11eb-b32a-33b8a8a487a6")

// in is p's view of the group messages sent by q.
func (p *party) in(q *party) *session.GroupSession {
	return &session.GroupSession{SenderAddress: q.addr, DistID: group, SenderKeyStore: p.st.GroupStore()}
}

func (p *party) issue() []byte {
	return bytes.Clone(must(p.in(p).NewSenderKeyDistribution(ctx, p.r)).Bytes())
}

func (q *party) join(p *party, skd []byte) {
	check(q.in(p).ProcessSenderKeyDistribution(ctx, must(message.NewSenderKeyDistributionFromBytes(bytes.Clone(skd)))), "process distribution")
}

func (p *party) say(text string) []byte {
	return bytes.Clone(must(p.in(p).EncryptMessage(ctx, p.r, []byte(text))).Bytes())
}

func (q *party) hear(p *party, w []byte) ([]byte, error) {
	m, err := message.NewSenderKeyFromBytes(bytes.Clone(w))
	if err != nil {
		return nil, err
	}
	return q.in(p).DecryptMessage(ctx, m)
}

func (q *party) hears(p *party, w []byte, text string) {
	pt, err := q.hear(p, w)
	if err != nil {
		fail("%s refuses %q from %s: %v", q.addr, text, p.addr, err)
	}
	if string(pt) != text {
		fail("%s decrypts %q instead of %q", q.addr, pt, text)
	}
}
