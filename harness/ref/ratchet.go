package ref

import (
	"bytes"
	"crypto/ecdh"
	"errors"
	"fmt"
	"io"
)

// KP is an X25519 key pair; Pub carries the 0x05 type byte.
type KP struct{ Priv, Pub []byte }

func GenKP(r io.Reader) KP {
	k := make([]byte, 32)
	if _, err := io.ReadFull(r, k); err != nil {
		panic(err)
	}
	return KPFrom(k)
}

func KPFrom(priv []byte) KP {
	k, err := ecdh.X25519().NewPrivateKey(priv)
	if err != nil {
		panic(err)
	}
	return KP{Priv: append([]byte(nil), priv...), Pub: append([]byte{5}, k.PublicKey().Bytes()...)}
}

// DH is X25519 (standard library) between a private key and a typed public key.
func DH(priv, pub []byte) ([]byte, error) {
	k, err := ecdh.X25519().NewPrivateKey(priv)
	if err != nil {
		return nil, err
	}
	p, err := ecdh.X25519().NewPublicKey(pub[1:])
	if err != nil {
		return nil, err
	}
	return k.ECDH(p)
}

func must(b []byte, err error) []byte {
	if err != nil {
		panic(err)
	}
	return b
}

// MsgKeys are the keys of one message.
type MsgKeys struct{ Cipher, MAC, IV []byte }

func MessageKeys(ck []byte) MsgKeys {
	k := HKDF(HMAC(ck, []byte{1}), nil, []byte("WhisperMessageKeys"), 80)
	return MsgKeys{k[:32], k[32:64], k[64:]}
}

func NextChain(ck []byte) []byte { return HMAC(ck, []byte{2}) }

// RootStep is the root KDF.
func RootStep(root, dh []byte) (newRoot, chain []byte) {
	k := HKDF(dh, root, []byte("WhisperRatchet"), 64)
	return k[:32], k[32:]
}

// X3DHSecret derives root and chain key from the DH outputs.
func X3DHSecret(dhs ...[]byte) (root, chain []byte) {
	s := bytes.Repeat([]byte{0xFF}, 32)
	for _, d := range dhs {
		s = append(s, d...)
	}
	k := HKDF(s, nil, []byte("WhisperText"), 64)
	return k[:32], k[32:]
}

type recvChain struct {
	pub     []byte
	ck      []byte
	n       uint32
	skipped map[uint32]MsgKeys
}

// Session is one Double Ratchet session of the reference peer.
type Session struct {
	Local, Remote []byte // identity public keys
	RegID         uint32
	root          []byte
	Send          KP
	sendCK        []byte
	SendN         uint32
	PrevN         uint32
	recv          []*recvChain
	Pending       *PreKeyMsg // wrapper template while unacknowledged
	BaseKey       []byte
	Rand          io.Reader
	LastKeys      MsgKeys
}

// Bundle is what an initiator needs.
type Bundle struct {
	RegID     uint32
	PreKeyID  *uint32
	PreKey    []byte
	SignedID  uint32
	SignedKey []byte
	Sig       []byte
	Identity  []byte
}

// NewAlice establishes an outgoing session.
func NewAlice(rand io.Reader, id KP, reg uint32, b *Bundle) (*Session, error) {
	if !XVerify(b.Identity[1:], b.SignedKey, b.Sig) {
		return nil, errors.New("ref: bad bundle signature")
	}
	return NewAliceUnchecked(rand, id, id.Pub, reg, b)
}

// NewAliceUnchecked skips the signature check and lets the caller claim another identity (for attacks).
func NewAliceUnchecked(rand io.Reader, id KP, claim []byte, reg uint32, b *Bundle) (*Session, error) {
	base := GenKP(rand)
	dhs := [][]byte{must(DH(id.Priv, b.SignedKey)), must(DH(base.Priv, b.Identity)), must(DH(base.Priv, b.SignedKey))}
	if b.PreKey != nil {
		dhs = append(dhs, must(DH(base.Priv, b.PreKey)))
	}
	return AliceFromDH(rand, base, claim, reg, b, dhs), nil
}

// AliceFromDH builds the initiator's session from given DH outputs.
func AliceFromDH(rand io.Reader, base KP, claim []byte, reg uint32, b *Bundle, dhs [][]byte) *Session {
	root, ck := X3DHSecret(dhs...)
	s := &Session{Local: claim, Remote: b.Identity, RegID: reg, Rand: rand, BaseKey: base.Pub}
	// the responder may send first, on the chain made from its signed pre-key
	s.recv = []*recvChain{{pub: append([]byte(nil), b.SignedKey...), ck: ck, skipped: map[uint32]MsgKeys{}}}
	s.Send = GenKP(rand)
	s.root, s.sendCK = RootStep(root, must(DH(s.Send.Priv, b.SignedKey)))
	s.Pending = &PreKeyMsg{RegID: reg, PreKeyID: b.PreKeyID, SignedID: b.SignedID, BaseKey: base.Pub, IdentityKey: claim}
	return s
}

// NewBob accepts a handshake.
func NewBob(rand io.Reader, id KP, reg uint32, signed KP, oneTime *KP, theirIdentity, theirBase []byte) *Session {
	dhs := [][]byte{must(DH(signed.Priv, theirIdentity)), must(DH(id.Priv, theirBase)), must(DH(signed.Priv, theirBase))}
	if oneTime != nil {
		dhs = append(dhs, must(DH(oneTime.Priv, theirBase)))
	}
	root, ck := X3DHSecret(dhs...)
	return &Session{Local: id.Pub, Remote: theirIdentity, RegID: reg, Rand: rand, BaseKey: theirBase, root: root, Send: signed, sendCK: ck}
}

// Encrypt makes the next message; typ is 3 for a handshake message and 2 otherwise.
func (s *Session) Encrypt(pt []byte) (typ int, wire []byte) {
	k := MessageKeys(s.sendCK)
	body := EncodeSignalBody(s.Send.Pub, s.SendN, s.PrevN, CBCEncrypt(k.Cipher, k.IV, pt))
	wire = append(body, HMAC(k.MAC, s.Local, s.Remote, body)[:8]...)
	s.sendCK = NextChain(s.sendCK)
	s.SendN++
	if s.Pending != nil {
		p := *s.Pending
		p.Message = wire
		return 3, EncodePreKey(&p)
	}
	return 2, wire
}

// Craft makes the next message with a ciphertext, ratchet key and previous counter of the caller's choice, correctly
// authenticated. The session does not move.
func (s *Session) Craft(ct func(k MsgKeys) []byte, ratchet []byte, prev uint32) (typ int, wire []byte) {
	k := MessageKeys(s.sendCK)
	if ratchet == nil {
		ratchet = s.Send.Pub
	}
	body := EncodeSignalBody(ratchet, s.SendN, prev, ct(k))
	wire = append(body, HMAC(k.MAC, s.Local, s.Remote, body)[:8]...)
	if s.Pending != nil {
		p := *s.Pending
		p.Message = wire
		return 3, EncodePreKey(&p)
	}
	return 2, wire
}

// Skip advances the sending chain without sending.
func (s *Session) Skip(n int) {
	for i := 0; i < n; i++ {
		s.sendCK = NextChain(s.sendCK)
		s.SendN++
	}
}

// Renumber makes the sending chain go on at number send, and the latest receiving chain (which must have nothing
// outstanding) at number recv, as if that many messages had gone before.
func (s *Session) Renumber(send, recv uint32) {
	s.SendN = send
	if n := len(s.recv); n > 0 {
		s.recv[n-1].n = recv
	}
}

// Decrypt opens an inner (type 2) message. On error the session is unchanged.
func (s *Session) Decrypt(wire []byte) ([]byte, error) {
	m, err := ParseSignal(wire)
	if err != nil {
		return nil, err
	}
	if m.VersionByte != 0x33 {
		return nil, fmt.Errorf("ref: version byte %#x", m.VersionByte)
	}
	if len(m.RatchetKey) != 33 || m.RatchetKey[0] != 5 {
		return nil, errors.New("ref: ratchet key")
	}
	if !m.HasCounter || !m.HasPrev || m.Extra {
		return nil, errors.New("ref: missing or unknown fields")
	}
	var c *recvChain
	for _, x := range s.recv {
		if bytes.Equal(x.pub, m.RatchetKey) {
			c = x
		}
	}
	fresh := c == nil
	var newRoot []byte
	if fresh {
		dh, err := DH(s.Send.Priv, m.RatchetKey)
		if err != nil {
			return nil, err
		}
		c = &recvChain{pub: append([]byte(nil), m.RatchetKey...), skipped: map[uint32]MsgKeys{}}
		newRoot, c.ck = RootStep(s.root, dh)
	}
	var k MsgKeys
	old := m.Counter < c.n
	if old {
		kk, ok := c.skipped[m.Counter]
		if !ok {
			return nil, errors.New("ref: duplicate")
		}
		k = kk
	}
	ck := c.ck
	var sk []MsgKeys
	if !old {
		if m.Counter-c.n > 200000 {
			return nil, errors.New("ref: too far ahead")
		}
		for i := c.n; i < m.Counter; i++ {
			sk = append(sk, MessageKeys(ck))
			ck = NextChain(ck)
		}
		k = MessageKeys(ck)
	}
	if !bytes.Equal(HMAC(k.MAC, s.Remote, s.Local, m.Body)[:8], m.MAC) {
		return nil, errors.New("ref: bad MAC")
	}
	pt, err := CBCDecrypt(k.Cipher, k.IV, m.Ciphertext)
	if err != nil {
		return nil, err
	}
	s.LastKeys = k
	if old {
		delete(c.skipped, m.Counter)
	} else {
		for i, x := range sk {
			c.skipped[c.n+uint32(i)] = x
		}
		c.ck = NextChain(ck)
		c.n = m.Counter + 1
	}
	if fresh {
		s.recv = append(s.recv, c)
		s.Send = GenKP(s.Rand)
		s.root, ck = RootStep(newRoot, must(DH(s.Send.Priv, m.RatchetKey)))
		s.sendCK = ck
		s.PrevN = 0
		if s.SendN > 0 {
			s.PrevN = s.SendN - 1
		}
		s.SendN = 0
	}
	s.Pending = nil
	return pt, nil
}
