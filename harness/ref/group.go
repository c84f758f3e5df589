package ref

import (
	"bytes"
	"errors"
	"fmt"
)

// SenderMsgKeys are the keys of one group message.
func SenderMsgKeys(ck []byte) (iv, key []byte) {
	k := HKDF(HMAC(ck, []byte{1}), nil, []byte("WhisperGroup"), 48)
	return k[:16], k[16:]
}

// GroupSender is the sending side of a sender key.
type GroupSender struct {
	Dist    []byte
	ChainID uint32
	CK      []byte
	N       uint32
	Sign    KP
}

func (g *GroupSender) SKD() []byte { return EncodeSKD(g.Dist, g.ChainID, g.N, g.CK, g.Sign.Pub) }

func (g *GroupSender) Encrypt(pt, z []byte) []byte {
	iv, key := SenderMsgKeys(g.CK)
	body := EncodeSenderKeyBody(g.Dist, g.ChainID, g.N, CBCEncrypt(key, iv, pt))
	g.CK = NextChain(g.CK)
	g.N++
	return append(body, XSign(g.Sign.Priv, body, z)...)
}

// GroupReceiver is the receiving side of a sender key.
type GroupReceiver struct {
	Dist    []byte
	ChainID uint32
	ck      []byte
	n       uint32
	sign    []byte
	skipped map[uint32][]byte // chain keys of skipped messages
}

func NewGroupReceiver(skd []byte) (*GroupReceiver, error) {
	m, err := ParseSKD(skd)
	if err != nil {
		return nil, err
	}
	if m.VersionByte != 0x33 || m.Extra || !m.HasChain || !m.HasIter || len(m.ChainKey) != 32 || len(m.SigningKey) != 33 || m.SigningKey[0] != 5 {
		return nil, fmt.Errorf("ref: malformed distribution message %x", skd)
	}
	return &GroupReceiver{Dist: m.Dist, ChainID: m.ChainID, ck: m.ChainKey, n: m.Iteration, sign: m.SigningKey, skipped: map[uint32][]byte{}}, nil
}

func (g *GroupReceiver) Decrypt(wire []byte) ([]byte, error) {
	m, err := ParseSenderKey(wire)
	if err != nil {
		return nil, err
	}
	if m.VersionByte != 0x33 || m.Extra || !m.HasChain || !m.HasIter {
		return nil, errors.New("ref: malformed group message")
	}
	if !bytes.Equal(m.Dist, g.Dist) || m.ChainID != g.ChainID {
		return nil, errors.New("ref: other sender key")
	}
	if !XVerify(g.sign[1:], m.Body, m.Sig) {
		return nil, errors.New("ref: bad signature")
	}
	var ck []byte
	if m.Iteration < g.n {
		ck = g.skipped[m.Iteration]
		if ck == nil {
			return nil, errors.New("ref: duplicate")
		}
		delete(g.skipped, m.Iteration)
	} else {
		for g.n < m.Iteration {
			g.skipped[g.n] = g.ck
			g.ck = NextChain(g.ck)
			g.n++
		}
		ck = g.ck
		g.ck = NextChain(g.ck)
		g.n++
	}
	iv, key := SenderMsgKeys(ck)
	return CBCDecrypt(key, iv, m.Ciphertext)
}
