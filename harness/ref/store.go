package ref

import (
	"errors"
	"fmt"
	"io"
	"sort"
)

// Stored is a session in the published storage format (SessionStructure of storage.proto).
type Stored struct {
	Version             uint32
	Local, Remote       []byte
	Root                []byte
	PrevN               uint32
	Send                KP
	SendCK              []byte
	SendN               uint32
	HasSender           bool
	Chains              []StoredChain // oldest first
	Pending             bool
	PreKeyID, SignedID  uint32
	PendingBase         []byte
	RemoteReg, LocalReg uint32
	BaseKey             []byte
}

// StoredChain is a receiving chain.
type StoredChain struct {
	Pub, Priv []byte
	N         uint32
	CK        []byte
	Keys      []StoredKey
}

// StoredKey is the key of a message not yet received.
type StoredKey struct {
	N uint32
	MsgKeys
}

func fieldsOf(b []byte, f func(x Field) error) error {
	fs, err := ParseFields(b)
	if err != nil {
		return err
	}
	for _, x := range fs {
		if err := f(x); err != nil {
			return err
		}
	}
	return nil
}

var errStored = errors.New("ref: stored session")

func parseChain(b []byte) (c StoredChain, err error) {
	err = fieldsOf(b, func(x Field) error {
		switch x.No {
		case 1:
			c.Pub = x.Bytes
		case 2:
			c.Priv = x.Bytes
		case 3:
			return fieldsOf(x.Bytes, func(y Field) error {
				switch y.No {
				case 1:
					c.N = uint32(y.Num)
				case 2:
					c.CK = y.Bytes
				default:
					return fmt.Errorf("%w: unknown field 3.%d", errStored, y.No)
				}
				return nil
			})
		case 4:
			var k StoredKey
			err := fieldsOf(x.Bytes, func(y Field) error {
				switch y.No {
				case 1:
					k.N = uint32(y.Num)
				case 2:
					k.Cipher = y.Bytes
				case 3:
					k.MAC = y.Bytes
				case 4:
					k.IV = y.Bytes
				default:
					return fmt.Errorf("%w: unknown field 4.%d", errStored, y.No)
				}
				return nil
			})
			c.Keys = append(c.Keys, k)
			return err
		default:
			return fmt.Errorf("%w: unknown field of a chain %d", errStored, x.No)
		}
		return nil
	})
	return
}

// ParseStored reads a stored session.
func ParseStored(b []byte) (*Stored, error) {
	s := new(Stored)
	b = append([]byte(nil), b...)
	return s, fieldsOf(b, func(x Field) error {
		switch x.No {
		case 1:
			s.Version = uint32(x.Num)
		case 2:
			s.Local = x.Bytes
		case 3:
			s.Remote = x.Bytes
		case 4:
			s.Root = x.Bytes
		case 5:
			s.PrevN = uint32(x.Num)
		case 6:
			c, err := parseChain(x.Bytes)
			if err != nil {
				return err
			}
			s.HasSender = true
			s.Send, s.SendCK, s.SendN = KP{Priv: c.Priv, Pub: c.Pub}, c.CK, c.N
		case 7:
			c, err := parseChain(x.Bytes)
			if err != nil {
				return err
			}
			s.Chains = append(s.Chains, c)
		case 9:
			s.Pending = true
			return fieldsOf(x.Bytes, func(y Field) error {
				switch y.No {
				case 1:
					s.PreKeyID = uint32(y.Num)
				case 2:
					s.PendingBase = y.Bytes
				case 3:
					s.SignedID = uint32(y.Num)
				default:
					return fmt.Errorf("%w: unknown field 9.%d", errStored, y.No)
				}
				return nil
			})
		case 10:
			s.RemoteReg = uint32(x.Num)
		case 11:
			s.LocalReg = uint32(x.Num)
		case 13:
			s.BaseKey = x.Bytes
		default:
			return fmt.Errorf("%w: unknown field %d", errStored, x.No)
		}
		return nil
	})
}

// Load makes a session of a stored one.
func (s *Stored) Load(rand io.Reader) (*Session, error) {
	if s.Version != 3 || !s.HasSender || len(s.Root) != 32 || len(s.SendCK) != 32 || len(s.Send.Priv) != 32 || len(s.Send.Pub) != 33 {
		return nil, fmt.Errorf("%w: incomplete", errStored)
	}
	out := &Session{Local: s.Local, Remote: s.Remote, RegID: s.LocalReg, root: s.Root, Send: s.Send, sendCK: s.SendCK,
		SendN: s.SendN, PrevN: s.PrevN, BaseKey: s.BaseKey, Rand: rand}
	for _, c := range s.Chains {
		if len(c.Pub) != 33 || len(c.CK) != 32 || len(c.Priv) != 0 {
			return nil, fmt.Errorf("%w: bad chain", errStored)
		}
		r := &recvChain{pub: c.Pub, ck: c.CK, n: c.N, skipped: map[uint32]MsgKeys{}}
		for _, k := range c.Keys {
			if len(k.Cipher) != 32 || len(k.MAC) != 32 || len(k.IV) != 16 || k.N >= c.N {
				return nil, fmt.Errorf("%w: bad message key", errStored)
			}
			if _, ok := r.skipped[k.N]; ok {
				return nil, fmt.Errorf("%w: message key stored twice", errStored)
			}
			r.skipped[k.N] = k.MsgKeys
		}
		out.recv = append(out.recv, r)
	}
	if s.Pending {
		out.Pending = &PreKeyMsg{RegID: s.LocalReg, SignedID: s.SignedID, BaseKey: s.PendingBase, IdentityKey: s.Local}
		if s.PreKeyID != 0 {
			id := s.PreKeyID
			out.Pending.PreKeyID = &id
		}
	}
	return out, nil
}

func putUint(b []byte, no int, v uint32) []byte {
	if v == 0 {
		return b
	}
	return PutUint(b, no, uint64(v))
}

func encodeChain(pub, priv []byte, n uint32, ck []byte, keys []StoredKey) []byte {
	b := PutBytes(nil, 1, pub)
	if priv != nil {
		b = PutBytes(b, 2, priv)
	}
	b = PutBytes(b, 3, PutBytes(putUint(nil, 1, n), 2, ck))
	for _, k := range keys {
		b = PutBytes(b, 4, PutBytes(PutBytes(PutBytes(putUint(nil, 1, k.N), 2, k.Cipher), 3, k.MAC), 4, k.IV))
	}
	return b
}

// Store encodes the session with its newest chains chains and keys message keys in each.
func (s *Session) Store(remoteReg uint32, chains, keys int) []byte {
	b := PutUint(nil, 1, 3)
	b = PutBytes(b, 2, s.Local)
	b = PutBytes(b, 3, s.Remote)
	b = PutBytes(b, 4, s.root)
	b = putUint(b, 5, s.PrevN)
	b = PutBytes(b, 6, encodeChain(s.Send.Pub, s.Send.Priv, s.SendN, s.sendCK, nil))
	recv := s.recv
	if len(recv) > chains {
		recv = recv[len(recv)-chains:]
	}
	for _, c := range recv {
		var ks []StoredKey
		for n, k := range c.skipped {
			ks = append(ks, StoredKey{n, k})
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].N < ks[j].N })
		if len(ks) > keys {
			ks = ks[len(ks)-keys:]
		}
		b = PutBytes(b, 7, encodeChain(c.pub, nil, c.n, c.ck, ks))
	}
	if p := s.Pending; p != nil {
		var x []byte
		if p.PreKeyID != nil {
			x = putUint(x, 1, *p.PreKeyID)
		}
		x = PutBytes(x, 2, p.BaseKey)
		if p.SignedID != 0 {
			x = PutUint(x, 3, uint64(int64(int32(p.SignedID))))
		}
		b = PutBytes(b, 9, x)
	}
	b = putUint(b, 10, remoteReg)
	b = putUint(b, 11, s.RegID)
	return PutBytes(b, 13, s.BaseKey)
}
