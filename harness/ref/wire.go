package ref

import "errors"

// A Field is one protobuf field: Bytes for length-delimited ones, Num for varints.
type Field struct {
	No    int
	Wire  int
	Num   uint64
	Bytes []byte
}

func Varint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func PutUint(b []byte, no int, v uint64) []byte {
	b = Varint(b, uint64(no)<<3)
	return Varint(b, v)
}

func PutBytes(b []byte, no int, v []byte) []byte {
	b = Varint(b, uint64(no)<<3|2)
	b = Varint(b, uint64(len(v)))
	return append(b, v...)
}

var errWire = errors.New("ref: malformed protobuf")

func uvarint(b []byte) (uint64, int) {
	var v uint64
	for i := 0; i < len(b) && i < 10; i++ {
		v |= uint64(b[i]&0x7f) << (7 * uint(i))
		if b[i] < 0x80 {
			return v, i + 1
		}
	}
	return 0, 0
}

// skipGroup returns the length of the contents and end of a group, or -1.
func skipGroup(b []byte, no int) int {
	total := len(b)
	for len(b) > 0 {
		tag, n := uvarint(b)
		if n == 0 {
			return -1
		}
		b = b[n:]
		switch tag & 7 {
		case 0:
			_, n = uvarint(b)
			if n == 0 {
				return -1
			}
		case 1:
			n = 8
		case 5:
			n = 4
		case 2:
			l, k := uvarint(b)
			if k == 0 || l > uint64(len(b)-k) {
				return -1
			}
			n = k + int(l)
		case 3:
			if n = skipGroup(b, int(tag>>3)); n < 0 {
				return -1
			}
		case 4:
			if int(tag>>3) != no {
				return -1
			}
			return total - len(b)
		default:
			return -1
		}
		if n > len(b) {
			return -1
		}
		b = b[n:]
	}
	return -1
}

// ParseFields splits a protobuf message into its fields.
func ParseFields(b []byte) ([]Field, error) {
	var out []Field
	for len(b) > 0 {
		tag, n := uvarint(b)
		if n == 0 {
			return nil, errWire
		}
		b = b[n:]
		f := Field{No: int(tag >> 3), Wire: int(tag & 7)}
		switch f.Wire {
		case 0:
			v, n := uvarint(b)
			if n == 0 {
				return nil, errWire
			}
			f.Num = v
			b = b[n:]
		case 2:
			l, n := uvarint(b)
			if n == 0 || l > uint64(len(b)-n) {
				return nil, errWire
			}
			f.Bytes = b[n : n+int(l)]
			b = b[n+int(l):]
		case 1:
			if len(b) < 8 {
				return nil, errWire
			}
			b = b[8:]
		case 5:
			if len(b) < 4 {
				return nil, errWire
			}
			b = b[4:]
		case 3:
			n := skipGroup(b, f.No)
			if n < 0 {
				return nil, errWire
			}
			b = b[n:]
		default:
			return nil, errWire
		}
		out = append(out, f)
	}
	return out, nil
}

// SignalMsg is a parsed version-3 message.
type SignalMsg struct {
	VersionByte   byte
	RatchetKey    []byte
	Counter, Prev uint32
	HasCounter    bool
	HasPrev       bool
	Ciphertext    []byte
	Body, MAC     []byte
	Extra         bool // unknown or repeated fields
}

func ParseSignal(b []byte) (*SignalMsg, error) {
	if len(b) < 9 {
		return nil, errWire
	}
	m := &SignalMsg{VersionByte: b[0], Body: b[:len(b)-8], MAC: b[len(b)-8:]}
	fs, err := ParseFields(b[1 : len(b)-8])
	if err != nil {
		return nil, err
	}
	seen := map[int]bool{}
	for _, f := range fs {
		if seen[f.No] {
			m.Extra = true
		}
		seen[f.No] = true
		switch {
		case f.No == 1 && f.Wire == 2:
			m.RatchetKey = f.Bytes
		case f.No == 2 && f.Wire == 0:
			m.Counter, m.HasCounter = uint32(f.Num), true
		case f.No == 3 && f.Wire == 0:
			m.Prev, m.HasPrev = uint32(f.Num), true
		case f.No == 4 && f.Wire == 2:
			m.Ciphertext = f.Bytes
		default:
			m.Extra = true
		}
	}
	return m, nil
}

// EncodeSignalBody is the part of the message the MAC covers.
func EncodeSignalBody(ratchet []byte, counter, prev uint32, ct []byte) []byte {
	b := []byte{0x33}
	b = PutBytes(b, 1, ratchet)
	b = PutUint(b, 2, uint64(counter))
	b = PutUint(b, 3, uint64(prev))
	return PutBytes(b, 4, ct)
}

// PreKeyMsg is a parsed handshake message.
type PreKeyMsg struct {
	VersionByte byte
	RegID       uint32
	HasReg      bool
	PreKeyID    *uint32
	SignedID    uint32
	HasSigned   bool
	BaseKey     []byte
	IdentityKey []byte
	Message     []byte
	Extra       bool
}

func ParsePreKey(b []byte) (*PreKeyMsg, error) {
	if len(b) < 1 {
		return nil, errWire
	}
	m := &PreKeyMsg{VersionByte: b[0]}
	fs, err := ParseFields(b[1:])
	if err != nil {
		return nil, err
	}
	seen := map[int]bool{}
	for _, f := range fs {
		if seen[f.No] {
			m.Extra = true
		}
		seen[f.No] = true
		switch {
		case f.No == 1 && f.Wire == 0:
			v := uint32(f.Num)
			m.PreKeyID = &v
		case f.No == 2 && f.Wire == 2:
			m.BaseKey = f.Bytes
		case f.No == 3 && f.Wire == 2:
			m.IdentityKey = f.Bytes
		case f.No == 4 && f.Wire == 2:
			m.Message = f.Bytes
		case f.No == 5 && f.Wire == 0:
			m.RegID, m.HasReg = uint32(f.Num), true
		case f.No == 6 && f.Wire == 0:
			m.SignedID, m.HasSigned = uint32(f.Num), true
		default:
			m.Extra = true
		}
	}
	return m, nil
}

func EncodePreKey(m *PreKeyMsg) []byte {
	b := []byte{0x33}
	if m.PreKeyID != nil {
		b = PutUint(b, 1, uint64(*m.PreKeyID))
	}
	b = PutBytes(b, 2, m.BaseKey)
	b = PutBytes(b, 3, m.IdentityKey)
	b = PutBytes(b, 4, m.Message)
	b = PutUint(b, 5, uint64(m.RegID))
	return PutUint(b, 6, uint64(m.SignedID))
}

// SenderKeyMsg is a parsed group message.
type SenderKeyMsg struct {
	VersionByte        byte
	Dist               []byte
	ChainID, Iteration uint32
	HasChain, HasIter  bool
	Ciphertext         []byte
	Body, Sig          []byte
	Extra              bool
}

func ParseSenderKey(b []byte) (*SenderKeyMsg, error) {
	if len(b) < 65 {
		return nil, errWire
	}
	m := &SenderKeyMsg{VersionByte: b[0], Body: b[:len(b)-64], Sig: b[len(b)-64:]}
	fs, err := ParseFields(b[1 : len(b)-64])
	if err != nil {
		return nil, err
	}
	seen := map[int]bool{}
	for _, f := range fs {
		if seen[f.No] {
			m.Extra = true
		}
		seen[f.No] = true
		switch {
		case f.No == 1 && f.Wire == 2:
			m.Dist = f.Bytes
		case f.No == 2 && f.Wire == 0:
			m.ChainID, m.HasChain = uint32(f.Num), true
		case f.No == 3 && f.Wire == 0:
			m.Iteration, m.HasIter = uint32(f.Num), true
		case f.No == 4 && f.Wire == 2:
			m.Ciphertext = f.Bytes
		default:
			m.Extra = true
		}
	}
	return m, nil
}

func EncodeSenderKeyBody(dist []byte, chain, iter uint32, ct []byte) []byte {
	b := []byte{0x33}
	b = PutBytes(b, 1, dist)
	b = PutUint(b, 2, uint64(chain))
	b = PutUint(b, 3, uint64(iter))
	return PutBytes(b, 4, ct)
}

// SKDMsg is a parsed distribution message.
type SKDMsg struct {
	VersionByte        byte
	Dist               []byte
	ChainID, Iteration uint32
	HasChain, HasIter  bool
	ChainKey           []byte
	SigningKey         []byte
	Extra              bool
}

func ParseSKD(b []byte) (*SKDMsg, error) {
	if len(b) < 1 {
		return nil, errWire
	}
	m := &SKDMsg{VersionByte: b[0]}
	fs, err := ParseFields(b[1:])
	if err != nil {
		return nil, err
	}
	seen := map[int]bool{}
	for _, f := range fs {
		if seen[f.No] {
			m.Extra = true
		}
		seen[f.No] = true
		switch {
		case f.No == 1 && f.Wire == 2:
			m.Dist = f.Bytes
		case f.No == 2 && f.Wire == 0:
			m.ChainID, m.HasChain = uint32(f.Num), true
		case f.No == 3 && f.Wire == 0:
			m.Iteration, m.HasIter = uint32(f.Num), true
		case f.No == 4 && f.Wire == 2:
			m.ChainKey = f.Bytes
		case f.No == 5 && f.Wire == 2:
			m.SigningKey = f.Bytes
		default:
			m.Extra = true
		}
	}
	return m, nil
}

func EncodeSKD(dist []byte, chain, iter uint32, chainKey, signing []byte) []byte {
	b := []byte{0x33}
	b = PutBytes(b, 1, dist)
	b = PutUint(b, 2, uint64(chain))
	b = PutUint(b, 3, uint64(iter))
	b = PutBytes(b, 4, chainKey)
	return PutBytes(b, 5, signing)
}
