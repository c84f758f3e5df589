package main

import (
	"math/rand/v2"

	"verif/harness/ref"
)

// lowOrder are encodings of X25519 points that force an all-zero secret, and a few other unusual ones.
var lowOrder = [][]byte{
	make([]byte, 32),
	append([]byte{1}, make([]byte, 31)...),
	unhex("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800"),
	unhex("5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157"),
	unhex("ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"),
	unhex("edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"),
	unhex("eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"),
}

var oddPoints = append([][]byte{
	unhex("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"),
	unhex("efffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"),
	unhex("ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"),
	unhex("0900000000000000000000000000000000000000000000000000000000000000"),
	unhex("0900000000000000000000000000000000000000000000000000000000000080"),
	unhex("0200000000000000000000000000000000000000000000000000000000000000"),
}, lowOrder...)

func unhex(s string) []byte {
	out := make([]byte, len(s)/2)
	for i := range out {
		for j := 0; j < 2; j++ {
			c := s[2*i+j]
			switch {
			case c <= '9':
				c -= '0'
			default:
				c -= 'a' - 10
			}
			out[i] = out[i]<<4 | c
		}
	}
	return out
}

var hugeNums = []uint64{0, 1, 2, 3, 127, 128, 255, 256, 24999, 25000, 25001, 1<<16 - 1, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}

func rbytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	return b
}

// mutBytes changes b at the level of bytes.
func mutBytes(r *rand.Rand, b []byte, corpus [][]byte) []byte {
	b = clone(b)
	for k := 1 + r.IntN(3); k > 0; k-- {
		n := len(b)
		if n == 0 {
			b = rbytes(r, 1+r.IntN(4))
			continue
		}
		i := r.IntN(n)
		switch r.IntN(10) {
		case 0, 1:
			b[i] ^= 1 << r.IntN(8)
		case 2:
			b[i] = byte(r.Uint32())
		case 3:
			b = b[:i]
		case 4:
			b = append(b[:i:i], b[min(n, i+1+r.IntN(8)):]...)
		case 5:
			b = append(b[:i:i], append(rbytes(r, 1+r.IntN(9)), b[i:]...)...)
		case 6:
			j := i + r.IntN(n-i)
			b = append(b[:j:j], append(clone(b[i:j]), b[j:]...)...)
		case 7:
			o := corpus[r.IntN(len(corpus))]
			if len(o) > 0 {
				x := r.IntN(len(o))
				b = append(b[:i:i], o[x:]...)
			}
		case 8:
			for j := i; j < min(n, i+1+r.IntN(12)); j++ {
				b[j] = []byte{0, 0xff, 0x80, 0x7f}[r.IntN(4)]
			}
		case 9:
			b = append(b, rbytes(r, r.IntN(20))...)
		}
	}
	return b
}

// encodeFields writes fields back (fixed-width ones are dropped).
func encodeFields(fs []ref.Field) []byte {
	var b []byte
	for _, f := range fs {
		switch f.Wire {
		case 0:
			b = ref.PutUint(b, f.No, f.Num)
		case 2:
			b = ref.PutBytes(b, f.No, f.Bytes)
		case 1:
			b = append(ref.Varint(b, uint64(f.No)<<3|1), make([]byte, 8)...)
		case 5:
			b = append(ref.Varint(b, uint64(f.No)<<3|5), make([]byte, 4)...)
		case 3:
			b = ref.Varint(b, uint64(f.No)<<3|3)
			b = ref.Varint(b, uint64(f.No)<<3|4)
		}
	}
	return b
}

// mutFields changes b, a protobuf message, field by field; nested messages are entered at times.
func mutFields(r *rand.Rand, b []byte, depth int) []byte {
	fs, err := ref.ParseFields(b)
	if err != nil || len(fs) == 0 {
		return mutBytes(r, b, [][]byte{b})
	}
	for k := 1 + r.IntN(2); k > 0 && len(fs) > 0; k-- {
		i := r.IntN(len(fs))
		f := &fs[i]
		switch r.IntN(9) {
		case 0: // drop
			fs = append(fs[:i:i], fs[i+1:]...)
		case 1: // twice
			fs = append(fs, *f)
		case 2: // another wire type
			f.Wire = []int{0, 1, 2, 3, 5}[r.IntN(5)]
		case 3: // unknown field
			fs = append(fs, ref.Field{No: 1 + r.IntN(40), Wire: []int{0, 2}[r.IntN(2)], Num: r.Uint64(), Bytes: rbytes(r, r.IntN(10))})
		case 4:
			r.Shuffle(len(fs), func(a, b int) { fs[a], fs[b] = fs[b], fs[a] })
		default:
			if f.Wire == 0 {
				f.Num = hugeNums[r.IntN(len(hugeNums))]
				if r.IntN(4) == 0 {
					f.Num = r.Uint64()
				}
				continue
			}
			if depth < 3 && r.IntN(3) > 0 && len(f.Bytes) > 1 {
				if sub, err := ref.ParseFields(f.Bytes); err == nil && len(sub) > 0 && sub[0].No < 20 {
					f.Bytes = mutFields(r, f.Bytes, depth+1)
					continue
				}
				if f.Bytes[0] == 0x33 { // a nested message behind its version byte
					if sub, err := ref.ParseFields(f.Bytes[1:max(1, len(f.Bytes)-8)]); err == nil && len(sub) > 0 {
						f.Bytes = append(append([]byte{0x33}, mutFields(r, f.Bytes[1:len(f.Bytes)-8], depth+1)...), f.Bytes[len(f.Bytes)-8:]...)
						continue
					}
				}
			}
			switch r.IntN(8) {
			case 0:
				f.Bytes = nil
			case 1:
				f.Bytes = append([]byte{5}, oddPoints[r.IntN(len(oddPoints))]...)
			case 2:
				if len(f.Bytes) > 0 {
					f.Bytes = f.Bytes[:len(f.Bytes)-1]
				}
			case 3:
				f.Bytes = append(clone(f.Bytes), byte(r.Uint32()))
			case 4:
				f.Bytes = rbytes(r, r.IntN(70))
			case 5:
				if len(f.Bytes) > 0 {
					f.Bytes = append([]byte{byte(r.Uint32())}, f.Bytes[1:]...)
				}
			case 6:
				f.Bytes = f.Bytes[:r.IntN(len(f.Bytes)+1)]
			case 7:
				if len(f.Bytes) > 0 {
					f.Bytes = flip(f.Bytes, r.IntN(len(f.Bytes)), 1<<r.IntN(8))
				}
			}
		}
	}
	return encodeFields(fs)
}
