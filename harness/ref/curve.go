// Package ref is an independent implementation of the protocol primitives, written from the published
// specifications (RFC 7748, RFC 8032, XEdDSA, X3DH, Double Ratchet, the protobuf encoding) with math/big and the Go
// standard library. Nothing in it comes from the code under test.
package ref

import (
	"crypto/sha512"
	"math/big"
)

var (
	one  = big.NewInt(1)
	two  = big.NewInt(2)
	P, _ = new(big.Int).SetString("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", 16)
	L, _ = new(big.Int).SetString("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16)
	edD  = func() *big.Int { // -121665/121666
		d := new(big.Int).ModInverse(big.NewInt(121666), P)
		d.Mul(d, big.NewInt(-121665))
		return d.Mod(d, P)
	}()
	baseY = func() *big.Int { // 4/5
		y := new(big.Int).ModInverse(big.NewInt(5), P)
		return y.Mul(y, big.NewInt(4)).Mod(y, P)
	}()
	baseX = recoverX(baseY, 0)
)

func mod(x *big.Int) *big.Int { return x.Mod(x, P) }

func leInt(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func LeBytes(x *big.Int, n int) []byte {
	b := make([]byte, n)
	x.FillBytes(b)
	for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return b
}

// Clamp returns a clamped copy of a 32-byte scalar.
func Clamp(k []byte) []byte {
	c := append([]byte(nil), k...)
	c[0] &= 248
	c[31] &= 127
	c[31] |= 64
	return c
}

// X25519 is the RFC 7748 function (Montgomery ladder over math/big).
func X25519(k, u []byte) []byte {
	kk := leInt(Clamp(k))
	ub := append([]byte(nil), u...)
	ub[31] &= 127
	x1 := mod(leInt(ub))
	x2, z2 := big.NewInt(1), big.NewInt(0)
	x3, z3 := new(big.Int).Set(x1), big.NewInt(1)
	swap := uint(0)
	a24 := big.NewInt(121665)
	var A, AA, B, BB, E, C, D, DA, CB big.Int
	for t := 254; t >= 0; t-- {
		kt := kk.Bit(t)
		if swap^kt == 1 {
			x2, x3 = x3, x2
			z2, z3 = z3, z2
		}
		swap = kt
		mod(A.Add(x2, z2))
		mod(AA.Mul(&A, &A))
		mod(B.Sub(x2, z2))
		mod(BB.Mul(&B, &B))
		mod(E.Sub(&AA, &BB))
		mod(C.Add(x3, z3))
		mod(D.Sub(x3, z3))
		mod(DA.Mul(&D, &A))
		mod(CB.Mul(&C, &B))
		x3.Add(&DA, &CB)
		mod(x3.Mul(x3, x3))
		z3.Sub(&DA, &CB)
		mod(z3.Mul(z3, z3))
		mod(z3.Mul(z3, x1))
		mod(x2.Mul(&AA, &BB))
		z2.Mul(a24, &E)
		z2.Add(z2, &AA)
		mod(z2.Mul(z2, &E))
	}
	if swap == 1 {
		x2, z2 = x3, z3
	}
	inv := new(big.Int).Exp(z2, new(big.Int).Sub(P, two), P)
	return LeBytes(mod(inv.Mul(inv, x2)), 32)
}

var basePointU = append([]byte{9}, make([]byte, 31)...)

// X25519Public is the public key of a private key.
func X25519Public(k []byte) []byte { return X25519(k, basePointU) }

// edwards points in extended coordinates
type point struct{ x, y, z, t *big.Int }

func recoverX(y *big.Int, sign uint) *big.Int {
	yy := new(big.Int).Mul(y, y)
	num := new(big.Int).Sub(yy, one)
	den := new(big.Int).Mul(edD, yy)
	den.Add(den, one)
	den.ModInverse(mod(den), P)
	xx := mod(num.Mul(num, den))
	x := new(big.Int).ModSqrt(xx, P)
	if x == nil {
		return nil
	}
	if x.Bit(0) != sign {
		x.Sub(P, x)
	}
	return mod(x)
}

func (p point) add(q point) point {
	a := new(big.Int).Sub(p.y, p.x)
	a.Mul(a, new(big.Int).Sub(q.y, q.x))
	mod(a)
	b := new(big.Int).Add(p.y, p.x)
	b.Mul(b, new(big.Int).Add(q.y, q.x))
	mod(b)
	c := new(big.Int).Mul(p.t, q.t)
	c.Mul(c, two)
	mod(c)
	c.Mul(c, edD)
	mod(c)
	d := new(big.Int).Mul(p.z, q.z)
	d.Mul(d, two)
	mod(d)
	e := new(big.Int).Sub(b, a)
	f := new(big.Int).Sub(d, c)
	g := new(big.Int).Add(d, c)
	h := new(big.Int).Add(b, a)
	return point{
		mod(new(big.Int).Mul(e, f)), mod(new(big.Int).Mul(g, h)),
		mod(new(big.Int).Mul(f, g)), mod(new(big.Int).Mul(e, h)),
	}
}

func affine(x, y *big.Int) point {
	return point{x, y, big.NewInt(1), mod(new(big.Int).Mul(x, y))}
}

func (p point) mul(k *big.Int) point {
	r := affine(big.NewInt(0), big.NewInt(1))
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.add(r)
		if k.Bit(i) == 1 {
			r = r.add(p)
		}
	}
	return r
}

func (p point) encode() []byte {
	inv := new(big.Int).ModInverse(p.z, P)
	x := mod(new(big.Int).Mul(p.x, inv))
	y := mod(new(big.Int).Mul(p.y, inv))
	b := LeBytes(y, 32)
	b[31] |= byte(x.Bit(0)) << 7
	return b
}

func decodePoint(b []byte) (point, bool) {
	yb := append([]byte(nil), b...)
	sign := uint(yb[31] >> 7)
	yb[31] &= 127
	y := leInt(yb)
	if y.Cmp(P) >= 0 {
		return point{}, false
	}
	x := recoverX(y, sign)
	if x == nil || (x.Sign() == 0 && sign == 1) {
		return point{}, false
	}
	return affine(x, y), true
}

var baseTable = func() []point { // 2^i * B
	t := make([]point, 256)
	t[0] = affine(baseX, baseY)
	for i := 1; i < 256; i++ {
		t[i] = t[i-1].add(t[i-1])
	}
	return t
}()

func mulBase(k *big.Int) point {
	r := affine(big.NewInt(0), big.NewInt(1))
	for i := 0; i < k.BitLen(); i++ {
		if k.Bit(i) == 1 {
			r = r.add(baseTable[i])
		}
	}
	return r
}

// MontToEd converts a Montgomery u-coordinate to a compressed Edwards point with the given sign of x.
func MontToEd(u []byte, sign byte) ([]byte, bool) {
	ub := append([]byte(nil), u...)
	ub[31] &= 127
	ui := mod(leInt(ub))
	den := mod(new(big.Int).Add(ui, one))
	if den.Sign() == 0 {
		return nil, false
	}
	y := new(big.Int).Sub(ui, one)
	y.Mul(y, den.ModInverse(den, P))
	b := LeBytes(mod(y), 32)
	b[31] |= sign << 7
	return b, true
}

// XSign makes a signature as Signal's clients do (the sign of the Edwards public key travels in the top bit of the
// last byte), with the 64 random bytes z.
func XSign(priv, msg, z []byte) []byte {
	k := Clamp(priv)
	a := leInt(k)
	A := mulBase(a).encode()
	h := sha512.New()
	pre := make([]byte, 32)
	for i := range pre {
		pre[i] = 0xFF
	}
	pre[0] = 0xFE
	h.Write(pre)
	h.Write(k)
	h.Write(msg)
	h.Write(z)
	r := leInt(h.Sum(nil))
	r.Mod(r, L)
	R := mulBase(r).encode()
	h = sha512.New()
	h.Write(R)
	h.Write(A)
	h.Write(msg)
	hh := leInt(h.Sum(nil))
	s := new(big.Int).Mul(hh, a)
	s.Add(s, r)
	s.Mod(s, L)
	sig := append(R, LeBytes(s, 32)...)
	sig[63] |= A[31] & 0x80
	return sig
}

// XVerify verifies such a signature: R must be the canonical encoding of [s]B - [h]A.
func XVerify(pub, msg, sig []byte) bool {
	if len(sig) != 64 || len(pub) != 32 {
		return false
	}
	A, ok := MontToEd(pub, sig[63]>>7)
	if !ok {
		return false
	}
	sb := append([]byte(nil), sig[32:]...)
	sb[31] &= 127
	s := leInt(sb)
	if s.Cmp(L) >= 0 {
		return false
	}
	Ap, ok := decodePoint(A)
	if !ok {
		return false
	}
	h := sha512.New()
	h.Write(sig[:32])
	h.Write(A)
	h.Write(msg)
	hh := leInt(h.Sum(nil))
	hh.Mod(hh, L)
	neg := point{mod(new(big.Int).Neg(Ap.x)), Ap.y, Ap.z, mod(new(big.Int).Neg(Ap.t))}
	R := mulBase(s).add(neg.mul(hh)).encode()
	for i := range R {
		if R[i] != sig[i] {
			return false
		}
	}
	return true
}

// EdScalarOf returns the Edwards public key (compressed) of an X25519 private key.
func EdPublic(priv []byte) []byte { return mulBase(leInt(Clamp(priv))).encode() }
