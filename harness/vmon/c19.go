package main

import (
	"bytes"
	"reflect"

	"github.com/RTann/libsignal-go/protocol/fingerprint"
	"github.com/RTann/libsignal-go/protocol/identity"

	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:     "C19",
		Rule:   "For generated identity keys, identifiers (empty, long, binary, nested in each other), versions and iteration counts both parties' fingerprints are computed and compared with each other, with the independently computed digits and codes; then one of key, identifier, iteration count or version is changed on one side (also by exchanging parts), and codes are altered byte by byte, field by field and by cutting: an independent reader of the code decides whether a match is allowed. Distinct by (identifier kinds, iterations, version, change).",
		Run:    runC19,
		Assume: []string{"the scannable code is reached by its type inside the fingerprint, which has no accessor for it"},
	})
}

type fp19 struct {
	f *fingerprint.Fingerprint
	s *fingerprint.Scannable
}

type side19 struct {
	id  []byte
	key identity.Key
}

func new19(t *T, version, iter uint32, local, remote side19) fp19 {
	f, err := fingerprint.New(version, iter, clone(local.id), local.key, clone(remote.id), remote.key)
	if err != nil {
		t.Violate("no fingerprint for version %d, %d iterations, identifiers %x and %x: %v", version, iter, local.id, remote.id, err)
	}
	v, found := findField(reflect.ValueOf(f), reflect.TypeOf((*fingerprint.Scannable)(nil)), 0)
	if !found {
		t.Skip("no scannable code inside the fingerprint")
	}
	return fp19{f, v.Interface().(*fingerprint.Scannable)}
}

func code19(t *T, f fp19) []byte {
	b, err := f.s.Bytes()
	if err != nil {
		t.Violate("the code has no bytes: %v", err)
	}
	return b
}

// read19 reads a code independently.
func read19(b []byte) (version uint32, local, remote []byte, err error) {
	fs, err := ref.ParseFields(b)
	if err != nil {
		return 0, nil, nil, err
	}
	content := func(old, b []byte) ([]byte, error) {
		gs, err := ref.ParseFields(b)
		for _, g := range gs {
			if g.No == 1 && g.Wire == 2 {
				old = g.Bytes
			}
		}
		return old, err
	}
	for _, f := range fs {
		switch {
		case f.No == 1 && f.Wire == 0:
			version = uint32(f.Num)
		case f.No == 2 && f.Wire == 2:
			if local, err = content(local, f.Bytes); err != nil {
				return
			}
		case f.No == 3 && f.Wire == 2:
			if remote, err = content(remote, f.Bytes); err != nil {
				return
			}
		}
	}
	return
}

func ident19(t *T) identity.Key {
	if t.Rng.IntN(5) == 0 {
		return must(identity.NewKey(append([]byte{5}, oddPoints[t.Rng.IntN(len(oddPoints))]...)))
	}
	return must(identity.NewKey(append([]byte{5}, randBytes(t, 32)...)))
}

func side(t *T) side19 {
	s := side19{key: ident19(t)}
	switch t.Rng.IntN(7) {
	case 0:
		s.id = nil
	case 1:
		s.id = randBytes(t, 1+t.Rng.IntN(400))
	case 2:
		s.id = append(clone(s.key.Bytes()), randBytes(t, t.Rng.IntN(3))...)
	case 3:
		s.id = make([]byte, t.Rng.IntN(40))
	default:
		s.id = []byte("+1415" + string(rune('0'+t.Rng.IntN(10))) + hexs(randBytes(t, 3)))
	}
	return s
}

func iter19(t *T) uint32 {
	switch t.Rng.IntN(8) {
	case 0:
		return 2
	case 1:
		return 3
	case 2:
		return uint32(2 + t.Rng.IntN(20))
	case 3:
		return 5200
	case 4:
		return []uint32{255, 256, 257, 1024}[t.Rng.IntN(4)]
	}
	return uint32(2 + t.Rng.IntN(300))
}

func runC19(c *C) {
	c.Cases("agree", c.N(2000, 20000), agree19)
	c.Cases("differ", c.N(1500, 20000), differ19)
	c.Cases("codes", c.N(400, 5000), codes19)
	c.Cases("bounds", c.N(1, 4), bounds19)
	c.Cases("counts", c.N(40, 200), counts19)
	c.Cases("long", c.N(24, 120), long19)
	c.Cases("digits", c.N(2000, 20000), digits19)
	c.Require("pairs agreed", 700)
	c.Require("differing pairs told apart", 5000)
	c.Require("altered codes refused", 20000)
}

func agree19(t *T, i int) {
	a, b := side(t), side(t)
	switch t.Rng.IntN(8) {
	case 0:
		b.id = clone(a.id)
	case 1:
		b.key = must(identity.NewKey(a.key.Bytes()))
	case 2:
		b = a
	}
	version, iter := num32(t), iter19(t)
	x, y := new19(t, version, iter, a, b), new19(t, version, iter, b, a)
	t.Logf("version %d, %d iterations, %x/%x and %x/%x: %s", version, iter, a.id, a.key.Bytes(), b.id, b.key.Bytes(), x.f.String())
	t.Eval()
	ha, hb := ref.FingerprintHash(iter, a.id, a.key.Bytes()), ref.FingerprintHash(iter, b.id, b.key.Bytes())
	want := ref.FingerprintDisplay(ref.FingerprintDigits(ha), ref.FingerprintDigits(hb))
	if x.f.String() != want || y.f.String() != want {
		t.Violate("the parties display %s and %s, the algorithm gives %s", x.f.String(), y.f.String(), want)
	}
	cx, cy := code19(t, x), code19(t, y)
	for _, z := range []struct {
		code          []byte
		local, remote []byte
	}{{cx, ha[:32], hb[:32]}, {cy, hb[:32], ha[:32]}} {
		v, l, r, err := read19(z.code)
		if err != nil || v != version || !bytes.Equal(l, z.local) || !bytes.Equal(r, z.remote) {
			t.Violate("the code %x has version %d and contents %x, %x (%v), expected version %d, %x, %x", z.code, v, l, r, err, version, z.local, z.remote)
		}
	}
	for _, z := range []struct {
		s    *fingerprint.Scannable
		code []byte
	}{{x.s, cy}, {y.s, cx}} {
		t.Eval()
		if m, err := z.s.Compare(clone(z.code)); !m || err != nil {
			t.Violate("honest parties' codes do not match: %v, %v (version %d, %d iterations, %x/%x and %x/%x)", m, err, version, iter, a.id, a.key.Bytes(), b.id, b.key.Bytes())
		}
	}
	// The library's own constructors, from the hashes.
	s, err := fingerprint.NewScannable(version, clone(ha), clone(hb))
	if err != nil {
		t.Violate("no code from two hashes: %v", err)
	}
	if m, err := s.Compare(cy); !m || err != nil {
		t.Violate("a code made from the same hashes does not match: %v, %v", m, err)
	}
	d, err := fingerprint.NewDisplayable(clone(ha), clone(hb))
	if err != nil || d.String() != want {
		t.Violate("a displayable fingerprint from the same hashes reads %v (%v), expected %s", d, err, want)
	}
	t.Count("pairs agreed", 1)
	t.Seen("agree", iter, len(a.id), len(b.id), cls32(version))
	if t.wantSample() {
		t.Sample(map[string]any{"version": version, "iterations": iter, "ids": []string{hexs(a.id), hexs(b.id)}, "digits": want})
	}
}

// differ19: the parties have different ideas of something.
func differ19(t *T, i int) {
	a, b := side(t), side(t)
	version, iter := num32(t), iter19(t)
	x := new19(t, version, iter, a, b)
	try := func(what string, sameDigits bool, version, iter uint32, b2, a2 side19) {
		t.Eval()
		y := new19(t, version, iter, b2, a2)
		t.Logf("%s: %x/%x %x/%x", what, b2.id, b2.key.Bytes(), a2.id, a2.key.Bytes())
		if !sameDigits && x.f.String() == y.f.String() {
			t.Violate("%s differs, but both display %s (identifiers %x, %x)", what, x.f.String(), a.id, b.id)
		}
		m1, err1 := x.s.Compare(code19(t, y))
		m2, err2 := y.s.Compare(code19(t, x))
		if m1 || m2 {
			t.Violate("%s differs, but the codes match (%v %v, %v %v)", what, m1, err1, m2, err2)
		}
		t.Count("differing pairs told apart", 1)
		t.Seen("differ", what, len(a.id), len(b.id))
	}
	with := func(s side19, f func(s *side19)) side19 {
		s.id = clone(s.id)
		f(&s)
		return s
	}
	bit := func(s *side19) {
		if len(s.id) > 0 {
			s.id = flip(s.id, t.Rng.IntN(len(s.id)), 1<<t.Rng.IntN(8))
		} else {
			s.id = []byte{0}
		}
	}
	key := func(s *side19) {
		s.key = must(identity.NewKey(flip(s.key.Bytes(), 1+t.Rng.IntN(32), 1<<t.Rng.IntN(8))))
	}
	try("one identifier", false, version, iter, b, with(a, bit))
	try("the other identifier", false, version, iter, with(b, bit), a)
	try("both identifiers", false, version, iter, with(b, bit), with(a, bit))
	try("one key", false, version, iter, b, with(a, key))
	try("the other key", false, version, iter, with(b, key), a)
	try("both keys", false, version, iter, with(b, key), with(a, key))
	try("an identifier, by a byte more", false, version, iter, b, with(a, func(s *side19) { s.id = append(s.id, 0) }))
	if len(a.id) > 0 {
		try("an identifier, by a byte less", false, version, iter, b, with(a, func(s *side19) { s.id = s.id[:len(s.id)-1] }))
	}
	try("an identifier, by the key", false, version, iter, b, with(a, func(s *side19) { s.id = append(s.id, s.key.Bytes()...) }))
	if !bytes.Equal(a.id, b.id) && !a.key.Equal(b.key) {
		try("the assignment of identifiers", false, version, iter, side19{a.id, b.key}, side19{b.id, a.key})
	}
	if !bytes.Equal(a.id, b.id) {
		try("both identifiers the same", false, version, iter, side19{a.id, b.key}, a)
	}
	if !a.key.Equal(b.key) {
		try("both keys the same", false, version, iter, side19{b.id, a.key}, a)
		// One's own code is not the other's, unless both are the same.
		try("whose code it is", true, version, iter, a, b)
	}
	try("the iteration count", false, version, iter+1, b, a)
	try("the iteration count", false, version, 2+iter*2, b, a)
	for _, v := range []uint32{version + 1, version - 1, version ^ 1<<t.Rng.IntN(32), version + 256} {
		if v != version {
			try("the version", true, v, iter, b, a)
		}
	}
}

// codes19 alters the code one party scans.
func codes19(t *T, i int) {
	a, b := side(t), side(t)
	version := num32(t)
	if t.Rng.IntN(3) == 0 {
		version = 0
	}
	x, y := new19(t, version, 2, a, b), new19(t, version, 2, b, a)
	_, la, _, _ := read19(code19(t, x))
	_, lb, _, _ := read19(code19(t, y))
	good := code19(t, y)
	try := func(what string, code []byte) {
		v, l, r, err := read19(code)
		if err == nil && v == version && bytes.Equal(l, lb) && bytes.Equal(r, la) {
			t.Count("codes with the same contents", 1) // another encoding of the same: may match or not
			return
		}
		t.Eval()
		m, cerr := x.s.Compare(clone(code))
		if m {
			t.Violate("%s: the altered code %x (version %d, %x, %x; %v) is reported as a match for version %d, %x, %x; %v", what, code, v, l, r, err, version, lb, la, cerr)
		}
		t.Count("altered codes refused", 1)
		t.Seen(what, len(code), cerr == nil)
	}
	enc := func(fs ...ref.Field) []byte { return encodeFields(fs) }
	sub := func(no int, c []byte) ref.Field {
		return ref.Field{No: no, Wire: 2, Bytes: enc(ref.Field{No: 1, Wire: 2, Bytes: c})}
	}
	ver := ref.Field{No: 1, Num: uint64(version)}
	if m, err := x.s.Compare(enc(ver, sub(2, lb), sub(3, la))); !m || err != nil {
		t.Violate("an independently made code does not match: %v %v", m, err)
	}
	for j := range good {
		for k := 0; k < 8; k++ {
			try("bit changed", flip(good, j, 1<<k))
		}
		try("cut", good[:j])
		try("byte left out", append(clone(good[:j]), good[j+1:]...))
	}
	for j := 0; j < 32; j++ {
		try("local fingerprint changed", enc(ver, sub(2, flip(lb, j, byte(1+t.Rng.IntN(255)))), sub(3, la)))
		try("remote fingerprint changed", enc(ver, sub(2, lb), sub(3, flip(la, j, byte(1+t.Rng.IntN(255))))))
		try("local fingerprint shortened", enc(ver, sub(2, lb[:j]), sub(3, la)))
		try("remote fingerprint shortened", enc(ver, sub(2, lb), sub(3, la[:j])))
	}
	try("empty", nil)
	try("no local fingerprint", enc(ver, sub(3, la)))
	try("no remote fingerprint", enc(ver, sub(2, lb)))
	try("no fingerprints", enc(ver))
	try("empty fingerprints", enc(ver, sub(2, nil), sub(3, nil)))
	try("fingerprints exchanged", enc(ver, sub(2, la), sub(3, lb)))
	try("local twice", enc(ver, sub(2, lb), sub(3, lb)))
	try("remote twice", enc(ver, sub(2, la), sub(3, la)))
	try("longer local", enc(ver, sub(2, append(clone(lb), 0)), sub(3, la)))
	try("longer remote", enc(ver, sub(2, lb), sub(3, append(clone(la), la...))))
	try("no version", enc(sub(2, lb), sub(3, la)))
	for k := 0; k < 32; k++ {
		try("version changed", enc(ref.Field{No: 1, Num: uint64(version ^ 1<<k)}, sub(2, lb), sub(3, la)))
	}
	try("own code", code19(t, x))
	for k := 0; k < 60; k++ {
		try("mutated", mutBytes(t.Rng, good, [][]byte{good, code19(t, x)}))
		try("mutated fields", mutFields(t.Rng, good, 0))
	}
	// A third party's code.
	z := new19(t, version, 2, side(t), a)
	try("third party", code19(t, z))
	z = new19(t, version, 2, b, side(t))
	try("third party", code19(t, z))
}

func bounds19(t *T, i int) {
	a, b := side(t), side(t)
	for _, n := range []uint32{0, 1, 1_000_001, 1_000_002, 1 << 20, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
		t.Eval()
		f, err := fingerprint.New(1, n, a.id, a.key, b.id, b.key)
		if err == nil || f != nil {
			t.Violate("%d iterations are accepted", n)
		}
		t.Count("iteration counts refused", 1)
	}
	for _, n := range []uint32{2, 1_000_000, 999_999} {
		t.Eval()
		x := new19(t, 1, n, a, b)
		want := ref.FingerprintDisplay(ref.FingerprintDigits(ref.FingerprintHash(n, a.id, a.key.Bytes())), ref.FingerprintDigits(ref.FingerprintHash(n, b.id, b.key.Bytes())))
		if x.f.String() != want {
			t.Violate("%d iterations give %s, expected %s", n, x.f.String(), want)
		}
	}
	for n := 0; n < 80; n++ {
		long := randBytes(t, 64)
		short := randBytes(t, n)
		for _, o := range [][2][]byte{{short, long}, {long, short}} {
			t.Eval()
			if s, err := fingerprint.NewScannable(1, o[0], o[1]); (err == nil) != (n >= 32) || (s == nil) != (err != nil) {
				t.Violate("a code from hashes of %d and %d bytes: %v, %v", len(o[0]), len(o[1]), s, err)
			}
			if d, err := fingerprint.NewDisplayable(o[0], o[1]); (err == nil) != (n >= 30) || (d == nil) != (err != nil) {
				t.Violate("a displayable fingerprint from hashes of %d and %d bytes: %v, %v", len(o[0]), len(o[1]), d, err)
			}
		}
	}
}

// counts19: high iteration counts, near round numbers and anywhere, against the published algorithm.
func counts19(t *T, i int) {
	near := []uint32{1000, 4096, 5200, 10_000, 1 << 15, 50_000, 1 << 16, 100_000, 1 << 17, 1 << 18, 500_000, 1 << 19}
	n := near[i%len(near)] + uint32(t.Rng.IntN(5)) - 2
	if i%4 == 3 {
		n = uint32(300 + t.Rng.IntN(200_000))
	}
	a, b := side(t), side(t)
	want := ref.FingerprintDisplay(ref.FingerprintDigits(ref.FingerprintHash(n, a.id, a.key.Bytes())), ref.FingerprintDigits(ref.FingerprintHash(n, b.id, b.key.Bytes())))
	x, y := new19(t, 1, n, a, b), new19(t, 2, n, b, a)
	t.Eval()
	if x.f.String() != want || y.f.String() != want {
		t.Violate("%d iterations give %s and %s, expected %s", n, x.f.String(), y.f.String(), want)
	}
	t.Seen("counts", i%len(near), i%4 == 3)
	t.Count("high iteration counts compared", 1)
}

// digits19 makes displayable fingerprints of hashes with many zeros and extremes: every group has five digits.
func digits19(t *T, i int) {
	h := func() []byte {
		b := randBytes(t, 64)
		for k := 0; k < 6; k++ {
			switch t.Rng.IntN(4) {
			case 0:
				clear(b[5*k : 5*k+5])
				b[5*k+4] = byte(t.Rng.Uint32())
			case 1:
				copy(b[5*k:], bytes.Repeat([]byte{0xff}, 5))
			case 2:
				v := uint64(100000)*uint64(t.Rng.IntN(10000000)) + uint64([]int{0, 1, 9, 99999, 12}[t.Rng.IntN(5)])
				for j := 4; j >= 0; j-- {
					b[5*k+j] = byte(v)
					v >>= 8
				}
			}
		}
		return b
	}
	a, b := h(), h()
	switch t.Rng.IntN(4) {
	case 0:
		b = clone(a)
	case 1: // differ in a late group only
		copy(b, a[:5*t.Rng.IntN(6)])
	}
	t.Eval()
	d, err := fingerprint.NewDisplayable(a, b)
	e, err2 := fingerprint.NewDisplayable(b, a)
	if err != nil || err2 != nil {
		t.Violate("no displayable fingerprint: %v, %v", err, err2)
	}
	want := ref.FingerprintDisplay(ref.FingerprintDigits(a), ref.FingerprintDigits(b))
	if d.String() != want || e.String() != want || len(want) != 60 {
		t.Violate("hashes %x and %x are displayed as %s and %s, expected %s", a[:30], b[:30], d.String(), e.String(), want)
	}
	t.Seen("digits", want)
}

// long19: identifiers of any length count to the last byte.
func long19(t *T, i int) {
	n := []int{500, 1024, 2000, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537, 100_000, 1 << 18, 1<<20 + 1}[i%14]
	n += t.Rng.IntN(3)
	a, b := side(t), side(t)
	a.id = randBytes(t, n)
	iter := uint32(2 + t.Rng.IntN(6))
	version := num32(t)
	x, y := new19(t, version, iter, a, b), new19(t, version, iter, b, a)
	t.Eval()
	ha, hb := ref.FingerprintHash(iter, a.id, a.key.Bytes()), ref.FingerprintHash(iter, b.id, b.key.Bytes())
	want := ref.FingerprintDisplay(ref.FingerprintDigits(ha), ref.FingerprintDigits(hb))
	if x.f.String() != want || y.f.String() != want {
		t.Violate("with an identifier of %d bytes the parties display %s and %s, the algorithm gives %s", n, x.f.String(), y.f.String(), want)
	}
	if m, err := x.s.Compare(code19(t, y)); !m || err != nil {
		t.Violate("with an identifier of %d bytes the codes do not match: %v, %v", n, m, err)
	}
	t.Count("pairs agreed", 1)
	for _, at := range []int{0, n - 1, n - 1 - t.Rng.IntN(33), n/2 + t.Rng.IntN(n/2), n / 2, n} {
		o := a
		if at == n {
			o.id = append(clone(a.id), byte(t.Rng.Uint32()))
		} else {
			o.id = flip(a.id, at, 1<<t.Rng.IntN(8))
		}
		z := new19(t, version, iter, b, o)
		if z.f.String() == x.f.String() {
			t.Violate("identifiers of %d bytes differ in byte %d, but both display %s", n, at, x.f.String())
		}
		if m, _ := x.s.Compare(code19(t, z)); m {
			t.Violate("identifiers of %d bytes differ in byte %d, but the codes match", n, at)
		}
		t.Count("differing pairs told apart", 1)
	}
	t.Seen("long", n)
}
