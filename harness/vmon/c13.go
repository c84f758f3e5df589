package main

import (
	"bytes"
	"fmt"
	"reflect"

	"google.golang.org/protobuf/proto"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/distribution"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/senderkey"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:   "C13",
		Rule: "Library senders read by reference receivers and reference senders read by library receivers, over lost, reordered and repeated messages and late joins; every emitted message is decrypted and its key, IV and iteration checked against the reference chain; after every call everything reachable from the stored record is searched for every key already used. Chain-key derivations are compared with the reference directly; windows of 2,000 and 25,000 are probed on both sides. Distinct by the kind of event, distance and size of the skipped set.",
		Run:  runC13,
	})
}

// skippedIn counts the skipped message keys stored in a group record.
func skippedIn(r *session.GroupRecord) (largest int) {
	var rec func(v reflect.Value, d int)
	rec = func(v reflect.Value, d int) {
		if !v.IsValid() || d > 20 {
			return
		}
		if v.Kind() == reflect.Pointer && v.Type().Implements(protoType) {
			if !v.IsNil() {
				m := reflect.NewAt(v.Type().Elem(), v.UnsafePointer()).Interface().(proto.Message)
				if s, ok := m.(*v1.SenderKeyStateStructure); ok {
					largest = max(largest, len(s.GetSenderMessageKeys()))
				}
			}
			return
		}
		switch v.Kind() {
		case reflect.Pointer, reflect.Interface:
			if !v.IsNil() {
				rec(v.Elem(), d+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				rec(v.Field(i), d+1)
			}
		case reflect.Slice, reflect.Array:
			if v.Type().Elem().Kind() != reflect.Uint8 {
				for i := 0; i < v.Len(); i++ {
					rec(v.Index(i), d+1)
				}
			}
		}
	}
	rec(reflect.ValueOf(r), 0)
	return
}

// look13 searches a stored record for used keys and checks its size.
func look13(t *T, p *Party, sender address.Address, d distribution.ID, u *spent, what string) {
	r, ok, err := p.St.in.GroupStore().Load(ctx, sender, d)
	if err != nil || !ok {
		t.Skip("no record after %s: %v", what, err)
	}
	t.Eval()
	if n := skippedIn(r); n > modelMaxSkipped {
		t.Violate("%d skipped keys are retained after %s", n, what)
	} else {
		t.Count("skipped keys seen in records", int64(n))
	}
	for _, b := range blobs(r) {
		if x, found := u.find(b); found {
			t.Violate("the stored record still holds %s after %s", x.what, what)
		}
		t.Count("bytes of stored records searched", int64(len(b)))
	}
	t.Count("records inspected", 1)
}

func runC13(c *C) {
	c.Cases("libsends", c.N(120, 4000), libSends13)
	c.Cases("libreceives", c.N(130, 4000), libReceives13)
	c.Cases("kdf", c.N(60, 600), kdf13)
	c.Cases("window", c.N(8, 32), window13)
	c.Cases("limit", c.N(12, 48), limit13)
	c.Cases("sizes", c.N(24, 60), sizes13)
	c.One("long", func(t *T) { long13(t, c.N(17_000, 140_000)) })
	c.Require("library messages read by the reference", 2000)
	c.Require("reference messages read by the library", 2000)
	c.Require("records inspected", 4000)
	c.Require("skipped keys seen in records", 5000)
	c.Require("messages beyond the limit refused", 6)
	c.Require("messages at the limit accepted", 1)
	c.Require("full windows", 4)
	c.Require("messages of a long chain", 16_000)
}

func libSends13(t *T, i int) {
	p := newParty(t, "alice", 1)
	d := newDist(t)
	gs := p.Group(p.Addr, d)
	type rx struct {
		r    *ref.GroupReceiver
		from uint32
		got  map[uint32]bool
	}
	var rxs []*rx
	type msg struct {
		iter  uint32
		wire  []byte
		plain []byte
	}
	var msgs []msg
	u := newSpent()
	keys := map[string]uint32{} // every cipher key and IV used
	join := func() {
		m, err := gs.NewSenderKeyDistribution(ctx, p.R)
		if err != nil {
			t.Skip("cannot distribute: %v", err)
		}
		w := clone(m.Bytes())
		r, err := ref.NewGroupReceiver(w)
		t.Eval()
		if err != nil {
			t.Violate("the reference cannot read a distribution message: %v", err)
		}
		pm, _ := ref.ParseSKD(w)
		if pm.Iteration != uint32(len(msgs)) {
			t.Violate("distribution message at iteration %d after %d messages", pm.Iteration, len(msgs))
		}
		if string(pm.Dist) != d.String() {
			t.Violate("distribution message names %q, not %v", pm.Dist, d)
		}
		rxs = append(rxs, &rx{r, pm.Iteration, map[uint32]bool{}})
		t.Count("distribution messages read by the reference", 1)
	}
	join()
	var chainID uint32
	var ck []byte // the reference's copy of the chain
	{
		m, _ := gs.NewSenderKeyDistribution(ctx, p.R)
		pm, err := ref.ParseSKD(m.Bytes())
		if err != nil {
			t.Skip("%v", err)
		}
		chainID, ck = pm.ChainID, clone(pm.ChainKey)
	}
	n := 10 + t.Rng.IntN(40)
	for len(msgs) < n {
		pt := plaintextOf(t.Rng, t.R)
		m, err := gs.EncryptMessage(ctx, p.R, clone(pt))
		if err != nil {
			t.Skip("cannot encrypt: %v", err)
		}
		w := clone(m.Bytes())
		it := uint32(len(msgs))
		pm, err := ref.ParseSenderKey(w)
		t.Eval()
		if err != nil {
			t.Violate("the reference cannot parse a group message: %v", err)
		}
		if pm.VersionByte != 0x33 || pm.Extra || pm.ChainID != chainID || pm.Iteration != it || string(pm.Dist) != d.String() {
			t.Violate("message %d is emitted as version %x dist %s chain %d iteration %d (chain %d)", it, pm.VersionByte, pm.Dist, pm.ChainID, pm.Iteration, chainID)
		}
		iv, key := ref.SenderMsgKeys(ck)
		if want := ref.CBCEncrypt(key, iv, pt); !bytes.Equal(pm.Ciphertext, want) {
			t.Violate("message %d is not encrypted with the key and IV of iteration %d", it, it)
		}
		for _, x := range [][]byte{iv, key} {
			if o, dup := keys[string(x)]; dup {
				t.Violate("messages %d and %d share a key or IV", o, it)
			}
			keys[string(x)] = it
		}
		spend13(u, ck, fmt.Sprintf("sent message %d", it))
		ck = ref.NextChain(ck)
		look13(t, p, p.Addr, d, u, fmt.Sprintf("sending message %d", it))
		msgs = append(msgs, msg{it, w, pt})
		if t.Rng.IntN(12) == 0 {
			join()
		}
		// some deliveries, in any order
		for t.Rng.IntN(3) > 0 {
			r := rxs[t.Rng.IntN(len(rxs))]
			x := msgs[t.Rng.IntN(len(msgs))]
			pt, err := r.r.Decrypt(x.wire)
			t.Eval()
			want := x.iter >= r.from && !r.got[x.iter]
			if want && (err != nil || !bytes.Equal(pt, x.plain)) {
				t.Violate("the reference receiver (joined at %d) cannot read message %d: %v", r.from, x.iter, err)
			}
			if want {
				r.got[x.iter] = true
				t.Count("library messages read by the reference", 1)
			}
			t.Seen("libsends", want, bucket(int(x.iter)), bucket(len(msgs)))
		}
	}
	for _, r := range rxs {
		for _, j := range t.Rng.Perm(len(msgs)) {
			x := msgs[j]
			if x.iter < r.from || r.got[x.iter] {
				continue
			}
			pt, err := r.r.Decrypt(x.wire)
			t.Eval()
			if err != nil || !bytes.Equal(pt, x.plain) {
				t.Violate("the reference receiver (joined at %d) cannot read message %d: %v", r.from, x.iter, err)
			}
			t.Count("library messages read by the reference", 1)
		}
	}
	if t.wantSample() {
		t.Sample(map[string]any{"case": t.Name, "messages": len(msgs), "receivers": len(rxs), "keys watched": u.n})
	}
}

func libReceives13(t *T, i int) {
	p := newParty(t, "bob", 1)
	from := address.Address{Name: "ref", DeviceID: 3}
	d := newDist(t)
	s := &ref.GroupSender{Dist: []byte(d.String()), ChainID: t.Rng.Uint32() >> t.Rng.IntN(2), CK: randBytes(t, 32), Sign: ref.GenKP(t.R)}
	switch i % 5 {
	case 0:
		s.N = t.Rng.Uint32N(300)
	case 1:
		s.N = 1<<31 - 20
	case 2:
		s.ChainID = 0
	}
	gs := p.Group(from, distribution.ID{})
	pre := t.Rng.IntN(3)
	for j := 0; j < pre; j++ { // sent before p joins
		s.Encrypt([]byte("before"), randBytes(t, 64))
	}
	skd, err := message.NewSenderKeyDistributionFromBytes(s.SKD())
	t.Eval()
	if err != nil {
		t.Violate("the library cannot parse the reference's distribution message: %v", err)
	}
	if err := gs.ProcessSenderKeyDistribution(ctx, skd); err != nil {
		t.Violate("the library refuses the reference's distribution message: %v", err)
	}
	type msg struct {
		iter  uint32
		wire  []byte
		plain []byte
		ck    []byte
	}
	var msgs []msg
	n := 5 + t.Rng.IntN(60)
	for j := 0; j < n; j++ {
		pt := plaintextOf(t.Rng, t.R)
		m := msg{iter: s.N, plain: pt, ck: clone(s.CK)}
		m.wire = s.Encrypt(pt, randBytes(t, 64))
		msgs = append(msgs, m)
	}
	start := msgs[0].iter
	u := newSpent()
	next := start
	order := t.Rng.Perm(n)
	switch i % 4 {
	case 1: // nearly in order
		for j := range order {
			order[j] = j
		}
		for j := 0; j < n/4; j++ {
			a := t.Rng.IntN(n)
			b := min(n-1, a+t.Rng.IntN(4))
			order[a], order[b] = order[b], order[a]
		}
	case 2: // losses
		order = order[:n-n/3]
	}
	for _, j := range order {
		m := msgs[j]
		pm, err := message.NewSenderKeyFromBytes(clone(m.wire))
		t.Eval()
		if err != nil {
			t.Violate("the library cannot parse the reference's message %d: %v", m.iter, err)
		}
		pt, err := gs.DecryptMessage(ctx, pm)
		t.Logf("message %d (next %d) -> %v", m.iter, next, err)
		if err != nil || !bytes.Equal(pt, m.plain) {
			t.Violate("the library cannot read the reference's message %d (chain at %d): %v", m.iter, next, err)
		}
		t.Count("reference messages read by the library", 1)
		t.Seen("libreceives", m.iter < next, bucket(int(m.iter-next)), bucket(j))
		spend13(u, m.ck, fmt.Sprintf("received message %d", m.iter))
		for next <= m.iter { // chain keys before the new position must be gone as well
			u.add(nil, fmt.Sprintf("the chain key of iteration %d", next), msgs[next-start].ck)
			next++
		}
		look13(t, p, from, d, u, fmt.Sprintf("receiving message %d", m.iter))
	}
	if t.wantSample() {
		t.Sample(map[string]any{"case": t.Name, "start": start, "order": order[:min(20, len(order))], "keys watched": u.n})
	}
}

func kdf13(t *T, i int) {
	it := []uint32{0, 1, 127, 128, 1<<31 - 2, 1 << 31, 1<<32 - 30}[i%7]
	seed := randBytes(t, 32)
	if i%10 == 0 {
		seed = make([]byte, 32)
	}
	ck := senderkey.NewChainKey(clone(seed), it)
	want := clone(seed)
	for j := 0; j < 20; j++ {
		mk, err := ck.MessageKey()
		t.Eval()
		if err != nil {
			t.Violate("MessageKey: %v", err)
		}
		iv, key := ref.SenderMsgKeys(want)
		eq13(t, "chain key", ck.Seed(), want)
		eq13(t, "message key seed", mk.Seed(), ref.HMAC(want, []byte{1}))
		eq13(t, "cipher key", mk.CipherKey(), key)
		eq13(t, "IV", mk.IV(), iv)
		if mk.Iteration() != it+uint32(j) || ck.Iteration() != it+uint32(j) {
			t.Violate("iteration %d/%d of the %dth key of a chain starting at %d", mk.Iteration(), ck.Iteration(), j, it)
		}
		d, err := senderkey.DeriveMessageKey(ref.HMAC(want, []byte{1}), it)
		if err != nil {
			t.Violate("DeriveMessageKey: %v", err)
		}
		eq13(t, "derived cipher key", d.CipherKey(), key)
		eq13(t, "derived IV", d.IV(), iv)
		nk := ck.Next()
		eq13(t, "chain key after Next", ck.Seed(), want)
		ck, want = nk, ref.NextChain(want)
		t.Count("chain keys compared", 1)
	}
	t.Seen("kdf", it)
}

func eq13(t *T, what string, got, want []byte) {
	if !bytes.Equal(got, want) {
		t.Violate("%s is %x, the reference has %x", what, got, want)
	}
}

// window13: jumps that fill the window of skipped keys; what falls out of it is forgotten.
func window13(t *T, i int) {
	p := newParty(t, "bob", 1)
	from := address.Address{Name: "ref", DeviceID: 3}
	d := newDist(t)
	s := &ref.GroupSender{Dist: []byte(d.String()), ChainID: 9, CK: randBytes(t, 32), Sign: ref.GenKP(t.R)}
	gs := p.Group(from, distribution.ID{})
	if err := gs.ProcessSenderKeyDistribution(ctx, must(message.NewSenderKeyDistributionFromBytes(s.SKD()))); err != nil {
		t.Skip("%v", err)
	}
	u := newSpent()
	var seeds [][]byte // message key seeds of the skipped ones, by order of skipping
	open := func(w []byte) error {
		_, err := gs.DecryptMessage(ctx, must(message.NewSenderKeyFromBytes(w)))
		return err
	}
	jumps := [][]int{{2000, 1, 1, 1}, {1999, 1, 1}, {2001}, {6000, 100}, {700, 700, 700, 700}, {1, 2000}, {24999}, {25000}}[i%8]
	for _, j := range jumps {
		for k := 0; k < j; k++ {
			u.add(nil, fmt.Sprintf("the chain key of iteration %d", s.N), s.CK)
			seeds = append(seeds, ref.HMAC(s.CK, []byte{1}))
			s.CK = ref.NextChain(s.CK)
			s.N++
		}
		ck := clone(s.CK)
		it := s.N
		if err := open(s.Encrypt([]byte("jump"), randBytes(t, 64))); err != nil {
			t.Violate("message %d, %d ahead, refused: %v", it, j, err)
		}
		spend13(u, ck, fmt.Sprintf("received message %d", it))
		for len(seeds) > modelMaxSkipped { // forgotten
			u.add(nil, "the key of a message skipped more than 2,000 skipped messages ago", seeds[0])
			seeds = seeds[1:]
		}
		look13(t, p, from, d, u, fmt.Sprintf("a jump of %d", j))
	}
	t.Count("full windows", 1)
	t.Seen("window", i)
}

// limit13: messages more than 25,000 ahead are refused, ones 25,000 ahead are not.
func limit13(t *T, i int) {
	p := newParty(t, "bob", 1)
	from := address.Address{Name: "ref", DeviceID: 3}
	d := newDist(t)
	s := &ref.GroupSender{Dist: []byte(d.String()), ChainID: 9, CK: randBytes(t, 32), Sign: ref.GenKP(t.R)}
	if i%3 == 1 {
		s.N = 1 << 20
	}
	if i%3 == 2 {
		s.N = 1<<31 - 10000
	}
	gs := p.Group(from, distribution.ID{})
	if err := gs.ProcessSenderKeyDistribution(ctx, must(message.NewSenderKeyDistributionFromBytes(s.SKD()))); err != nil {
		t.Skip("%v", err)
	}
	open := func(w []byte) error {
		_, err := gs.DecryptMessage(ctx, must(message.NewSenderKeyFromBytes(w)))
		return err
	}
	if i%2 == 1 {
		for k := 0; k < 3; k++ {
			if err := open(s.Encrypt([]byte("m"), randBytes(t, 64))); err != nil {
				t.Skip("%v", err)
			}
		}
	}
	at := s.N
	j := []int{25000, 25001, 25002, 26000, 50000, 70000}[i%6]
	for k := 0; k < j; k++ {
		s.CK = ref.NextChain(s.CK)
		s.N++
	}
	t.Eval()
	err := open(s.Encrypt([]byte("far"), randBytes(t, 64)))
	t.Logf("chain at %d, message %d (%d ahead) -> %v", at, s.N-1, j, err)
	if j > modelMaxJump && err == nil {
		t.Violate("a message %d ahead of its chain was accepted", j)
	}
	if j <= modelMaxJump && err != nil {
		t.Violate("a message %d ahead of its chain was refused: %v", j, err)
	}
	if j > modelMaxJump {
		t.Count("messages beyond the limit refused", 1)
		// huge iterations, with the difference wrapping around
		for _, it := range []uint32{1<<32 - 1, 1 << 31, at + 25001, at + 1<<31} {
			if it-at <= modelMaxJump || it < at {
				continue
			}
			f := &ref.GroupSender{Dist: s.Dist, ChainID: s.ChainID, CK: randBytes(t, 32), N: it, Sign: s.Sign}
			t.Eval()
			if err := open(f.Encrypt([]byte("far"), randBytes(t, 64))); err == nil {
				t.Violate("a message of iteration %d was accepted by a chain at %d", it, at)
			}
			t.Count("messages beyond the limit refused", 1)
		}
	} else {
		t.Count("messages at the limit accepted", 1)
	}
	t.Seen("limit", i)
}

// sizes13: messages of large and exact sizes in both directions.
func sizes13(t *T, i int) {
	p := newParty(t, "alice", 1)
	from := address.Address{Name: "ref", DeviceID: 1}
	d := newDist(t)
	skd, err := p.Group(p.Addr, d).NewSenderKeyDistribution(ctx, t.R)
	if err != nil {
		t.Violate("no distribution message: %v", err)
	}
	r, err := ref.NewGroupReceiver(skd.Bytes())
	if err != nil {
		t.Violate("the reference cannot read the distribution message: %v", err)
	}
	s := &ref.GroupSender{Dist: []byte(d.String()), ChainID: t.Rng.Uint32(), CK: randBytes(t, 32), N: t.Rng.Uint32() >> (1 + t.Rng.IntN(31)), Sign: ref.GenKP(t.R)}
	in, err := message.NewSenderKeyDistributionFromBytes(s.SKD())
	if err != nil {
		t.Violate("the library cannot read the reference's distribution message: %v", err)
	}
	if err := p.Group(from, distribution.ID{}).ProcessSenderKeyDistribution(ctx, in); err != nil {
		t.Violate("the library refuses the reference's distribution message: %v", err)
	}
	n := 1<<(i%21) + i/21 - 1
	for k := 0; k < 3; k++ {
		pt := randBytes(t, n+[]int{0, -1, 1}[k]*min(1, n))
		m, err := p.Group(p.Addr, d).EncryptMessage(ctx, t.R, pt)
		if err != nil {
			t.Violate("the library cannot send %d bytes: %v", len(pt), err)
		}
		t.Eval()
		if got, err := r.Decrypt(m.Bytes()); err != nil || !bytes.Equal(got, pt) {
			t.Violate("the reference reads the library's message of %d bytes as %s, %v", len(pt), hexs(got), err)
		}
		x, err := message.NewSenderKeyFromBytes(s.Encrypt(pt, randBytes(t, 64)))
		if err != nil {
			t.Violate("the library cannot parse the reference's message of %d bytes: %v", len(pt), err)
		}
		t.Eval()
		if got, err := p.Group(from, d).DecryptMessage(ctx, x); err != nil || !bytes.Equal(got, pt) {
			t.Violate("the library reads the reference's message of %d bytes as %s, %v", len(pt), hexs(got), err)
		}
		t.Seen("size", len(pt))
		t.Count("library messages read by the reference", 1)
		t.Count("reference messages read by the library", 1)
	}
}

// long13: the library sends n messages in a row, each with the key of its place in the chain.
func long13(t *T, n int) {
	p := newParty(t, "alice", 1)
	d := newDist(t)
	skd, err := p.Group(p.Addr, d).NewSenderKeyDistribution(ctx, t.R)
	ok(t, err)
	r, err := ref.NewGroupReceiver(skd.Bytes())
	if err != nil {
		t.Violate("the reference cannot read the distribution message: %v", err)
	}
	start, err := ref.ParseSKD(skd.Bytes())
	ok(t, err)
	ck := clone(start.ChainKey)
	for k := 0; k < n; k++ {
		pt := []byte(fmt.Sprint("message ", k))
		m, err := p.Group(p.Addr, d).EncryptMessage(ctx, t.R, pt)
		ok(t, err)
		t.Eval()
		pm, err := ref.ParseSenderKey(m.Bytes())
		if err != nil || pm.Iteration != uint32(k) {
			t.Violate("message %d is emitted as %x, at iteration %d (%v)", k, m.Bytes(), pm.Iteration, err)
		}
		iv, key := ref.SenderMsgKeys(ck)
		ck = ref.NextChain(ck)
		if !bytes.Equal(pm.Ciphertext, ref.CBCEncrypt(key, iv, pt)) {
			t.Violate("message %d is not encrypted with the key and IV of its iteration", k)
		}
		if k%100 == 0 || k&(k-1) == 0 { // the reference checks signatures slowly
			if got, err := r.Decrypt(m.Bytes()); err != nil || !bytes.Equal(got, pt) {
				t.Violate("the reference reads message %d as %s, %v", k, hexs(got), err)
			}
		}
		if k&(k+1) == 0 { // someone joins
			skd, err := p.Group(p.Addr, d).NewSenderKeyDistribution(ctx, t.R)
			ok(t, err)
			if m, err := ref.ParseSKD(skd.Bytes()); err != nil || m.Iteration != uint32(k+1) || m.ChainID != pm.ChainID {
				t.Violate("the distribution message after %d messages is %x (%v)", k+1, skd.Bytes(), err)
			}
		}
		t.Count("messages of a long chain", 1)
	}
	t.Seen("long", n)
}
