package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/direction"
	"github.com/RTann/libsignal-go/protocol/distribution"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/protocol"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/senderkey"
	"github.com/RTann/libsignal-go/protocol/session"
)

func init() {
	register(&Check{
		ID:   "C24",
		Rule: "Random histories of store, load, delete and clear on two store instances at once, over keys chosen to collide (names that extend or spell each other or contain separators, device ids whose digits join with names, ids that agree in their low or high bits, distribution ids one bit apart), checked against reference maps: the touched key after every operation and all keys in sweeps. Loaded and stored session and group records are then changed through everything that can change them, without storing them. Distinct by (store, operation, kind of key, what was there).",
		Run:  runC24,
	})
}

func runC24(c *C) {
	c.Cases("sessions", c.N(120, 3000), sessions24)
	c.Cases("groups", c.N(120, 3000), groups24)
	c.Cases("prekeys", c.N(120, 3000), prekeys24)
	c.Cases("identities", c.N(120, 3000), identities24)
	c.Cases("mixed", c.N(80, 2000), mixed24)
	c.Cases("many", c.N(4, 16), func(t *T, i int) { many24(t, c.N(9000, 100_000)) })
	c.Require("loads checked", 50000)
	c.Require("records changed after loading", 1000)
	c.Require("records changed after storing", 500)
}

var names24 = []string{"alice", "alic", "alice1", "", "alice:1", "alice.1", "alice.", "Alice", " alice", "alice\x00", "1", "11", strings.Repeat("a", 300), "é", "e\u0301", "alice/1", "bob"}
var devs24 = []address.DeviceID{0, 1, 2, 11, 12, 111, 257, 1 << 16, 1<<16 | 1, 1 << 31, 1<<31 | 1, 1<<32 - 1}
var ids24 = []prekey.ID{0, 1, 2, 127, 128, 255, 256, 257, 1 << 16, 1<<16 | 1, 1<<24 - 1, 1 << 24, 1<<24 | 1, 1<<31 - 1, 1 << 31, 1<<31 | 1, 1<<32 - 1}
var dists24 = []distribution.ID{
	{}, distribution.MustParse("00000000-0000-0000-0000-000000000001"), distribution.MustParse("80000000-0000-0000-0000-000000000000"),
	distribution.MustParse("6ba7b810-9dad-11d1-80b4-00c04fd430c8"), distribution.MustParse("6ba7b810-9dad-11d1-80b4-00c04fd430c9"),
	distribution.MustParse("6ba7b810-9dad-11d1-80b5-00c04fd430c8"), distribution.MustParse("7ba7b810-9dad-11d1-80b4-00c04fd430c8"),
	distribution.MustParse("ffffffff-ffff-ffff-ffff-ffffffffffff"),
}

func addrs24(t *T) []address.Address {
	var as []address.Address
	for _, n := range names24 {
		for _, d := range devs24 {
			as = append(as, address.Address{Name: n, DeviceID: d})
		}
	}
	// A random third, the same in every sweep, so that histories come back to the same keys.
	t.Rng.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	return as[:len(as)/3]
}

func randStruct(t *T) *v1.SessionStructure {
	b := func(n int) []byte { return randBytes(t, n) }
	chain := func() *v1.SessionStructure_Chain {
		c := &v1.SessionStructure_Chain{SenderRatchetKey: append([]byte{5}, b(32)...), ChainKey: &v1.SessionStructure_Chain_ChainKey{Index: t.Rng.Uint32(), Key: b(32)}}
		for n := t.Rng.IntN(4); n > 0; n-- {
			c.MessageKeys = append(c.MessageKeys, &v1.SessionStructure_Chain_MessageKey{Index: t.Rng.Uint32N(100), CipherKey: b(32), MacKey: b(32), Iv: b(16)})
		}
		return c
	}
	s := &v1.SessionStructure{
		SessionVersion: 3, LocalIdentityPublic: append([]byte{5}, b(32)...), RemoteIdentityPublic: append([]byte{5}, b(32)...),
		RootKey: b(32), PreviousCounter: t.Rng.Uint32(), SenderChain: chain(), RemoteRegistrationId: t.Rng.Uint32(), LocalRegistrationId: t.Rng.Uint32(),
		AliceBaseKey: append([]byte{5}, b(32)...),
	}
	s.SenderChain.SenderRatchetKeyPrivate = b(32)
	for n := t.Rng.IntN(5); n > 0; n-- {
		s.ReceiverChains = append(s.ReceiverChains, chain())
	}
	if t.Rng.IntN(2) == 0 {
		s.PendingPreKey = &v1.SessionStructure_PendingPreKey{PreKeyId: t.Rng.Uint32(), SignedPreKeyId: int32(t.Rng.Uint32()), BaseKey: append([]byte{5}, b(32)...)}
	}
	return s
}

func randRecord(t *T) *session.Record {
	if t.Rng.IntN(12) == 0 {
		return session.NewRecord(nil)
	}
	r := session.NewRecord(session.NewState(randStruct(t)))
	n := t.Rng.IntN(4)
	if t.Rng.IntN(10) == 0 {
		n = 40
	}
	for ; n > 0; n-- {
		r.PromoteState(session.NewState(randStruct(t)))
	}
	return r
}

// view24 is the contents of a session record.
func view24(r *session.Record) string {
	if r == nil {
		return "nil"
	}
	sr := save(r)
	return fmt.Sprintf("current %x archived %x", sr.cur, sr.prev)
}

// spoil24 changes a session record in one of the ways a caller can.
func spoil24(t *T, r *session.Record) string {
	st := r.State()
	if st == nil {
		r.PromoteState(session.NewState(randStruct(t)))
		return "promote into fresh record"
	}
	key := must(curve.GenerateKeyPair(t.R))
	var rcv curve.PublicKey
	s := structOf(st)
	if len(s.ReceiverChains) > 0 {
		rcv = must(curve.NewPublicKey(s.ReceiverChains[t.Rng.IntN(len(s.ReceiverChains))].SenderRatchetKey))
	}
	n := t.Rng.IntN(16)
	if rcv == nil && n >= 12 {
		n -= 12
	}
	switch n {
	case 0:
		st.SetRootKey(must(ratchet.NewRootKey(randBytes(t, 32))))
		return "root key"
	case 1:
		st.SetPreviousCounter(^st.PreviousCounter())
		return "previous counter"
	case 2:
		st.SetAliceBaseKey(randBytes(t, 33))
		return "base key"
	case 3:
		b := st.AliceBaseKey()
		for i := range b {
			b[i] ^= 0xff
		}
		return "base key in place"
	case 4:
		r.PromoteState(session.NewState(randStruct(t)))
		return "promote"
	case 5:
		r.SetSessionState(nil)
		return "unset"
	case 6:
		r.ArchiveCurrentState()
		return "archive"
	case 7:
		prev := must(r.PreviousStates())
		if len(prev) > 0 {
			i := t.Rng.IntN(len(prev))
			r.PromoteOldState(i, prev[i])
			return "promote old"
		}
		st.ClearUnacknowledgedPreKeyMessage()
		st.SetPreviousCounter(st.PreviousCounter() + 1)
		return "clear pending"
	case 8:
		st.SetSenderChainKey(must(ratchet.NewChainKey(randBytes(t, 32), t.Rng.Uint32())))
		return "sender chain key"
	case 9:
		st.SetSenderChain(key, must(ratchet.NewChainKey(randBytes(t, 32), t.Rng.Uint32())))
		return "sender chain"
	case 10:
		st.AddReceiverChain(key.PublicKey(), must(ratchet.NewChainKey(randBytes(t, 32), t.Rng.Uint32())))
		return "receiver chain"
	case 11:
		st.SetUnacknowledgedPreKeyMessage(nil, prekey.ID(t.Rng.Uint32()), key.PublicKey())
		return "pending"
	case 12:
		if _, ch := st.ReceiverChain(rcv); ch != nil {
			ch.ChainKey.Index++
			ch.ChainKey.Key[0] ^= 1
		}
		return "receiver chain in place"
	case 13:
		if err := st.SetReceiverChainKey(rcv, must(ratchet.NewChainKey(randBytes(t, 32), t.Rng.Uint32()))); err != nil {
			panic(err)
		}
		return "receiver chain key"
	case 14:
		if err := st.SetMessageKeys(rcv, must(ratchet.NewMessageKeys(randBytes(t, 32), randBytes(t, 32), randBytes(t, 16), 7))); err != nil {
			panic(err)
		}
		return "add message keys"
	default:
		for i := uint32(0); i < 100; i++ {
			st.MessageKeys(rcv, i)
		}
		return "take message keys"
	}
}

func sessions24(t *T, i int) {
	stores := []session.Store{session.NewInMemStore(), session.NewInMemStore()}
	want := []map[address.Address]string{{}, {}}
	as := addrs24(t)
	check := func(k int, a address.Address) {
		t.Eval()
		t.Count("loads checked", 1)
		r, ok, err := stores[k].Load(ctx, a)
		w, has := want[k][a]
		switch {
		case err != nil:
			t.Violate("session store %d: load of %q/%d fails: %v", k, a.Name, a.DeviceID, err)
		case ok != has:
			t.Violate("session store %d: load of %q/%d reports presence %v, it should be %v", k, a.Name, a.DeviceID, ok, has)
		case ok && view24(r) != w:
			t.Violate("session store %d: load of %q/%d returns\n%s\nstored was\n%s", k, a.Name, a.DeviceID, clip(view24(r)), clip(w))
		}
	}
	for n := 0; n < 120; n++ {
		k := t.Rng.IntN(2)
		a := as[t.Rng.IntN(len(as))]
		if t.Rng.IntN(2) == 0 {
			a = as[t.Rng.IntN(8)]
		}
		_, had := want[k][a]
		switch t.Rng.IntN(3) {
		case 0:
			r := randRecord(t)
			w := view24(r)
			if err := stores[k].Store(ctx, a, r); err != nil {
				t.Violate("session store %d: store fails: %v", k, err)
			}
			t.Logf("store %d %q/%d", k, a.Name, a.DeviceID)
			if view24(r) != w {
				t.Violate("storing changes the record")
			}
			want[k][a] = w
			check(k, a)
			t.Seen("session store", a.Name, a.DeviceID, had)
			if t.Rng.IntN(2) == 0 {
				how := spoil24(t, r)
				t.Logf("change the stored record: %s", how)
				t.Count("records changed after storing", 1)
				t.Seen("session after store", how)
				check(k, a)
			}
		case 1:
			r, ok, err := stores[k].Load(ctx, a)
			if err != nil || !ok {
				check(k, a)
				continue
			}
			how := spoil24(t, r)
			t.Logf("load %d %q/%d and change: %s", k, a.Name, a.DeviceID, how)
			t.Count("records changed after loading", 1)
			t.Seen("session after load", how)
			check(k, a)
			if t.Rng.IntN(3) == 0 { // stored back, under another key too
				b := as[t.Rng.IntN(len(as))]
				w := view24(r)
				for _, x := range []address.Address{a, b} {
					if err := stores[k].Store(ctx, x, r); err != nil {
						t.Violate("session store %d: store fails: %v", k, err)
					}
					want[k][x] = w
				}
				t.Logf("store back, also under %q/%d", b.Name, b.DeviceID)
				r2, ok, _ := stores[k].Load(ctx, b)
				if ok {
					spoil24(t, r2)
				}
				check(k, a)
				check(k, b)
			}
		default:
			check(k, a)
		}
		if n%30 == 29 {
			for k := range stores {
				for _, a := range as {
					check(k, a)
				}
			}
		}
	}
}

func randGroupRecord(t *T) (*session.GroupRecord, []uint32) {
	r := session.NewGroupRecord()
	var ids []uint32
	for n := t.Rng.IntN(6); n > 0; n-- {
		kp := must(curve.GenerateKeyPair(t.R))
		cfg := session.GroupStateConfig{MessageVersion: message.SenderKeyVersion, ChainID: t.Rng.Uint32(), Iteration: t.Rng.Uint32(), ChainKey: randBytes(t, 32), SignatureKey: kp.PublicKey()}
		if t.Rng.IntN(2) == 0 {
			cfg.SignaturePrivateKey = kp.PrivateKey()
		}
		st := session.NewGroupState(cfg)
		for m := t.Rng.IntN(4); m > 0; m-- {
			st.AddMessageKey(must(senderkey.DeriveMessageKey(randBytes(t, 32), t.Rng.Uint32N(50))))
		}
		if err := r.AddState(st); err != nil {
			panic(err)
		}
		ids = append(ids, cfg.ChainID)
	}
	return r, ids
}

// gview24 is the contents of a group record as its accessors tell them.
func gview24(r *session.GroupRecord, ids []uint32) string {
	var b strings.Builder
	show := func(s *session.GroupState) {
		pub, err := s.PublicSigningKey()
		if err == nil {
			fmt.Fprintf(&b, "pub %x ", pub.Bytes())
		}
		priv, err := s.PrivateSigningKey()
		if err == nil {
			fmt.Fprintf(&b, "priv %x ", priv.Bytes())
		}
		fmt.Fprintf(&b, "chain %d version %d seed %x iteration %d\n", s.ChainID(), s.Version(), s.SenderChainKey().Seed(), s.SenderChainKey().Iteration())
	}
	if s, err := r.State(); err == nil {
		b.WriteString("current ")
		show(s)
	}
	for _, id := range ids {
		if s := r.StateForChainID(id); s != nil {
			fmt.Fprintf(&b, "%d: ", id)
			show(s)
		}
	}
	return b.String()
}

func gspoil24(t *T, r *session.GroupRecord, ids []uint32) string {
	if len(ids) == 0 {
		x, _ := randGroupRecord(t)
		if s, err := x.State(); err == nil {
			if err := r.AddState(s); err != nil {
				panic(err)
			}
		}
		return "add to empty"
	}
	s := r.StateForChainID(ids[t.Rng.IntN(len(ids))])
	if s == nil {
		return "none"
	}
	switch t.Rng.IntN(6) {
	case 0:
		s.SetSenderChainKey(senderkey.NewChainKey(randBytes(t, 32), t.Rng.Uint32()))
		return "chain key"
	case 1:
		b := s.SenderChainKey().Seed()
		for i := range b {
			b[i] ^= 0x55
		}
		return "seed in place"
	case 2:
		s.AddMessageKey(must(senderkey.DeriveMessageKey(randBytes(t, 32), t.Rng.Uint32())))
		return "add message key"
	case 3:
		for i := uint32(0); i < 50; i++ {
			s.RemoveMessageKeys(i)
		}
		return "take message keys"
	case 4:
		r.RemoveStates(s.ChainID())
		return "remove state"
	default:
		x, _ := randGroupRecord(t)
		if s, err := x.State(); err == nil {
			if err := r.AddState(s); err != nil {
				panic(err)
			}
		}
		return "add state"
	}
}

// skipped24 takes the message keys out of a record of its own.
func skipped24(r *session.GroupRecord, ids []uint32) string {
	var b strings.Builder
	for _, id := range ids {
		if s := r.StateForChainID(id); s != nil {
			for i := uint32(0); i < 50; i++ {
				for {
					k, ok, err := s.RemoveMessageKeys(i)
					if err != nil || !ok {
						break
					}
					fmt.Fprintf(&b, "%d/%d %x\n", id, i, k.Seed())
				}
			}
		}
	}
	return b.String()
}

func groups24(t *T, i int) {
	type key struct {
		a address.Address
		d distribution.ID
	}
	type val struct {
		ids           []uint32
		view, skipped string
	}
	stores := []session.GroupStore{session.NewInMemGroupStore(), session.NewInMemGroupStore()}
	want := []map[key]val{{}, {}}
	as := addrs24(t)[:12]
	check := func(k int, x key) {
		t.Eval()
		t.Count("loads checked", 1)
		w, has := want[k][x]
		for pass := 0; pass < 2; pass++ {
			r, ok, err := stores[k].Load(ctx, x.a, x.d)
			switch {
			case err != nil:
				t.Violate("group store %d: load of %q/%d %v fails: %v", k, x.a.Name, x.a.DeviceID, x.d, err)
			case ok != has:
				t.Violate("group store %d: load of %q/%d %v reports presence %v, it should be %v", k, x.a.Name, x.a.DeviceID, x.d, ok, has)
			case !ok:
				return
			}
			if v := gview24(r, w.ids); v != w.view {
				t.Violate("group store %d: load of %q/%d %v returns\n%s\nstored was\n%s", k, x.a.Name, x.a.DeviceID, x.d, clip(v), clip(w.view))
			}
			if v := skipped24(r, w.ids); v != w.skipped {
				t.Violate("group store %d: load of %q/%d %v returns the skipped keys\n%s\nstored were\n%s", k, x.a.Name, x.a.DeviceID, x.d, clip(v), clip(w.skipped))
			}
		}
	}
	put := func(k int, x key, r *session.GroupRecord, w val) {
		if err := stores[k].Store(ctx, x.a, x.d, r); err != nil {
			t.Violate("group store %d: store fails: %v", k, err)
		}
		want[k][x] = w
		t.Logf("store %d %q/%d %v", k, x.a.Name, x.a.DeviceID, x.d)
	}
	for n := 0; n < 100; n++ {
		k := t.Rng.IntN(2)
		x := key{as[t.Rng.IntN(len(as))], dists24[t.Rng.IntN(len(dists24))]}
		if t.Rng.IntN(2) == 0 {
			x = key{as[t.Rng.IntN(3)], dists24[t.Rng.IntN(3)]}
		}
		w, had := want[k][x]
		switch t.Rng.IntN(3) {
		case 0:
			r, ids := randGroupRecord(t)
			w := val{ids: ids, view: gview24(r, ids)}
			put(k, x, r, w)
			// The skipped keys are learned from a first copy and have to be the same in every later one.
			c, ok, err := stores[k].Load(ctx, x.a, x.d)
			if err != nil || !ok {
				t.Violate("group store %d: load after store: %v, %v", k, ok, err)
			}
			w.skipped = skipped24(c, ids)
			want[k][x] = w
			check(k, x)
			t.Seen("group store", x.a.Name, x.a.DeviceID, x.d.String(), had)
			if t.Rng.IntN(2) == 0 {
				how := gspoil24(t, r, ids)
				t.Logf("change the stored record: %s", how)
				t.Count("records changed after storing", 1)
				t.Seen("group after store", how)
				check(k, x)
			}
		case 1:
			r, ok, err := stores[k].Load(ctx, x.a, x.d)
			if err != nil || !ok {
				check(k, x)
				continue
			}
			how := gspoil24(t, r, w.ids)
			t.Logf("load %d and change: %s", k, how)
			t.Count("records changed after loading", 1)
			t.Seen("group after load", how)
			check(k, x)
			if t.Rng.IntN(3) == 0 {
				v, ok, _ := stores[k].Load(ctx, x.a, x.d)
				if ok {
					y := key{as[t.Rng.IntN(len(as))], x.d}
					put(k, y, v, w)
					gspoil24(t, v, w.ids)
					check(k, y)
					check(k, x)
				}
			}
		default:
			check(k, x)
		}
		if n%25 == 24 {
			for k := range stores {
				for _, a := range as {
					for _, d := range dists24 {
						check(k, key{a, d})
					}
				}
			}
		}
	}
}

func kp24(kp *curve.KeyPair, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	return fmt.Sprintf("%x %x", kp.PrivateKey().Bytes(), kp.PublicKey().Bytes())
}

func prekeys24(t *T, i int) {
	pre := []prekey.Store{prekey.NewInMemStore(), prekey.NewInMemStore()}
	signed := []prekey.SignedStore{prekey.NewInMemSignedStore(), prekey.NewInMemSignedStore()}
	wp := []map[prekey.ID]string{{}, {}}
	ws := []map[prekey.ID]string{{}, {}}
	check := func(k int, id prekey.ID) {
		t.Eval()
		t.Count("loads checked", 2)
		p, ok, err := pre[k].Load(ctx, id)
		w, has := wp[k][id]
		if err != nil || ok != has {
			t.Violate("pre-key store %d: load of %d reports presence %v (%v), it should be %v", k, id, ok, err, has)
		}
		if ok && kp24(p.KeyPair()) != w {
			t.Violate("pre-key store %d: load of %d returns %s, stored was %s", k, id, kp24(p.KeyPair()), w)
		}
		s, ok, err := signed[k].Load(ctx, id)
		w, has = ws[k][id]
		if err != nil || ok != has {
			t.Violate("signed pre-key store %d: load of %d reports presence %v (%v), it should be %v", k, id, ok, err, has)
		}
		if ok && kp24(s.KeyPair()) != w {
			t.Violate("signed pre-key store %d: load of %d returns %s, stored was %s", k, id, kp24(s.KeyPair()), w)
		}
	}
	for n := 0; n < 120; n++ {
		k := t.Rng.IntN(2)
		id := ids24[t.Rng.IntN(len(ids24))]
		var kp *curve.KeyPair
		op := t.Rng.IntN(4)
		if op < 2 {
			kp = must(curve.GenerateKeyPair(t.R))
		}
		in := id // the id inside the record need not be the key
		if t.Rng.IntN(3) == 0 {
			in = ids24[t.Rng.IntN(len(ids24))]
		}
		var err error
		_, had := wp[k][id]
		switch op {
		case 0:
			err = pre[k].Store(ctx, id, prekey.NewPreKey(in, kp))
			wp[k][id] = kp24(kp, nil)
		case 1:
			err = signed[k].Store(ctx, id, prekey.NewSigned(in, t.Rng.Uint64(), kp, randBytes(t, 64)))
			ws[k][id] = kp24(kp, nil)
		case 2:
			err = pre[k].Delete(ctx, id)
			delete(wp[k], id)
		}
		t.Logf("%d: operation %d on %d -> %v", k, op, id, err)
		if err != nil {
			t.Violate("pre-key store %d: operation %d on %d fails: %v", k, op, id, err)
		}
		t.Seen("prekey", op, uint32(id), had)
		check(k, id)
		if n%20 == 19 {
			for k := range pre {
				for _, id := range ids24 {
					check(k, id)
				}
			}
		}
	}
}

func identities24(t *T, i int) {
	var kps []identity.KeyPair
	var regs []uint32
	var stores []identity.Store
	for k := 0; k < 2; k++ {
		kps = append(kps, must(identity.GenerateKeyPair(t.R)))
		regs = append(regs, []uint32{0, 1, 1 << 31, 1<<32 - 1, t.Rng.Uint32()}[t.Rng.IntN(5)])
		stores = append(stores, identity.NewInMemStore(kps[k], regs[k]))
	}
	want := []map[address.Address][]byte{{}, {}}
	as := addrs24(t)
	check := func(k int, a address.Address) {
		t.Eval()
		t.Count("loads checked", 1)
		key, ok, err := stores[k].Load(ctx, a)
		w, has := want[k][a]
		if err != nil || ok != has {
			t.Violate("identity store %d: load of %q/%d reports presence %v (%v), it should be %v", k, a.Name, a.DeviceID, ok, err, has)
		}
		if ok && !bytes.Equal(key.Bytes(), w) {
			t.Violate("identity store %d: load of %q/%d returns %x, stored was %x", k, a.Name, a.DeviceID, key.Bytes(), w)
		}
		own := stores[k].KeyPair(ctx)
		if !bytes.Equal(own.PrivateKey().Bytes(), kps[k].PrivateKey().Bytes()) || !bytes.Equal(own.IdentityKey().Bytes(), kps[k].IdentityKey().Bytes()) || !bytes.Equal(own.PublicKey().Bytes(), kps[k].PublicKey().Bytes()) {
			t.Violate("identity store %d: the local identity changed", k)
		}
		if r := stores[k].LocalRegistrationID(ctx); r != regs[k] {
			t.Violate("identity store %d: the local registration id is %d instead of %d", k, r, regs[k])
		}
	}
	for n := 0; n < 80; n++ {
		k := t.Rng.IntN(2)
		a := as[t.Rng.IntN(len(as))]
		if t.Rng.IntN(2) == 0 {
			a = as[t.Rng.IntN(6)]
		}
		_, had := want[k][a]
		switch op := t.Rng.IntN(20); {
		case op == 0:
			if err := stores[k].Clear(); err != nil {
				t.Violate("identity store %d: clear fails: %v", k, err)
			}
			want[k] = map[address.Address][]byte{}
			t.Logf("%d: clear", k)
			t.Seen("identity clear")
			for _, b := range as {
				check(k, b)
			}
		case op < 10:
			key := ident19(t)
			if old := want[k][a]; old != nil && t.Rng.IntN(3) == 0 {
				key = must(identity.NewKey(clone(old)))
			} else if t.Rng.IntN(5) == 0 { // the stores' own identities
				key = kps[t.Rng.IntN(2)].IdentityKey()
			} else if b := as[t.Rng.IntN(len(as))]; want[1-k][b] != nil && t.Rng.IntN(4) == 0 { // one known elsewhere
				key = must(identity.NewKey(clone(want[1-k][b])))
			}
			_, err := stores[k].Store(ctx, a, key)
			t.Logf("%d: store %q/%d %x -> %v", k, a.Name, a.DeviceID, key.Bytes(), err)
			if err != nil {
				t.Violate("identity store %d: store fails: %v", k, err)
			}
			want[k][a] = clone(key.Bytes())
			t.Seen("identity store", a.Name, a.DeviceID, had)
		case op < 14: // asking does not store
			if _, err := stores[k].IsTrustedIdentity(ctx, a, ident19(t), []direction.Direction{direction.Sending, direction.Receiving}[t.Rng.IntN(2)]); err != nil {
				t.Violate("identity store %d: trust query fails: %v", k, err)
			}
			t.Seen("identity trust", a.Name, a.DeviceID, had)
		}
		check(k, a)
		if n%25 == 24 {
			for k := range stores {
				for _, b := range as {
					check(k, b)
				}
			}
		}
	}
}

// many24: stores hold on to everything however much it is.
func many24(t *T, n int) {
	sess, groups := session.NewInMemStore(), session.NewInMemGroupStore()
	pre, signed := prekey.NewInMemStore(), prekey.NewInMemSignedStore()
	ids := identity.NewInMemStore(must(identity.GenerateKeyPair(t.R)), 1)
	kp := must(curve.GenerateKeyPair(t.R))
	addr := func(k int) address.Address {
		return address.Address{Name: fmt.Sprint("user ", k/3), DeviceID: address.DeviceID(k % 3)}
	}
	dist := func(k int) distribution.ID { // few senders with many groups, and the other way round
		return distribution.MustParse(fmt.Sprintf("%08x-0000-4000-8000-%012x", k/7, k%7))
	}
	sender := func(k int) address.Address { return addr(k % (5 + n/100*(k%2))) }
	key := func(k int) identity.Key {
		return must(identity.NewKey(append([]byte{5, byte(k), byte(k >> 8), byte(k >> 16)}, make([]byte, 29)...)))
	}
	pair := func(k int) *curve.KeyPair {
		raw := make([]byte, 32)
		raw[8], raw[9], raw[10], raw[11] = byte(k), byte(k>>8), byte(k>>16), 1
		return must(curve.NewKeyPair(raw, kp.PublicKey().Bytes()))
	}
	same := func(p *curve.KeyPair, err error, k int) bool {
		return err == nil && bytes.Equal(p.PrivateKey().Bytes(), pair(k).PrivateKey().Bytes())
	}
	type gk struct {
		a address.Address
		d distribution.ID
	}
	group := map[gk]uint32{}
	put := func(err error) {
		if err != nil {
			t.Violate("a store fails: %v", err)
		}
	}
	check := func(k int, when string) {
		t.Eval()
		t.Count("loads checked", 5)
		bad := func(store string, ok bool, err error) {
			t.Violate("%s, with %d entries: entry %d of the %s is not what was stored (present: %v, %v)", when, n, k, store, ok, err)
		}
		if r, ok, err := sess.Load(ctx, addr(k)); !ok || err != nil || r.State().LocalRegistrationID() != uint32(k) {
			bad("session store", ok, err)
		}
		g := gk{sender(k), dist(k)}
		if r, ok, err := groups.Load(ctx, g.a, g.d); !ok || err != nil || must(r.State()).ChainID() != group[g] {
			bad("group store", ok, err)
		}
		if p, ok, err := pre.Load(ctx, prekey.ID(k)); !ok || err != nil {
			bad("pre-key store", ok, err)
		} else if x, err := p.KeyPair(); !same(x, err, k) {
			bad("pre-key store", ok, err)
		}
		if p, ok, err := signed.Load(ctx, prekey.ID(k)); !ok || err != nil {
			bad("signed pre-key store", ok, err)
		} else if x, err := p.KeyPair(); !same(x, err, k) {
			bad("signed pre-key store", ok, err)
		}
		if x, ok, err := ids.Load(ctx, addr(k)); !ok || err != nil || !x.Equal(key(k)) {
			bad("identity store", ok, err)
		}
	}
	for k := 0; k < n; k++ {
		put(sess.Store(ctx, addr(k), session.NewRecord(session.NewState(&v1.SessionStructure{SessionVersion: 3, LocalRegistrationId: uint32(k)}))))
		r := session.NewGroupRecord()
		put(r.AddState(session.NewGroupState(session.GroupStateConfig{MessageVersion: 3, ChainID: uint32(k), ChainKey: make([]byte, 32), SignatureKey: kp.PublicKey()})))
		put(groups.Store(ctx, sender(k), dist(k), r))
		group[gk{sender(k), dist(k)}] = uint32(k)
		put(pre.Store(ctx, prekey.ID(k), prekey.NewPreKey(prekey.ID(k), pair(k))))
		put(signed.Store(ctx, prekey.ID(k), prekey.NewSigned(prekey.ID(k), 0, pair(k), make([]byte, 64))))
		_, err := ids.Store(ctx, addr(k), key(k))
		put(err)
		check(t.Rng.IntN(k+1), "while filling")
	}
	for k := 0; k < n; k++ {
		check(k, "when filled")
	}
	t.Count("entries in the fullest store", int64(n))
	t.Seen("many", n)
}

// mixed24: the stores of one party under one roof do not affect each other, nor another party's.
func mixed24(t *T, i int) {
	ps := []protocol.Store{protocol.NewInMemStore(must(identity.GenerateKeyPair(t.R)), 1), protocol.NewInMemStore(must(identity.GenerateKeyPair(t.R)), 2)}
	view := func(p protocol.Store, as []address.Address) []string {
		var out []string
		add := func(what string, ok bool, v string, err error) {
			if err != nil {
				t.Violate("load fails: %v", err)
			}
			if ok {
				out = append(out, what+" "+v)
			}
		}
		for _, a := range as {
			r, ok, err := p.SessionStore().Load(ctx, a)
			v := ""
			if ok {
				v = view24(r)
			}
			add("session "+a.String(), ok, v, err)
			k, ok, err := p.IdentityStore().Load(ctx, a)
			if ok {
				v = fmt.Sprintf("%x", k.Bytes())
			}
			add("identity "+a.String(), ok, v, err)
			for _, d := range dists24[:3] {
				g, ok, err := p.GroupStore().Load(ctx, a, d)
				if ok {
					s, err := g.State()
					v = fmt.Sprint(err)
					if err == nil {
						v = fmt.Sprint(s.ChainID())
					}
				}
				add("group "+a.String()+d.String(), ok, v, err)
			}
		}
		for _, id := range ids24[:6] {
			k, ok, err := p.PreKeyStore().Load(ctx, id)
			v := ""
			if ok {
				v = kp24(k.KeyPair())
			}
			add(fmt.Sprintf("prekey %d", id), ok, v, err)
			s, ok, err := p.SignedPreKeyStore().Load(ctx, id)
			if ok {
				v = kp24(s.KeyPair())
			}
			add(fmt.Sprintf("signed %d", id), ok, v, err)
		}
		out = append(out, fmt.Sprintf("own %x %d", p.IdentityStore().KeyPair(ctx).PrivateKey().Bytes(), p.IdentityStore().LocalRegistrationID(ctx)))
		return out
	}
	as := addrs24(t)[:5]
	for n := 0; n < 40; n++ {
		k := t.Rng.IntN(2)
		before := [][]string{view(ps[0], as), view(ps[1], as)}
		a := as[t.Rng.IntN(len(as))]
		id := ids24[t.Rng.IntN(6)]
		d := dists24[t.Rng.IntN(3)]
		var touched string
		var err error
		op := t.Rng.IntN(7)
		switch op {
		case 0:
			touched, err = "session "+a.String(), ps[k].SessionStore().Store(ctx, a, randRecord(t))
		case 1:
			r, _ := randGroupRecord(t)
			touched, err = "group "+a.String()+d.String(), ps[k].GroupStore().Store(ctx, a, d, r)
		case 2:
			touched, err = fmt.Sprintf("prekey %d", id), ps[k].PreKeyStore().Store(ctx, id, prekey.NewPreKey(id, must(curve.GenerateKeyPair(t.R))))
		case 3:
			touched, err = fmt.Sprintf("signed %d", id), ps[k].SignedPreKeyStore().Store(ctx, id, prekey.NewSigned(id, 1, must(curve.GenerateKeyPair(t.R)), randBytes(t, 64)))
		case 4:
			touched, err = fmt.Sprintf("prekey %d", id), ps[k].PreKeyStore().Delete(ctx, id)
		case 5:
			touched = "identity " + a.String()
			_, err = ps[k].IdentityStore().Store(ctx, a, ident19(t))
		default:
			touched, err = "identity ", ps[k].IdentityStore().Clear()
		}
		if err != nil {
			t.Violate("%s: %v", touched, err)
		}
		t.Logf("party %d: operation %d: %s", k, op, touched)
		if op < 6 {
			touched += " "
		}
		t.Eval()
		t.Seen("mixed", op)
		for j := range ps {
			keep := func(ls []string) (out []string) {
				for _, l := range ls {
					if j != k || !strings.HasPrefix(l, touched) {
						out = append(out, l)
					}
				}
				return
			}
			if df := diffSnap(keep(before[j]), keep(view(ps[j], as))); df != "" {
				t.Violate("%s of party %d changes something else of party %d:\n%s", touched, k, j, df)
			}
		}
		t.Count("loads checked", 40)
	}
}
