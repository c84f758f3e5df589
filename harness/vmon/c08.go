package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"reflect"

	"google.golang.org/protobuf/proto"

	"github.com/RTann/libsignal-go/protocol/address"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:   "C08",
		Rule: "Random conversations in which a monitor, holding the stored state before each call, derives with the reference key schedule every chain key, message key, root key and ratchet private key that the call spends, and then searches everything reachable from the stored record (current and archived) for any key ever spent; sizes of the state and freshness of ratchet keys are checked after every call. Distinct by the kind of the call and the shape of the state.",
		Run:  runC08,
		Assume: []string{
			"spent keys are searched in everything reachable from the stored record, not in freed memory",
			"after a session was evicted from the archive and set up anew by a repeated handshake message, its earlier keys are not held against it",
		},
	})
}

// spent is the set of keys one party must have forgotten.
type spent struct {
	first map[uint64][]secret
	n     int
}

type secret struct {
	b    []byte
	what string
	hs   *hs
}

func newSpent() *spent { return &spent{first: map[uint64][]secret{}} }

func (s *spent) add(h *hs, what string, b []byte) {
	if len(b) < 16 {
		return
	}
	k := binary.LittleEndian.Uint64(b)
	s.first[k] = append(s.first[k], secret{clone(b), what, h})
	s.n++
}

func (s *spent) forget(h *hs) {
	for k, l := range s.first {
		var keep []secret
		for _, x := range l {
			if x.hs != h {
				keep = append(keep, x)
			}
		}
		if keep == nil {
			delete(s.first, k)
		} else {
			s.first[k] = keep
		}
	}
}

// find searches blob for any spent key.
func (s *spent) find(blob []byte) (secret, bool) {
	for i := 0; i+16 <= len(blob); i++ {
		for _, x := range s.first[binary.LittleEndian.Uint64(blob[i:])] {
			if bytes.HasPrefix(blob[i:], x.b) {
				return x, true
			}
		}
	}
	return secret{}, false
}

// blobs collects all byte contents reachable from v.
func blobs(v any) [][]byte {
	var out [][]byte
	seen := map[uintptr]bool{}
	var rec func(v reflect.Value, d int)
	rec = func(v reflect.Value, d int) {
		if !v.IsValid() || d > 40 {
			return
		}
		if v.Kind() == reflect.Pointer && v.Type().Implements(protoType) {
			if !v.IsNil() {
				m := reflect.NewAt(v.Type().Elem(), v.UnsafePointer()).Interface().(proto.Message)
				b, _ := proto.Marshal(m)
				out = append(out, b)
			}
			return
		}
		switch v.Kind() {
		case reflect.Pointer:
			if !v.IsNil() && !seen[v.Pointer()] {
				seen[v.Pointer()] = true
				rec(v.Elem(), d+1)
			}
		case reflect.Interface:
			if !v.IsNil() {
				rec(v.Elem(), d+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				rec(v.Field(i), d+1)
			}
		case reflect.String:
			out = append(out, []byte(v.String()))
		case reflect.Slice, reflect.Array:
			if v.Type().Elem().Kind() == reflect.Uint8 {
				b := make([]byte, v.Len())
				if v.Kind() == reflect.Slice {
					copy(b, v.Bytes())
				} else {
					for i := range b {
						b[i] = byte(v.Index(i).Uint())
					}
				}
				out = append(out, b)
				return
			}
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i), d+1)
			}
		case reflect.Map:
			it := v.MapRange()
			for it.Next() {
				rec(it.Key(), d+1)
				rec(it.Value(), d+1)
			}
		}
	}
	rec(reflect.ValueOf(v), 0)
	return out
}

// view is a parsed record.
type view struct {
	cur  *v1.SessionStructure
	prev []*v1.SessionStructure
}

func viewOf(r *session.Record) *view {
	v := &view{}
	if r == nil {
		return v
	}
	if st := r.State(); st != nil {
		v.cur = structOf(st)
	}
	prev, err := r.PreviousStates()
	if err != nil {
		panic(err)
	}
	for _, p := range prev {
		v.prev = append(v.prev, structOf(p))
	}
	return v
}

func (v *view) find(base []byte) *v1.SessionStructure {
	if v.cur != nil && bytes.Equal(v.cur.AliceBaseKey, base) {
		return v.cur
	}
	for _, p := range v.prev {
		if bytes.Equal(p.AliceBaseKey, base) {
			return p
		}
	}
	return nil
}

// mon08 watches one network.
type mon08 struct {
	t        *T
	s        *Sim
	gone     map[*Node]*spent
	views    map[*Node]map[address.Address]*view
	ratchets map[string]string // every ratchet public key seen, and where
	opened   map[*hs]int       // times a responder set the session up
}

func newMon08(t *T, s *Sim) *mon08 {
	m := &mon08{t: t, s: s, gone: map[*Node]*spent{}, views: map[*Node]map[address.Address]*view{}, ratchets: map[string]string{}, opened: map[*hs]int{}}
	for _, n := range s.Nodes {
		m.gone[n] = newSpent()
		m.views[n] = map[address.Address]*view{}
	}
	return m
}

func (m *mon08) pre(n *Node, a address.Address) *view {
	if v := m.views[n][a]; v != nil {
		return v
	}
	return &view{}
}

func spendMessage(sp *spent, h *hs, ck []byte, what string) {
	sp.add(h, what+": chain key", ck)
	sp.add(h, what+": message key seed", ref.HMAC(ck, []byte{1}))
	k := ref.MessageKeys(ck)
	spendKeys(sp, h, k, what)
}

func spendKeys(sp *spent, h *hs, k ref.MsgKeys, what string) {
	sp.add(h, what+": cipher key", k.Cipher)
	sp.add(h, what+": MAC key", k.MAC)
	sp.add(h, what+": IV", k.IV)
}

// after re-reads the record of n with a and checks it.
func (m *mon08) after(n *Node, a address.Address, event string) *view {
	t := m.t
	r := n.P.rawRecord(a)
	v := viewOf(r)
	m.views[n][a] = v
	t.Eval()
	if len(v.prev) > modelMaxArchived {
		t.Violate("%v keeps %d archived sessions with %v after %s", n.Addr, len(v.prev), a, event)
	}
	all := append([]*v1.SessionStructure{}, v.prev...)
	if v.cur != nil {
		all = append(all, v.cur)
	}
	keys := 0
	for _, s := range all {
		if len(s.ReceiverChains) > modelMaxChains {
			t.Violate("%v keeps %d receiving chains with %v after %s", n.Addr, len(s.ReceiverChains), a, event)
		}
		for _, c := range s.ReceiverChains {
			if len(c.MessageKeys) > modelMaxSkipped {
				t.Violate("%v keeps %d skipped keys in one chain with %v after %s", n.Addr, len(c.MessageKeys), a, event)
			}
			keys += len(c.MessageKeys)
		}
		if len(s.SenderChain.GetMessageKeys()) > 0 {
			t.Violate("%v keeps message keys of its own sending chain with %v after %s", n.Addr, a, event)
		}
	}
	for _, b := range blobs(r) {
		t.Count("bytes of stored state searched", int64(len(b)))
		if x, found := m.gone[n].find(b); found {
			t.Violate("%v still stores %s (%x) after %s", n.Addr, x.what, x.b, event)
		}
	}
	t.Count("states inspected", 1)
	t.Count("skipped keys seen in states", int64(keys))
	sh := "-"
	if v.cur != nil {
		sh = fmt.Sprint(len(v.cur.ReceiverChains), bucket(keys), v.cur.PendingPreKey != nil)
	}
	t.Seen(event[:4], sh, bucket(len(v.prev)))
	return v
}

func bucket(n int) int {
	k := 0
	for n > 0 {
		n >>= 1
		k++
	}
	return k
}

func (m *mon08) freshRatchet(n *Node, s *v1.SessionStructure, event string) {
	if s == nil || s.SenderChain == nil {
		m.t.Violate("%v has no sending chain after %s", n.Addr, event)
	}
	k := string(s.SenderChain.SenderRatchetKey)
	m.t.Eval()
	if w, dup := m.ratchets[k]; dup {
		m.t.Violate("%v uses the ratchet key %x after %s, which was already used: %s", n.Addr, k, event, w)
	}
	if pub := ref.KPFrom(s.SenderChain.SenderRatchetKeyPrivate).Pub; string(pub) != k {
		if w, dup := m.ratchets[string(pub)]; dup {
			m.t.Violate("%v keeps a ratchet private key used before after %s: %s", n.Addr, event, w)
		}
	}
	m.ratchets[k] = event
	m.t.Count("fresh ratchet keys", 1)
}

func (m *mon08) shake(a, b *Node, oneTime bool) error {
	tee := &tee08{r: a.P.R}
	a.P.R = tee
	err := m.s.handshake(a, b, oneTime)
	a.P.R = tee.r
	if err == nil {
		v := viewOf(a.P.rawRecord(b.Addr))
		if v.cur == nil {
			m.t.Skip("no session after a handshake")
		}
		for i := 0; i+32 <= len(tee.b); i++ { // the private base key, if it was drawn as such
			k := ref.Clamp(clone(tee.b[i : i+32]))
			if bytes.Equal(ref.KPFrom(k).Pub, v.cur.AliceBaseKey) {
				m.gone[a].add(nil, "the private base key of its handshake", tee.b[i:i+32])
				m.gone[a].add(nil, "the private base key of its handshake", k)
				m.t.Count("private base keys to be forgotten", 1)
				break
			}
		}
		m.after(a, b.Addr, "shake: handshake")
		m.freshRatchet(a, v.cur, "a handshake")
	}
	return err
}

// tee08 remembers what was drawn.
type tee08 struct {
	r io.Reader
	b []byte
}

func (r *tee08) Read(p []byte) (int, error) {
	n, err := r.r.Read(p)
	r.b = append(r.b, p[:n]...)
	return n, err
}

func (m *mon08) send(a, b *Node, pt []byte) *Msg {
	pre := m.pre(a, b.Addr)
	msg, err := m.s.send(a, b, pt)
	if err != nil || pre.cur == nil {
		m.t.Skip("send failed: %v", err)
	}
	spendMessage(m.gone[a], msg.HS, pre.cur.SenderChain.ChainKey.Key, fmt.Sprintf("its sent message %v", msg))
	m.after(a, b.Addr, fmt.Sprintf("send of %v", msg))
	return msg
}

func (m *mon08) deliver(msg *Msg) Result {
	t := m.t
	n, a := msg.To, msg.From.Addr
	pre := m.pre(n, a)
	r := m.s.deliver(msg, false)
	if r.Pred == pRefuse && r.OK {
		m.refusedButAccepted(msg, r)
	}
	if (r.Pred == pAccept) != r.OK {
		t.Skip("%v: model %v, library %v", msg, r.Pred, r.Err)
	}
	if !r.OK {
		m.after(n, a, fmt.Sprintf("refusal of %v", msg))
		return r
	}
	sp := m.gone[n]
	st := pre.find(msg.HS.baseKey)
	sm, err := ref.ParseSignal(msg.Inner)
	if err != nil {
		t.Skip("cannot parse %v: %v", msg, err)
	}
	what := fmt.Sprintf("its received message %v", msg)
	var root, priv []byte
	if st == nil { // this message set the session up
		m.opened[msg.HS]++
		if m.opened[msg.HS] > 1 {
			sp.forget(msg.HS)
		}
		p := n.P
		id := ref.KPFrom(p.KP.PrivateKey().Bytes())
		spk := ref.KPFrom(p.Signed[msg.HS.signedID].kp.PrivateKey().Bytes())
		dhs := [][]byte{must(ref.DH(spk.Priv, []byte(msg.HS.aliceID))), must(ref.DH(id.Priv, msg.HS.baseKey)), must(ref.DH(spk.Priv, msg.HS.baseKey))}
		if msg.HS.preKeyID != nil {
			otk := p.PreKeys[*msg.HS.preKeyID].PrivateKey().Bytes()
			dhs = append(dhs, must(ref.DH(otk, msg.HS.baseKey)))
			sp.add(msg.HS, what+": the one-time pre-key it consumed", otk)
		}
		for i, d := range dhs {
			sp.add(msg.HS, fmt.Sprintf("%s: handshake secret %d", what, i), d)
		}
		root, _ = ref.X3DHSecret(dhs...)
		priv = spk.Priv
		m.ratchets[string(spk.Pub)] = "as a signed pre-key"
	} else {
		var c *v1.SessionStructure_Chain
		for _, x := range st.ReceiverChains {
			if bytes.Equal(x.SenderRatchetKey, sm.RatchetKey) {
				c = x
			}
		}
		if c != nil {
			if sm.Counter < c.ChainKey.Index {
				for _, k := range c.MessageKeys {
					if k.Index == sm.Counter {
						spendKeys(sp, msg.HS, ref.MsgKeys{Cipher: k.CipherKey, MAC: k.MacKey, IV: k.Iv}, what)
					}
				}
			} else {
				spendChain(sp, msg.HS, c.ChainKey.Key, sm.Counter-c.ChainKey.Index, what)
			}
			m.after(n, a, fmt.Sprintf("receipt of %v", msg))
			return r
		}
		root, priv = st.RootKey, st.SenderChain.SenderRatchetKeyPrivate
	}
	// a ratchet step
	newRoot, ck := ref.RootStep(root, must(ref.DH(priv, sm.RatchetKey)))
	spendChain(sp, msg.HS, ck, sm.Counter, what)
	sp.add(msg.HS, what+": root key before the ratchet step", root)
	sp.add(msg.HS, what+": root key within the ratchet step", newRoot)
	v := m.after(n, a, fmt.Sprintf("receipt of %v", msg))
	now := v.find(msg.HS.baseKey)
	if now == nil {
		t.Skip("session vanished after %v", msg)
	}
	// the previous private key must be gone from this session (another session may hold the same signed pre-key)
	nb, _ := proto.Marshal(now)
	old := newSpent()
	old.add(msg.HS, "the previous ratchet private key", priv)
	old.add(msg.HS, "the previous ratchet private key", ref.Clamp(clone(priv)))
	if x, found := old.find(nb); found {
		t.Violate("%v still stores %s (%x) after %v made it ratchet", n.Addr, x.what, x.b, msg)
	}
	m.freshRatchet(n, now, fmt.Sprintf("ratchet step on %v", msg))
	t.Count("ratchet steps inspected", 1)
	return r
}

func spendChain(sp *spent, h *hs, ck []byte, jump uint32, what string) {
	for i := uint32(0); i < jump; i++ {
		sp.add(h, fmt.Sprintf("%s: earlier chain key", what), ck)
		sp.add(h, fmt.Sprintf("%s: earlier message key seed", what), ref.HMAC(ck, []byte{1}))
		ck = ref.NextChain(ck)
	}
	spendMessage(sp, h, ck, what)
}

// refusedButAccepted: a genuine message outside the limits was accepted.
func (m *mon08) refusedButAccepted(msg *Msg, r Result) {
	rec := msg.To.Recs[msg.From.Addr]
	if rec == nil {
		return
	}
	if st := rec.find(msg.HS); st != nil && !st.self() {
		next, found := uint32(0), false
		for _, c := range st.recv {
			if c.tok == msg.Tok {
				next, found = c.next, true
			}
		}
		if (found || msg.Tok.parent == st.sendTok) && msg.Index >= next && msg.Index-next > modelMaxJump {
			m.t.Violate("%v, %d messages ahead of its chain, was accepted", msg, msg.Index-next)
		}
	}
}

func runC08(c *C) {
	c.Cases("history", c.N(150, 3000), func(t *T, i int) {
		s := randomTopology(t)
		s.persistSome()
		m := newMon08(t, s)
		ops := 150
		p := i % 5
		var live []*Msg
		for op := 0; op < ops; op++ {
			switch pick(t, 40, []int{45, 60, 35, 25, 40}[p], 4, []int{1, 1, 2, 14, 1}[p], []int{0, 0, 1, 0, 3}[p]) {
			case 0, 4:
				a, b := s.pair()
				if r := a.Recs[b.Addr]; r == nil || r.cur == nil {
					if err := m.shake(a, b, t.Rng.IntN(2) == 0); err != nil {
						t.Skip("handshake: %v", err)
					}
				}
				k := 1
				if p == 4 && t.Rng.IntN(8) == 0 {
					k = 1 + t.Rng.IntN(80)
				}
				for j := 0; j < k; j++ {
					x := m.send(a, b, plaintextOf(t.Rng, t.R))
					if k < 5 || j == k-1 || t.Rng.IntN(10) == 0 {
						live = append(live, x)
					}
				}
			case 1:
				if len(live) == 0 {
					continue
				}
				j := 0
				if p != 1 || t.Rng.IntN(4) == 0 {
					j = t.Rng.IntN(len(live))
				}
				x := live[j]
				m.deliver(x)
				live = append(live[:j:j], live[j+1:]...)
			case 2:
				if len(s.Done) > 0 {
					m.deliver(s.Done[t.Rng.IntN(len(s.Done))])
				}
			case 3:
				a, b := s.pair()
				if err := m.shake(a, b, t.Rng.IntN(2) == 0); err != nil {
					t.Skip("handshake: %v", err)
				}
			}
			s.Flight = s.Flight[:0]
		}
		if t.wantSample() {
			t.Sample(map[string]any{"case": t.Name, "events": tail(t.log, 10), "keys spent": m.gone[s.Nodes[0]].n})
		}
	})
	c.Cases("archive", c.N(3, 12), func(t *T, i int) {
		s := newSim(t, "alice 1", "bob 1")
		m := newMon08(t, s)
		a, b := s.Nodes[0], s.Nodes[1]
		for k := 0; k < 48; k++ {
			if err := m.shake(a, b, k%2 == 0); err != nil {
				t.Skip("handshake: %v", err)
			}
			if i%3 > 0 {
				x := m.send(a, b, []byte("hello"))
				m.deliver(x)
				if i%3 > 1 {
					m.deliver(m.send(b, a, []byte("reply")))
				}
			}
		}
		t.Count("archives filled", 1)
	})
	c.Cases("skip", c.N(4, 16), func(t *T, i int) {
		s := newSim(t, "alice 1", "bob 1")
		m := newMon08(t, s)
		a, b := s.Nodes[0], s.Nodes[1]
		if err := m.shake(a, b, true); err != nil {
			t.Skip("handshake: %v", err)
		}
		m.deliver(m.send(a, b, []byte("1")))
		m.deliver(m.send(b, a, []byte("2")))
		jumps := [][]int{{2100, 30, 2000}, {1990, 30, 5}, {1000, 1500, 700}, {6000, 1, 2001}}[i%4]
		for _, j := range jumps {
			var keep []*Msg
			pre := m.pre(a, b.Addr)
			ck := pre.cur.SenderChain.ChainKey.Key
			for k := 0; k < j; k++ {
				x, err := s.send(a, b, []byte("skipped"))
				if err != nil {
					t.Skip("send: %v", err)
				}
				spendMessage(m.gone[a], x.HS, ck, "a sent message")
				ck = ref.NextChain(ck)
				s.Flight = s.Flight[:0]
				if k > j-40 {
					keep = append(keep, x)
				}
			}
			m.after(a, b.Addr, "send of a burst")
			m.deliver(m.send(a, b, []byte("jump")))
			for _, k := range t.Rng.Perm(len(keep))[:min(5, len(keep))] {
				m.deliver(keep[k])
			}
		}
		t.Count("long jumps", int64(len(jumps)))
	})
	c.Cases("limit", c.N(48, 240), limit08)
	c.Cases("gaps", c.N(24, 400), gaps08)
	c.Require("long gaps in older chains", 20)
	c.Require("states inspected", 2000)
	c.Require("ratchet steps inspected", 200)
	c.Require("private base keys to be forgotten", 100)
	c.Require("skipped keys seen in states", 1000)
	c.Require("archives filled", 1)
	c.Require("messages beyond the limit refused", 4)
}

// limit08: messages more than 25,000 ahead are refused, on a new chain, on a known chain, and after wrap-around
// of the difference; the reference peer makes them.
func limit08(t *T, i int) {
	p := newParty(t, "lib", 1)
	peer := address.Address{Name: "ref", DeviceID: 1}
	id := ref.GenKP(t.R)
	self := i%8 == 7
	if self {
		id = ref.KPFrom(p.KP.PrivateKey().Bytes())
	}
	rs, err := ref.NewAlice(t.R, id, 1, refBundle(p.Bundle(i%2 == 0)))
	if err != nil {
		t.Skip("reference: %v", err)
	}
	recv := func() ([]byte, error) {
		pt := []byte("ahead")
		typ, w := rs.Encrypt(pt)
		return p.receive(peer, message.CiphertextType(typ), w)
	}
	first := i%4 == 0
	if !first {
		if _, err := recv(); err != nil {
			t.Skip("first message: %v", err)
		}
		for k := 0; k < i%3; k++ {
			if ct, err := p.Session(peer).EncryptMessage(ctx, []byte("reply")); err == nil {
				rs.Decrypt(inner(ct.Type(), ct.Bytes()))
			}
			if k%2 == 0 {
				if _, err := recv(); err != nil {
					t.Skip("second message: %v", err)
				}
			}
		}
	}
	n := []int{25_001, 25_002, 30_000, 60_000}[(i/2)%4]
	if i >= 8 {
		n = []int{25_001, 25_001 + t.Rng.IntN(40), 25_001 + t.Rng.IntN(3000)}[i%3]
	}
	gaps := 0
	if !first { // skipped keys outstanding in this chain
		for k := (i / 8) % 3; k > 0; k-- {
			gap := 1 + t.Rng.IntN([]int{3, 60, 2100}[t.Rng.IntN(3)])
			rs.Skip(gap)
			gaps += gap
			if _, err := recv(); err != nil {
				t.Skip("message after a gap: %v", err)
			}
		}
	}
	if (i/24)%2 == 1 { // a ratchet step and a new chain
		ct, err := p.Session(peer).EncryptMessage(ctx, []byte("turn"))
		if err == nil {
			rs.Decrypt(inner(ct.Type(), ct.Bytes()))
			if i%2 == 0 {
				recv()
			}
		}
	}
	rs.Skip(n)
	t.Eval()
	_, err = recv()
	t.Logf("message %d ahead (first %v, self %v, %d skipped before) -> %v", n, first, self, gaps, err)
	if self {
		if err != nil {
			t.Skip("self session refused a jump: %v", err)
		}
		v := viewOf(p.rawRecord(peer))
		for _, c := range v.cur.ReceiverChains {
			if len(c.MessageKeys) > modelMaxSkipped {
				t.Violate("%d skipped keys kept in a session with oneself", len(c.MessageKeys))
			}
		}
		t.Count("jumps in sessions with oneself", 1)
		return
	}
	if err == nil {
		t.Violate("a message %d ahead of its chain was accepted (first message of the session: %v)", n, first)
	}
	t.Count("messages beyond the limit refused", 1)
	t.Seen("limit", n, first, gaps > 0, gaps > 2000)
}

// gaps08: long gaps in several chains of one session, filled in any order: no chain keeps more than 2,000 skipped
// keys, and no more than five chains are kept.
func gaps08(t *T, i int) {
	p := newParty(t, "lib", 1)
	peer := address.Address{Name: "ref", DeviceID: 1}
	rs, err := ref.NewAlice(t.R, ref.GenKP(t.R), 1, refBundle(p.Bundle(i%2 == 0)))
	if err != nil {
		t.Skip("reference: %v", err)
	}
	type held struct {
		typ   int
		w     []byte
		chain int
		gap   int
	}
	var late []held
	msg := func() held {
		typ, w := rs.Encrypt([]byte("m"))
		return held{typ: int(typ), w: w}
	}
	nchains := 1 + t.Rng.IntN(5)
	if i%2 == 1 && nchains == 1 {
		nchains = 2
	}
	for ch := 0; ch < nchains; ch++ {
		m := msg()
		if _, err := p.receive(peer, message.CiphertextType(m.typ), m.w); err != nil {
			t.Skip("first message of chain %d: %v", ch, err)
		}
		for k := 1 + t.Rng.IntN(3); k > 0; k-- {
			n := []int{1, 40, 700, 1500, 1999, 2000, 2001, 2300, 5000}[t.Rng.IntN(9)]
			rs.Skip(n)
			m := msg()
			m.chain, m.gap = ch, n
			late = append(late, m)
		}
		if ch+1 < nchains {
			ct, err := p.Session(peer).EncryptMessage(ctx, []byte("turn"))
			if err != nil {
				t.Skip("reply: %v", err)
			}
			if _, err := rs.Decrypt(inner(ct.Type(), ct.Bytes())); err != nil {
				t.Skip("reference: %v", err)
			}
		}
	}
	check := func() {
		t.Eval()
		v := viewOf(p.rawRecord(peer))
		if n := len(v.cur.ReceiverChains); n > 5 {
			t.Violate("%d receiving chains kept", n)
		}
		for j, c := range v.cur.ReceiverChains {
			if len(c.MessageKeys) > modelMaxSkipped {
				t.Violate("receiving chain %d of %d keeps %d skipped keys", j, len(v.cur.ReceiverChains), len(c.MessageKeys))
			}
			t.Seen("gaps", j, len(v.cur.ReceiverChains), len(c.MessageKeys) >= modelMaxSkipped)
		}
	}
	for _, j := range t.Rng.Perm(len(late)) {
		m := late[j]
		_, err := p.receive(peer, message.CiphertextType(m.typ), m.w)
		t.Logf("chain %d, gap of %d: %v", m.chain, m.gap, err)
		if m.chain < nchains-1 && m.gap >= 700 {
			t.Count("long gaps in older chains", 1)
		}
		check()
	}
}
