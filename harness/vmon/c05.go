package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/direction"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/perrors"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:   "C05",
		Rule: "histories in which users reinstall (new identity), approve or disapprove keys, and old sessions stay archived, under random per-(address,key,direction) trust policies and under the in-memory trust store; every call is judged by the policy on the key that owns the session; distinct by (call, trusted?, session current/archived/new, identity generation)",
		Run:  runC05,
	})
}

// world05 is a simulation whose trust decisions are observed and predicted.
type world05 struct {
	*Sim
	t      *T
	policy bool // random policy; otherwise the in-memory store decides
	trust  map[string]bool
	pinned map[string]string   // receiver|address -> key, as the in-memory store must have it
	asked  map[string][]string // consultations of the running call that were answered yes
}

func tkey(owner *Node, a address.Address, k string, d direction.Direction) string {
	return fmt.Sprintf("%x|%v|%x|%d", idOf(owner.P.KP), a, k, d)
}

func (w *world05) watch(n *Node) {
	n.P.St.trust = func(a address.Address, k identity.Key, d direction.Direction) (bool, error) {
		var ok bool
		if w.policy {
			key := tkey(n, a, string(k.Bytes()), d)
			v, have := w.trust[key]
			if !have {
				v = w.t.Rng.IntN(3) > 0
				w.trust[key] = v
			}
			ok = v
		} else {
			var err error
			ok, err = n.P.St.in.IdentityStore().IsTrustedIdentity(ctx, a, k, d)
			if err != nil {
				return ok, err
			}
		}
		if ok {
			w.asked[string(k.Bytes())] = append(w.asked[string(k.Bytes())], fmt.Sprint(a, d))
		}
		return ok, nil
	}
}

// trusted predicts the decision for a key.
func (w *world05) trusted(n *Node, a address.Address, k string, d direction.Direction) bool {
	if w.policy {
		key := tkey(n, a, k, d)
		v, have := w.trust[key]
		if !have {
			v = w.t.Rng.IntN(3) > 0
			w.trust[key] = v
		}
		return v
	}
	p, ok := w.pinned[fmt.Sprintf("%x|%v", idOf(n.P.KP), a)]
	return !ok || p == k
}

func (w *world05) judge(n *Node, a address.Address, k string, d direction.Direction, trusted, mayWork bool, what string, result bool, err error) {
	t := w.t
	t.Eval()
	ok := err == nil
	if result && !ok {
		t.Violate("%s: error %v together with a result", what, err)
	}
	if ok && !trusted {
		t.Violate("%s succeeded although key %x is not trusted for %v (%v)", what, k, a, d)
	}
	if ok {
		yes := false
		for _, q := range w.asked[k] {
			if q == fmt.Sprint(a, d) {
				yes = true
			}
		}
		if !yes {
			t.Violate("%s succeeded with key %x but the identity store was not asked about that key for %v (%v); it approved %v", what, k, a, d, len(w.asked))
		}
		got, have, _ := n.P.St.in.IdentityStore().Load(ctx, a)
		if !have || string(got.Bytes()) != k {
			t.Violate("%s succeeded but the key %x was not recorded for %v", what, k, a)
		}
		w.pinned[fmt.Sprintf("%x|%v", idOf(n.P.KP), a)] = k
		t.Count("trusted and done: "+dirName(d), 1)
		return
	}
	if mayWork && !trusted {
		if !perrors.IsErrUntrustedIdentity(err) {
			t.Violate("%s: key %x is not trusted for %v, but the error is %q instead of the untrusted-identity error", what, k, a, err)
		}
		t.Count("untrusted and refused: "+dirName(d), 1)
	}
	if mayWork && trusted {
		if perrors.IsErrUntrustedIdentity(err) {
			t.Violate("%s refused as untrusted although key %x is trusted for %v (%v)", what, k, a, d)
		}
		t.Skip("%s failed: %v", what, err)
	}
	// a refused call pins nothing
	got, have, _ := n.P.St.in.IdentityStore().Load(ctx, a)
	p, ph := w.pinned[fmt.Sprintf("%x|%v", idOf(n.P.KP), a)]
	if have != ph || have && string(got.Bytes()) != p {
		t.Violate("%s was refused but the key recorded for %v changed", what, a)
	}
}

func (w *world05) approve(n *Node, a address.Address, k identity.Key) {
	n.P.know(a)
	if w.policy {
		for _, d := range []direction.Direction{direction.Sending, direction.Receiving} {
			w.trust[tkey(n, a, string(k.Bytes()), d)] = w.t.Rng.IntN(5) > 0
		}
		return
	}
	prev, had := w.pinned[fmt.Sprintf("%x|%v", idOf(n.P.KP), a)]
	c, err := n.P.St.in.IdentityStore().Store(ctx, a, must(identity.NewKey(k.Bytes())))
	w.t.Eval()
	if want := had && prev != string(k.Bytes()); err == nil && c != want {
		w.t.Violate("storing %x over %x reports change %v", k.Bytes(), prev, c)
	}
	w.pinned[fmt.Sprintf("%x|%v", idOf(n.P.KP), a)] = string(k.Bytes())
}

func (w *world05) shake(a, b *Node) {
	k := idOf(b.P.KP)
	bun := b.bundle(w.t.Rng.IntN(2) == 0)
	tr := w.trusted(a, b.Addr, k, direction.Sending)
	w.asked = map[string][]string{}
	err := w.handshakeWith(a, b, bun)
	w.t.Seen("shake", tr, w.policy)
	w.judge(a, b.Addr, k, direction.Sending, tr, true, fmt.Sprintf("%v processing a bundle of %v", a.Addr, b.Addr), false, err)
}

func (w *world05) sendOne(a, b *Node) {
	r := a.Recs[b.Addr]
	if r == nil || r.cur == nil {
		w.shake(a, b)
		return
	}
	k := r.cur.peerID
	tr := w.trusted(a, b.Addr, k, direction.Sending)
	w.asked = map[string][]string{}
	m, err := w.send(a, b, plaintextOf(w.t.Rng, w.t.R))
	w.t.Seen("send", tr, w.policy, k == idOf(b.P.KP), r.cur.pending, len(r.prev) > 0)
	w.judge(a, b.Addr, k, direction.Sending, tr, true, fmt.Sprintf("%v encrypting for %v", a.Addr, b.Addr), m != nil, err)
}

func ownerKey(m *Msg) string {
	if m.To == m.HS.alice {
		return m.HS.bobID
	}
	return m.HS.aliceID
}

func (w *world05) recvOne(m *Msg) {
	n := m.To
	k := ownerKey(m)
	tr := w.trusted(n, m.From.Addr, k, direction.Receiving)
	if m.Typ == message.PreKeyType && w.t.Rng.IntN(4) == 0 {
		w.processOnly(m, tr)
	}
	unwrap := m.Typ == message.PreKeyType && w.t.Rng.IntN(4) == 0
	w.asked = map[string][]string{}
	r := w.deliver(m, unwrap)
	w.t.Seen("recv", tr, w.policy, r.How.String(), r.Pred, k == idOf(m.From.P.KP))
	if r.OK && r.Pred != pAccept {
		w.t.Skip("%v accepted, model says %v", m, r.Pred)
	}
	w.judge(n, m.From.Addr, k, direction.Receiving, tr, r.Pred == pAccept, fmt.Sprintf("%v decrypting %v", n.Addr, m), r.Plain != nil, r.Err)
	if r.OK && !bytes.Equal(r.Plain, m.Plain) {
		w.t.Skip("wrong plaintext")
	}
}

// rewrap presents m in a handshake that names another identity (on a copy of the receiver).
func (w *world05) rewrap(m *Msg, ids []string) {
	if m.HS.baseKey == nil || m.From != m.HS.alice {
		return
	}
	n := m.To
	for _, id := range ids {
		x := wrapper(m, nil)
		x.IdentityKey = []byte(id)
		if w.t.Rng.IntN(3) == 0 {
			x.BaseKey = ref.GenKP(w.t.R).Pub
		}
		k := ownerKey(m)
		tr := w.trusted(n, m.From.Addr, k, direction.Receiving)
		q := n.P.fork()
		asked := map[string]bool{}
		q.St.trust = func(a address.Address, kk identity.Key, d direction.Direction) (bool, error) {
			ok := w.trusted(n, a, string(kk.Bytes()), d)
			if ok && d == direction.Receiving && a == m.From.Addr {
				asked[string(kk.Bytes())] = true
			}
			return ok, nil
		}
		pt, err := q.receive(m.From.Addr, message.PreKeyType, ref.EncodePreKey(x))
		w.t.Eval()
		w.t.Count("re-attributed handshakes presented", 1)
		if err != nil && pt != nil {
			w.t.Violate("error %v with a plaintext", err)
		}
		if err == nil && (!tr || !asked[k]) {
			w.t.Violate("%v wrapped in a handshake naming identity %x was accepted; its session belongs to %x, which is trusted: %v, and was checked: %v", m, id, k, tr, asked[k])
		}
		if err == nil {
			got, have, _ := q.St.in.IdentityStore().Load(ctx, m.From.Addr)
			if !have || string(got.Bytes()) != k {
				w.t.Violate("%v wrapped in a handshake naming identity %x was accepted and pinned %x instead of the session's key %x", m, id, got.Bytes(), k)
			}
		} else if a, b := n.pin(m.From.Addr), pinOf(q, m.From.Addr); a != b {
			w.t.Violate("a refused handshake naming identity %x changed the recorded key from %x to %x", id, a, b)
		}
		w.t.Seen("rewrap", id == k, tr, err == nil, m.Accepted > 0)
	}
}

func pinOf(p *Party, a address.Address) string {
	k, ok, _ := p.St.in.IdentityStore().Load(ctx, a)
	if !ok {
		return ""
	}
	return string(k.Bytes())
}
func (n *Node) pin(a address.Address) string { return pinOf(n.P, a) }

func runC05(c *C) {
	c.Cases("world", c.N(900, 20000), func(t *T, i int) {
		w := &world05{Sim: newSim(t, "alice 1", "bob 1"), t: t, policy: i%2 == 0, trust: map[string]bool{}, pinned: map[string]string{}}
		if i%4 >= 2 {
			w.addNode(newParty(t, "carol", 1))
		}
		for _, n := range w.Nodes {
			w.watch(n)
		}
		var keys []identity.Key
		for _, n := range w.Nodes {
			keys = append(keys, n.P.KP.IdentityKey())
		}
		for op := 0; op < 120; op++ {
			switch pick(t, 35, 40, 5, 3, 8, 6, 2, 5) {
			case 0:
				a, b := w.pair()
				w.sendOne(a, b)
			case 1:
				if len(w.Flight) == 0 {
					continue
				}
				j := t.Rng.IntN(len(w.Flight))
				m := w.Flight[j]
				if m.Accepted > 0 || !w.alive(m.To) {
					w.drop(j)
					continue
				}
				w.recvOne(m)
			case 2:
				a, b := w.pair()
				w.shake(a, b)
			case 3: // reinstall: same address, new identity and pre-keys
				j := t.Rng.IntN(len(w.Nodes))
				old := w.Nodes[j]
				p := newParty(t, old.Addr.Name, uint32(old.Addr.DeviceID))
				n := &Node{Sim: w.Sim, P: p, Addr: p.Addr, Recs: map[address.Address]*mRecord{}, Avail: old.Avail}
				n.Avail = map[prekey.ID]bool{}
				w.Nodes[j] = n
				w.watch(n)
				keys = append(keys, p.KP.IdentityKey())
				t.Logf("%v reinstalls", n.Addr)
				t.Count("identity changes", 1)
			case 4: // the user approves a key: usually the peer's present one, sometimes an old one
				a, b := w.pair()
				k := b.P.KP.IdentityKey()
				if t.Rng.IntN(4) == 0 {
					k = keys[t.Rng.IntN(len(keys))]
				}
				w.approve(a, b.Addr, k)
			case 6: // the identity store forgets what it recorded
				n := w.Nodes[t.Rng.IntN(len(w.Nodes))]
				if err := n.P.St.in.IdentityStore().Clear(); err != nil {
					t.Violate("Clear: %v", err)
				}
				for k := range w.pinned {
					if strings.HasPrefix(k, fmt.Sprintf("%x|", idOf(n.P.KP))) {
						delete(w.pinned, k)
					}
				}
				t.Count("recorded keys forgotten", 1)
			case 7:
				w.trustFails()
			case 5:
				if len(w.Flight) == 0 {
					continue
				}
				m := w.Flight[t.Rng.IntN(len(w.Flight))]
				if !w.alive(m.To) {
					continue
				}
				ids := []string{ownerKey(m)}
				for k := 0; k < 3; k++ {
					ids = append(ids, string(keys[t.Rng.IntN(len(keys))].Bytes()))
				}
				w.rewrap(m, ids)
			}
		}
		if i < 4 {
			t.Sample(map[string]any{"case": t.Name, "policy": w.policy, "events": tail(t.log, 12)})
		}
	})
	c.Cases("inmem", c.N(200, 5000), func(t *T, i int) {
		kp := must(identity.GenerateKeyPair(t.R))
		st := identity.NewInMemStore(kp, t.Rng.Uint32())
		var keys [][]byte
		for k := 0; k < 4; k++ {
			keys = append(keys, must(identity.GenerateKeyPair(t.R)).IdentityKey().Bytes())
		}
		keys = append(keys, flip(keys[0], 1+t.Rng.IntN(32), 1<<t.Rng.IntN(8)), flip(keys[0], 32, 0x80), flip(keys[0], 1, 1)) // near misses
		keys = append(keys, clone(kp.IdentityKey().Bytes()), append([]byte{5}, make([]byte, 32)...))                         // the owner's own, and none at all
		addrs := []address.Address{{Name: "a", DeviceID: 1}, {Name: "a", DeviceID: 2}, {Name: "b", DeviceID: 1}, {Name: "", DeviceID: 0}, {Name: "a.1", DeviceID: 1}, {Name: "a", DeviceID: 11}}
		model := map[address.Address]string{}
		key := func(j int) identity.Key { return must(identity.NewKey(clone(keys[j]))) }
		for op := 0; op < 200; op++ {
			a := addrs[t.Rng.IntN(len(addrs))]
			j := t.Rng.IntN(len(keys))
			t.Eval()
			switch pick(t, 30, 40, 20, 1) {
			case 0:
				c, err := st.Store(ctx, a, key(j))
				if err != nil {
					t.Violate("Store: %v", err)
				}
				old, had := model[a]
				if want := had && old != string(keys[j]); c != want {
					t.Violate("storing key %x for %v over %x (recorded: %v) reports change %v", keys[j], a, old, had, c)
				}
				model[a] = string(keys[j])
				t.Seen("store", c, had)
			case 1:
				d := []direction.Direction{direction.Sending, direction.Receiving}[t.Rng.IntN(2)]
				ok, err := st.IsTrustedIdentity(ctx, a, key(j), d)
				if err != nil {
					t.Violate("IsTrustedIdentity: %v", err)
				}
				old, had := model[a]
				if want := !had || old == string(keys[j]); ok != want {
					t.Violate("key %x for %v with %x recorded (%v): trusted %v", keys[j], a, old, had, ok)
				}
				t.Seen("trusted", ok, had, d)
				t.Count("trust decisions of the in-memory store", 1)
			case 2:
				k, ok, err := st.Load(ctx, a)
				old, had := model[a]
				if err != nil || ok != had || ok && string(k.Bytes()) != old {
					t.Violate("Load(%v) gives %v, recorded is %x %v", a, ok, old, had)
				}
			case 3:
				if err := st.Clear(); err != nil {
					t.Violate("Clear: %v", err)
				}
				model = map[address.Address]string{}
			}
		}
	})
	c.Require("calls with a failing trust decision", 100)
	c.Require("recorded keys forgotten", 50)
	c.Require("untrusted and refused: sending", 50)
	c.Require("untrusted and refused: receiving", 50)
	c.Require("trusted and done: receiving", 200)
	c.Require("re-attributed handshakes presented", 200)
}

func (w *world05) alive(n *Node) bool {
	for _, x := range w.Nodes {
		if x == n {
			return true
		}
	}
	return false
}

func dirName(d direction.Direction) string {
	if d == direction.Sending {
		return "sending"
	}
	return "receiving"
}

// processOnly establishes the session of a pre-key message without decrypting it, on a copy of the receiver.
func (w *world05) processOnly(m *Msg, trusted bool) {
	n := m.To
	if pr, _, _, h := n.predict(n.Recs[m.From.Addr], m, m.Typ); pr != pAccept || !h.newSession {
		return
	}
	c, err := parseWire(m.Typ, m.Wire)
	if err != nil {
		w.t.Skip("%v", err)
	}
	q := n.P.fork()
	q.St.trust = func(a address.Address, kk identity.Key, d direction.Direction) (bool, error) {
		return w.trusted(n, a, string(kk.Bytes()), d), nil
	}
	before := pinOf(q, m.From.Addr)
	rec := session.NewRecord(nil)
	_, err = q.Session(m.From.Addr).ProcessPreKey(ctx, rec, c.(*message.PreKey))
	w.t.Eval()
	w.t.Count("pre-key messages processed without decryption", 1)
	if !trusted {
		if err == nil || rec.State() != nil {
			w.t.Violate("%v: ProcessPreKey established a session with an untrusted identity", m)
		}
		if !perrors.IsErrUntrustedIdentity(err) {
			w.t.Violate("%v: ProcessPreKey refuses an untrusted identity with %q", m, err)
		}
		if pinOf(q, m.From.Addr) != before {
			w.t.Violate("%v: ProcessPreKey recorded an untrusted identity", m)
		}
		return
	}
	if err == nil && pinOf(q, m.From.Addr) != ownerKey(m) {
		w.t.Violate("%v: ProcessPreKey succeeded but did not record the identity", m)
	}
	if perrors.IsErrUntrustedIdentity(err) {
		w.t.Violate("%v: ProcessPreKey refuses a trusted identity", m)
	}
}

// trustFails lets the identity store fail to decide, on a copy: whatever it says besides, the key is not trusted, so
// nothing may be sent, opened, established or recorded.
func (w *world05) trustFails() {
	t := w.t
	say := t.Rng.IntN(2) == 0
	fault := errors.New("identity store: cannot decide")
	var n *Node
	var q *Party
	arm := func(x *Node) {
		n, q = x, x.P.fork()
		q.St.trust = func(address.Address, identity.Key, direction.Direction) (bool, error) { return say, fault }
	}
	var err error
	var peer address.Address
	var what, before string
	snap := func() string { q.know(peer); return strings.Join(q.snapshot(nil), "\n") }
	kind := t.Rng.IntN(3)
	switch kind {
	case 0:
		a, b := w.pair()
		if r := a.Recs[b.Addr]; r == nil || r.cur == nil {
			return
		}
		arm(a)
		peer = b.Addr
		what = "encryption"
		before = snap()
		var ct message.Ciphertext
		ct, err = q.Session(peer).EncryptMessage(ctx, []byte("secret"))
		if ct != nil {
			t.Violate("encryption although the identity store failed to decide (%v): a message was returned", say)
		}
	case 1:
		a, b := w.pair()
		arm(a)
		peer = b.Addr
		what = "processing a bundle"
		before = snap()
		err = q.Session(peer).ProcessPreKeyBundle(ctx, t.R, b.P.Bundle(false))
	case 2:
		if len(w.Flight) == 0 {
			return
		}
		m := w.Flight[t.Rng.IntN(len(w.Flight))]
		if !w.alive(m.To) {
			return
		}
		arm(m.To)
		peer = m.From.Addr
		what = fmt.Sprintf("decryption of %v", m)
		before = snap()
		var pt []byte
		pt, err = q.receive(peer, m.Typ, m.Wire)
		if pt != nil {
			t.Violate("%s although the identity store failed to decide (%v): a plaintext was returned", what, say)
		}
	}
	t.Eval()
	t.Count("calls with a failing trust decision", 1)
	if err == nil {
		t.Violate("%s succeeded although the identity store failed to decide (%v)", what, say)
	}
	if snap() != before || n.pin(peer) != pinOf(q, peer) {
		t.Violate("%s changed what is stored although the identity store failed to decide (%v)", what, say)
	}
	t.Seen("undecided", kind, say)
}
