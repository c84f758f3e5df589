package main

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/perrors"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:   "C31",
		Rule: "Conversations of two library parties under random schedules. At many points a party's session is taken from its store in serialized form, read by an independent implementation, compared with what the conversation says it must contain and with what the accessors tell, and continued by that implementation for a while (reading late messages, refusing repeated ones, making ratchet steps), then stored by it and continued by the library. Distinct by (who, role, shape of the stored session, direction of the move).",
		Run:  runC31,
	})
}

func runC31(c *C) {
	c.Cases("moves", c.N(500, 12000), moves31)
	c.Cases("limits", c.N(6, 60), limits31)
	c.Require("sessions continued by the reference", 1500)
	c.Require("sessions continued by the library", 1200)
	c.Require("late messages read after a move", 400)
	c.Require("repeated messages refused after a move", 400)
}

// side31 is one end of a conversation: the library, or the reference continuing its session.
type side31 struct {
	p       *Party
	peer    *side31
	rs      *ref.Session // nil while the library has the session
	started bool
	replied bool // has read a message of the session
	fresh   bool // moved since the last delivery
	steps   int  // sending chains
	out     map[string]int
}

type msg31 struct {
	typ   message.CiphertextType
	wire  []byte
	plain []byte
	chain int // the sender's sending chain
	n     uint32
}

func (s *side31) state(t *T) (*session.Record, *ref.Stored) {
	r := s.p.rawRecord(s.peer.p.Addr)
	if r == nil || r.State() == nil {
		t.Violate("%v holds no session with %v", s.p.Addr, s.peer.p.Addr)
	}
	b := clone(r.State().Bytes())
	st, err := ref.ParseStored(b)
	if err != nil {
		t.Violate("the stored session is not in the published format: %v (%x)", err, b)
	}
	return r, st
}

// check compares a stored session with the conversation and with the accessors.
func (s *side31) check(t *T, base []byte, b *pending31) *ref.Stored {
	r, st := s.state(t)
	eq := func(what string, got, want any) {
		if fmt.Sprintf("%x", got) != fmt.Sprintf("%x", want) {
			t.Violate("stored session of %v: %s is %x, must be %x", s.p.Addr, what, got, want)
		}
	}
	eq("version", st.Version, uint32(3))
	eq("own identity", st.Local, s.p.KP.IdentityKey().Bytes())
	eq("other identity", st.Remote, s.peer.p.KP.IdentityKey().Bytes())
	eq("own registration id", st.LocalReg, s.p.Reg)
	eq("other registration id", st.RemoteReg, s.peer.p.Reg)
	eq("base key", st.BaseKey, base)
	if want := b != nil && b.by == s && !s.replied; st.Pending != want {
		t.Violate("stored session of %v: pending handshake %v, must be %v", s.p.Addr, st.Pending, want)
	}
	if st.Pending {
		eq("pending base key", st.PendingBase, base)
		eq("pending pre-key", st.PreKeyID, b.pre)
		eq("pending signed pre-key", st.SignedID, b.signed)
	}
	// the accessors
	x := r.State()
	v, err := r.Version()
	if err != nil || v != 3 || x.Version() != 3 {
		t.Violate("the record's version is %d, %v", v, err)
	}
	l, err := r.LocalIdentityKey()
	if err != nil {
		t.Violate("LocalIdentityKey: %v", err)
	}
	eq("LocalIdentityKey", l.Bytes(), st.Local)
	ri, ok, err := r.RemoteIdentityKey()
	if err != nil || !ok {
		t.Violate("RemoteIdentityKey: %v %v", ok, err)
	}
	eq("RemoteIdentityKey", ri.Bytes(), st.Remote)
	ck, err := r.SenderChainKey()
	if err != nil {
		t.Violate("SenderChainKey: %v", err)
	}
	eq("SenderChainKey", ck.Key(), st.SendCK)
	eq("SenderChainKey index", ck.Index(), st.SendN)
	rk, err := x.SenderRatchetKey()
	if err != nil {
		t.Violate("SenderRatchetKey: %v", err)
	}
	eq("SenderRatchetKey", rk.Bytes(), st.Send.Pub)
	sk, err := x.SenderRatchetPrivateKey()
	if err != nil {
		t.Violate("SenderRatchetPrivateKey: %v", err)
	}
	eq("SenderRatchetPrivateKey", clamp31(sk.Bytes()), clamp31(st.Send.Priv)) // which bits are clamped when is free
	eq("public ratchet key", st.Send.Pub, ref.KPFrom(st.Send.Priv).Pub)
	root, err := x.RootKey()
	if err != nil {
		t.Violate("RootKey: %v", err)
	}
	eq("RootKey", root.Bytes(), st.Root)
	eq("PreviousCounter", x.PreviousCounter(), st.PrevN)
	eq("AliceBaseKey", x.AliceBaseKey(), st.BaseKey)
	eq("LocalRegistrationID", x.LocalRegistrationID(), st.LocalReg)
	for _, c := range st.Chains {
		pk, err := curve.NewPublicKey(c.Pub)
		if err != nil {
			t.Violate("receiving chain %x: %v", c.Pub, err)
		}
		k, ok, err := r.ReceiverChainKey(pk)
		if err != nil || !ok {
			t.Violate("ReceiverChainKey(%x): %v %v", c.Pub, ok, err)
		}
		eq("ReceiverChainKey", k.Key(), c.CK)
		eq("ReceiverChainKey index", k.Index(), c.N)
	}
	un, err := x.UnacknowledgedPreKeyMessages()
	if err != nil || (un != nil) != st.Pending {
		t.Violate("UnacknowledgedPreKeyMessages: %v %v, stored %v", un, err, st.Pending)
	}
	if un != nil {
		eq("unacknowledged base key", un.BaseKey().Bytes(), st.PendingBase)
		eq("unacknowledged signed pre-key", uint32(un.SignedPreKeyID()), st.SignedID)
		if id := un.PreKeyID(); (id != nil) != (st.PreKeyID != 0) || id != nil && uint32(*id) != st.PreKeyID {
			t.Violate("unacknowledged pre-key %v, stored %d", id, st.PreKeyID)
		}
	}
	t.Eval()
	return st
}

type pending31 struct {
	by          *side31
	pre, signed uint32
}

// toRef moves the session from the library to the reference.
func (s *side31) toRef(t *T, st *ref.Stored) {
	rs, err := st.Load(t.R)
	if err != nil {
		t.Violate("the session stored by %v cannot be continued: %v", s.p.Addr, err)
	}
	s.rs, s.fresh = rs, true
	t.Count("sessions continued by the reference", 1)
}

// toLib moves it back.
func (s *side31) toLib(t *T) {
	b := s.rs.Store(s.peer.p.Reg, 5, 2000)
	r, err := session.NewRecordBytes(b)
	if err != nil {
		t.Violate("the library cannot read a session in the published format: %v", err)
	}
	if err := s.p.St.in.SessionStore().Store(ctx, s.peer.p.Addr, r); err != nil {
		t.Skip("store: %v", err)
	}
	s.rs, s.fresh = nil, true
	t.Count("sessions continued by the library", 1)
}

func (s *side31) send(t *T, pt []byte) *msg31 {
	m := &msg31{plain: pt}
	if s.rs != nil {
		typ, w := s.rs.Encrypt(pt)
		m.typ, m.wire = message.CiphertextType(typ), w
	} else {
		ct, err := s.p.Session(s.peer.p.Addr).EncryptMessage(ctx, pt)
		if err != nil {
			t.Violate("%v cannot encrypt: %v", s.p.Addr, err)
		}
		m.typ, m.wire = ct.Type(), clone(ct.Bytes())
	}
	sm, err := ref.ParseSignal(inner(m.typ, m.wire))
	if err != nil {
		t.Violate("%v made a message that cannot be read: %v", s.p.Addr, err)
	}
	k := string(sm.RatchetKey)
	if _, ok := s.out[k]; !ok {
		s.steps++
		s.out[k] = s.steps
	}
	m.chain, m.n = s.out[k], sm.Counter
	return m
}

// read gives a message to a side; dup says whether it was refused as a duplicate.
func (s *side31) read(m *msg31) (pt []byte, dup bool, err error) {
	if s.rs != nil {
		pt, err = s.rs.Decrypt(inner(m.typ, m.wire))
		return pt, err != nil && err.Error() == "ref: duplicate", err
	}
	pt, err = s.p.receive(s.peer.p.Addr, m.typ, m.wire)
	return pt, errors.Is(err, perrors.ErrDuplicateMessage), err
}

func moves31(t *T, i int) {
	a, b := &side31{p: newParty(t, "alice", 1), out: map[string]int{}}, &side31{p: newParty(t, "bob", 2), out: map[string]int{}}
	a.peer, b.peer = b, a
	bundle := b.p.Bundle(i%3 > 0)
	if err := a.p.Session(b.p.Addr).ProcessPreKeyBundle(ctx, a.p.R, bundle); err != nil {
		t.Violate("bundle refused: %v", err)
	}
	a.started = true
	pend := &pending31{by: a, signed: uint32(bundle.SignedPreKeyID)}
	if bundle.PreKeyID != nil {
		pend.pre = uint32(*bundle.PreKeyID)
	}
	_, st := a.state(t)
	base := clone(st.BaseKey)
	a.check(t, base, pend)
	inflight := map[*side31][]*msg31{} // by receiver
	read := map[*side31][]*msg31{}
	order := t.Rng.IntN(3)
	for op, ops := 0, 40+t.Rng.IntN(100); op < ops; op++ {
		s := a
		if t.Rng.IntN(2) == 0 {
			s = b
		}
		if !s.started {
			if len(inflight[s]) == 0 {
				s = a
			} else if t.Rng.IntN(3) > 0 {
				continue
			}
		}
		switch k := t.Rng.IntN(100); {
		case k < 35 && s.started:
			pt := plaintextOf(t.Rng, t.R)
			m := s.send(t, pt)
			if s.rs != nil && t.Rng.IntN(10) == 0 {
				s.rs.Skip(1 + t.Rng.IntN(40))
			}
			t.Logf("%v (reference %v) sends chain %d #%d type %d", s.p.Addr, s.rs != nil, m.chain, m.n, m.typ)
			if want := s == a && !s.replied; (m.typ == message.PreKeyType) != want {
				t.Violate("message of type %v after replied=%v", m.typ, s.replied)
			}
			inflight[s.peer] = append(inflight[s.peer], m)
		case k < 70 && len(inflight[s]) > 0:
			q := inflight[s]
			j := 0
			if order == 1 || order == 2 && t.Rng.IntN(3) == 0 {
				j = t.Rng.IntN(len(q))
			}
			m := q[j]
			inflight[s] = append(q[:j:j], q[j+1:]...)
			if s.started && m.chain < s.peer.steps-3 || t.Rng.IntN(15) == 0 {
				continue
			}
			pt, _, err := s.read(m)
			t.Eval()
			t.Logf("%v (reference %v) reads chain %d #%d -> %v", s.p.Addr, s.rs != nil, m.chain, m.n, err)
			if err != nil {
				t.Violate("%v cannot read message %d of chain %d: %v", s.p.Addr, m.n, m.chain, err)
			}
			if !bytes.Equal(pt, m.plain) {
				t.Violate("%v reads %s, sent was %s", s.p.Addr, hexs(pt), hexs(m.plain))
			}
			if j > 0 || len(read[s]) > 0 && read[s][len(read[s])-1].n > m.n {
				if s.fresh {
					t.Count("late messages read after a move", 1)
				}
			}
			s.started, s.replied, s.fresh = true, true, s.fresh && t.Rng.IntN(4) > 0
			read[s] = append(read[s], m)
		case k < 78 && len(read[s]) > 0:
			m := read[s][max(0, len(read[s])-1-t.Rng.IntN(12))]
			if m.chain < s.peer.steps-3 {
				continue
			}
			pt, dup, err := s.read(m)
			t.Eval()
			if err == nil {
				t.Violate("%v reads message %d of chain %d a second time: %s", s.p.Addr, m.n, m.chain, hexs(pt))
			}
			if !dup {
				t.Violate("%v refuses a repeated message with %v", s.p.Addr, err)
			}
			if s.fresh {
				t.Count("repeated messages refused after a move", 1)
			}
		case s.started && s.rs == nil:
			st := s.check(t, base, pend)
			t.Seen("to-ref", s == a, len(st.Chains), st.Pending, st.SendN > 0, st.PrevN > 0, keys31(st))
			if t.Rng.IntN(3) > 0 {
				s.toRef(t, st)
				t.Logf("%v moves to the reference", s.p.Addr)
				if t.Rng.IntN(4) == 0 {
					s.toLib(t)
					s.check(t, base, pend)
				}
			}
		case s.started:
			s.toLib(t)
			st := s.check(t, base, pend)
			t.Logf("%v moves to the library", s.p.Addr)
			t.Seen("to-lib", s == a, len(st.Chains), st.Pending, st.SendN > 0, st.PrevN > 0, keys31(st))
		}
	}
	if t.wantSample() {
		t.Sample(map[string]any{"case": t.Name, "events": tail(t.log, 12)})
	}
}

func keys31(st *ref.Stored) (n int) {
	for _, c := range st.Chains {
		n += len(c.Keys)
	}
	return
}

// limits31: sessions with as much in them as is ever kept.
func limits31(t *T, i int) {
	a, b := &side31{p: newParty(t, "alice", 1), out: map[string]int{}}, &side31{p: newParty(t, "bob", 2), out: map[string]int{}}
	a.peer, b.peer = b, a
	if err := a.p.Session(b.p.Addr).ProcessPreKeyBundle(ctx, a.p.R, b.p.Bundle(i%2 > 0)); err != nil {
		t.Violate("bundle refused: %v", err)
	}
	_, st := a.state(t)
	base := clone(st.BaseKey)
	a.toRef(t, st)
	must := func(s *side31, m *msg31) {
		pt, _, err := s.read(m)
		t.Eval()
		if err != nil || !bytes.Equal(pt, m.plain) {
			t.Violate("%v cannot read message %d of chain %d: %v", s.p.Addr, m.n, m.chain, err)
		}
		s.replied = true
	}
	var late []*msg31
	for k := 0; k < 5; k++ {
		n := 2000
		if k%2 == i%2 {
			n = 100 + t.Rng.IntN(1800)
		}
		var l []*msg31
		for j := 0; j < n; j++ {
			m := a.send(t, []byte{byte(k), byte(j), byte(j >> 8)})
			if j < 3 || j > n-4 || t.Rng.IntN(50) == 0 {
				l = append(l, m)
			}
		}
		must(b, a.send(t, []byte("end")))
		late = append(late, l...)
		b.steps++ // count
		m := b.send(t, []byte("reply"))
		must(a, m)
		t.Logf("chain %d with %d outstanding", k, n)
	}
	st = b.check(t, base, nil)
	if got := len(st.Chains); got != 5 {
		t.Violate("%d receiving chains are stored, must be 5", got)
	}
	for r := 0; r < 3; r++ {
		b.toRef(t, st)
		for j := 0; j < len(late)/2; j++ {
			k := t.Rng.IntN(len(late))
			must(b, late[k])
			late = append(late[:k:k], late[k+1:]...)
			t.Count("late messages read after a move", 1)
		}
		b.toLib(t)
		for j := 0; j < len(late)/2; j++ {
			k := t.Rng.IntN(len(late))
			must(b, late[k])
			late = append(late[:k:k], late[k+1:]...)
		}
		st = b.check(t, base, nil)
		t.Seen("limits", len(st.Chains), keys31(st)/500)
	}
}

func clamp31(k []byte) []byte {
	k = clone(k)
	k[0] &= 248
	k[31] = k[31]&127 | 64
	return k
}
