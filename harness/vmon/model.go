package main

import (
	"fmt"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
)

// The delivery model: which messages a receiver can open, told from who ratcheted on what, with no cryptography.

const (
	modelMaxSkipped  = 2000
	modelMaxJump     = 25000
	modelMaxChains   = 5
	modelMaxArchived = 40
)

// tok stands for a ratchet key pair. parent is the remote ratchet key it answers.
type tok struct {
	parent *tok
	pub    []byte // known once it was seen on the wire
}

// hs stands for one handshake (one base key).
type hs struct {
	id        int
	alice     *Node
	bob       *Node
	aliceID   string // identity keys used
	bobID     string
	spk       *tok
	preKeyID  *prekey.ID
	signedID  prekey.ID
	baseKey   []byte // once seen on the wire
	aliceReg  uint32
	aliceAddr address.Address
	renewed   bool // evicted at the receiver and set up anew by a later message of the same handshake
}

type mChain struct {
	tok     *tok
	next    uint32
	skipped []uint32
}

type mState struct {
	hs      *hs
	alice   bool
	sendTok *tok
	sendN   uint32
	prevN   uint32
	recv    []*mChain
	pending bool
	peerID  string
}

func (s *mState) clone() *mState {
	c := *s
	c.recv = nil
	for _, x := range s.recv {
		y := *x
		y.skipped = append([]uint32(nil), x.skipped...)
		c.recv = append(c.recv, &y)
	}
	return &c
}

func (s *mState) self() bool { return s.hs.aliceID == s.hs.bobID }

type mRecord struct {
	cur  *mState
	prev []*mState
}

func (r *mRecord) find(h *hs) *mState {
	if r.cur != nil && r.cur.hs == h {
		return r.cur
	}
	for _, p := range r.prev {
		if p.hs == h {
			return p
		}
	}
	return nil
}

func (r *mRecord) promote(s *mState) {
	if r.cur != nil {
		if len(r.prev) >= modelMaxArchived {
			r.prev = r.prev[1:]
		}
		r.prev = append(append([]*mState(nil), r.prev...), r.cur)
	}
	r.cur = s
}

// Msg is a message of the history, with what the model knows about it.
type Msg struct {
	N        int
	From, To *Node
	Typ      message.CiphertextType
	Wire     []byte
	Inner    []byte
	Plain    []byte
	HS       *hs
	Tok      *tok
	Index    uint32
	PrevN    uint32
	Accepted int // deliveries accepted
	Peer     string
}

func (m *Msg) String() string {
	return fmt.Sprintf("m%d %s->%s hs%d idx%d typ%d", m.N, m.From.Addr, m.To.Addr, m.HS.id, m.Index, m.Typ)
}

type pred int

const (
	pAccept pred = iota
	pDuplicate
	pRefuse
)

func (p pred) String() string { return [...]string{"accept", "duplicate", "refuse"}[p] }

// how describes the way an accepted message was found (for coverage).
type how struct {
	newSession, archived, newChain, late, oldChain bool
	jump                                           uint32
	evicted                                        bool
}

func (h how) String() string {
	s := ""
	add := func(b bool, x string) {
		if b {
			s += x + " "
		}
	}
	add(h.newSession, "new-session")
	add(h.archived, "archived-session")
	add(h.newChain, "new-chain")
	add(h.oldChain, "old-chain")
	add(h.late, "late")
	add(h.jump > 0, "jump")
	if s == "" {
		s = "in-order "
	}
	return s[:len(s)-1]
}

// tryState applies m to a state; the state is changed only for pAccept.
func tryState(s *mState, m *Msg, h *how) pred {
	if s.hs != m.HS {
		return pRefuse
	}
	var c *mChain
	for i, x := range s.recv {
		if x.tok == m.Tok {
			c = x
			h.oldChain = i != len(s.recv)-1
		}
	}
	if c != nil {
		if m.Index < c.next {
			for i, k := range c.skipped {
				if k == m.Index {
					c.skipped = append(append([]uint32(nil), c.skipped[:i]...), c.skipped[i+1:]...)
					h.late = true
					s.pending = false
					return pAccept
				}
			}
			return pDuplicate
		}
		if m.Index-c.next > modelMaxJump && !s.self() {
			return pRefuse
		}
	} else {
		if m.Tok.parent != s.sendTok {
			return pRefuse
		}
		if m.Index > modelMaxJump && !s.self() {
			return pRefuse
		}
		c = &mChain{tok: m.Tok}
		s.recv = append(s.recv, c)
		if len(s.recv) > modelMaxChains {
			s.recv = s.recv[1:]
		}
		s.prevN = 0
		if s.sendN > 0 {
			s.prevN = s.sendN - 1
		}
		s.sendN = 0
		s.sendTok = &tok{parent: m.Tok}
		h.newChain = true
	}
	h.jump = m.Index - c.next
	for c.next < m.Index {
		c.skipped = append(c.skipped, c.next)
		c.next++
		if len(c.skipped) > modelMaxSkipped {
			c.skipped = c.skipped[1:]
			h.evicted = true
		}
	}
	c.next++
	s.pending = false
	return pAccept
}

// predict says what the receiver must do with the genuine message m presented as typ, and returns the receiver's
// record after acceptance. delPre is the one-time pre-key that acceptance consumes.
func (n *Node) predict(rec *mRecord, m *Msg, typ message.CiphertextType) (p pred, next *mRecord, delPre *prekey.ID, h how) {
	r := &mRecord{}
	if rec != nil {
		r.cur, r.prev = rec.cur, rec.prev
	}
	if typ == message.PreKeyType && r.find(m.HS) == nil {
		if m.HS.bob != n {
			return pRefuse, rec, nil, h
		}
		if _, ok := n.P.Signed[m.HS.signedID]; !ok {
			return pRefuse, rec, nil, h
		}
		if m.HS.preKeyID != nil {
			if !n.Avail[*m.HS.preKeyID] {
				return pRefuse, rec, nil, h
			}
			delPre = m.HS.preKeyID
		}
		r.promote(&mState{hs: m.HS, sendTok: m.HS.spk, peerID: m.HS.aliceID})
		h.newSession = true
	}
	if r.cur != nil {
		s := r.cur.clone()
		switch tryState(s, m, &h) {
		case pAccept:
			return pAccept, &mRecord{s, r.prev}, delPre, h
		case pDuplicate:
			return pDuplicate, rec, nil, h
		}
	}
	for i, ps := range r.prev {
		s := ps.clone()
		switch tryState(s, m, &h) {
		case pAccept:
			h.archived = true
			nr := &mRecord{cur: r.cur, prev: append(append([]*mState(nil), r.prev[:i]...), r.prev[i+1:]...)}
			nr.promote(s)
			return pAccept, nr, delPre, h
		case pDuplicate:
			return pDuplicate, rec, nil, h
		}
	}
	return pRefuse, rec, nil, h
}

// Node is a party in the simulated network together with its model.
type Node struct {
	*Sim
	P     *Party
	Addr  address.Address
	Recs  map[address.Address]*mRecord
	Avail map[prekey.ID]bool // one-time pre-keys not yet consumed
}
