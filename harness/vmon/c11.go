package main

import (
	"bytes"
	"math/big"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/message"

	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:   "C11",
		Rule: "Group schedules in which an adversary (an outsider, and fellow members who know every chain key) presents altered, re-signed, spliced and misattributed messages at random points; every byte of a message and its signature is altered in turn. Any output that is not a bit-for-bit genuine message of the attributed sender is a violation. Distinct by kind of forgery, position and receiver state.",
		Run:  runC11,
	})
}

// adversary11 presents forgeries and judges the outcome.
type adversary11 struct {
	t *T
	g *GSim
}

// genuine finds the message with exactly these bytes which the attributed sender made.
func (a *adversary11) genuine(from address.Address, wire []byte) *GMsg {
	for _, m := range a.g.Msgs {
		if m.K.from.Addr == from && bytes.Equal(m.Wire, wire) {
			return m
		}
	}
	return nil
}

func (a *adversary11) present(n *Node, from address.Address, wire []byte, kind string) {
	t := a.t
	if a.genuine(from, wire) != nil {
		return
	}
	pt, err := a.g.open(n, from, wire)
	t.Eval()
	t.Count("forgeries presented", 1)
	t.Count("forgery: "+kind, 1)
	if err == nil || len(pt) > 0 {
		t.Logf("forged: %x as from %v", wire, from)
		t.Violate("%s: %v accepted a message %v never signed (%d bytes of plaintext, err=%v)", kind, n.Addr, from, len(pt), err)
	}
}

func (a *adversary11) sign(priv, body []byte) []byte {
	z := randBytes(a.t, 64)
	return append(clone(body), ref.XSign(priv, body, z)...)
}

// attack presents one random forgery.
func (a *adversary11) attack() {
	t, g := a.t, a.g
	if len(g.Msgs) == 0 {
		return
	}
	m := g.Msgs[t.Rng.IntN(len(g.Msgs))]
	if t.Rng.IntN(2) == 0 {
		m = g.Msgs[len(g.Msgs)-1-t.Rng.IntN(min(6, len(g.Msgs)))]
	}
	n := g.other(m.K.from)
	from := m.K.from.Addr
	gm, err := ref.ParseSenderKey(m.Wire)
	if err != nil {
		t.Skip("message does not parse: %v", err)
	}
	t.Seen("attack", len(g.Recs[n][m.K].get()), m.Accepted[n])
	o := g.Msgs[t.Rng.IntN(len(g.Msgs))]
	om, _ := ref.ParseSenderKey(o.Wire)
	insider := g.other(m.K.from)
	switch t.Rng.IntN(14) {
	case 0:
		i := t.Rng.IntN(len(m.Wire))
		a.present(n, from, flip(m.Wire, i, byte(1+t.Rng.IntN(255))), "altered byte")
	case 1:
		a.present(n, from, append(clone(gm.Body), om.Sig...), "another message's signature")
		a.present(n, from, append(clone(om.Body), gm.Sig...), "another message's body")
	case 2: // a member who knows the chain key makes a message and signs it with a key of its own
		if ct := a.cipherFor(m, []byte("forged by a member")); ct != nil {
			body := ref.EncodeSenderKeyBody(gm.Dist, gm.ChainID, gm.Iteration, ct)
			a.present(n, from, a.sign(insider.P.KP.PrivateKey().Bytes(), body), "member signs with its identity key")
			a.present(n, from, a.sign(ref.GenKP(t.R).Priv, body), "member signs with a fresh key")
			a.present(n, from, append(clone(body), gm.Sig...), "member re-uses the signature")
			a.present(n, from, append(clone(body), make([]byte, 64)...), "member sends a zero signature")
			zr := append([]byte{1}, make([]byte, 63)...)
			a.present(n, from, append(clone(body), zr...), "member sends a trivial signature")
			a.present(n, from, body, "member sends no signature")
			if p := a.senderPriv(insider, m.K.dist); p != nil {
				a.present(n, from, a.sign(p, body), "member signs with its own sender key")
			}
		}
	case 3:
		for _, x := range g.Nodes {
			if x.Addr != from {
				a.present(n, x.Addr, m.Wire, "attributed to another sender")
			}
		}
		a.present(n, address.Address{Name: from.Name, DeviceID: from.DeviceID + 1}, m.Wire, "attributed to another device")
		a.present(n, address.Address{Name: from.Name + " ", DeviceID: from.DeviceID}, m.Wire, "attributed to another name")
	case 4:
		d := g.Dists[t.Rng.IntN(len(g.Dists))]
		b := ref.EncodeSenderKeyBody([]byte(d.String()), gm.ChainID, gm.Iteration, gm.Ciphertext)
		a.present(n, from, append(b, gm.Sig...), "moved to another distribution")
	case 5:
		b := ref.EncodeSenderKeyBody(gm.Dist, om.ChainID, gm.Iteration, gm.Ciphertext)
		a.present(n, from, append(b, gm.Sig...), "moved to another chain")
	case 6:
		b := ref.EncodeSenderKeyBody(gm.Dist, gm.ChainID, gm.Iteration+uint32(t.Rng.IntN(3000))-5, gm.Ciphertext)
		a.present(n, from, append(b, gm.Sig...), "moved in the chain")
	case 7:
		b := ref.EncodeSenderKeyBody(gm.Dist, gm.ChainID, gm.Iteration, om.Ciphertext)
		a.present(n, from, append(b, gm.Sig...), "another ciphertext")
	case 8:
		cut := 1 + t.Rng.IntN(len(m.Wire)-1)
		a.present(n, from, m.Wire[:cut], "truncated")
		a.present(n, from, append(clone(m.Wire), randBytes(t, 1+t.Rng.IntN(40))...), "extended")
		a.present(n, from, append(clone(gm.Body), append(randBytes(t, 1), gm.Sig...)...), "extended before the signature")
		a.present(n, from, append(ref.PutUint(clone(gm.Body), 3, uint64(gm.Iteration+1)), gm.Sig...), "extended by a field")
		a.present(n, from, append(ref.PutUint(clone(gm.Body), 99, 1), gm.Sig...), "extended by an unknown field")
	case 9: // same scalar plus the group order
		s := new(big.Int).SetBytes(reverse(append(clone(gm.Sig[32:63]), gm.Sig[63]&0x7f)))
		l, _ := new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
		s.Add(s, l)
		if s.BitLen() <= 255 {
			x := ref.LeBytes(s, 32)
			x[31] |= gm.Sig[63] & 0x80
			a.present(n, from, append(append(clone(gm.Body), gm.Sig[:32]...), x...), "signature scalar plus the group order")
		}
		a.present(n, from, flip(m.Wire, len(m.Wire)-1, 0x80), "sign bit of the signature")
		a.present(n, from, flip(m.Wire, 0, byte(1+t.Rng.IntN(255))), "another version byte")
	case 10: // an insider's own genuine message, relabelled as the sender's
		if o.K.from != m.K.from {
			a.present(n, from, o.Wire, "another sender's message")
			if p := a.senderPriv(o.K.from, o.K.dist); p != nil {
				b := ref.EncodeSenderKeyBody(gm.Dist, gm.ChainID, gm.Iteration, gm.Ciphertext)
				a.present(n, from, a.sign(p, b), "re-signed by another sender")
			}
		}
	case 12, 13: // a member makes a message the sender did not make yet, for the others and for the sender itself
		if t.Rng.IntN(2) == 0 {
			n = m.K.from
		}
		if rec := g.Cur[m.K]; rec != nil && len(rec.states) > 0 {
			ep := rec.states[0].ep
			it := ep.next + uint32(t.Rng.IntN(4))
			if ct := a.cipherAt(ep, it, plaintextOf(t.Rng, t.R)); ct != nil {
				body := ref.EncodeSenderKeyBody(gm.Dist, ep.chainID, it, ct)
				a.present(n, from, a.sign(insider.P.KP.PrivateKey().Bytes(), body), "message to come, signed by a member")
				a.present(n, from, append(clone(body), gm.Sig...), "message to come, with the signature of another")
				a.present(n, from, append(clone(body), make([]byte, 64)...), "message to come, with a zero signature")
				if n == m.K.from {
					t.Count("forgeries presented to the sender itself", 1)
				}
			}
		}
	case 11: // signed by an earlier or later key of the same sender
		for _, x := range g.Msgs {
			if x.K == m.K && x.Ep != m.Ep && x.Ep.chainID != m.Ep.chainID {
				rec := loadGroup(m.K.from.P, from, m.K.dist)
				if st := rec.StateForChainID(x.Ep.chainID); st != nil {
					if pub, err := st.PublicSigningKey(); err == nil && bytes.Equal(pub.Bytes(), x.Ep.sign) {
						if p, err := st.PrivateSigningKey(); err == nil {
							if ct := a.cipherFor(m, []byte("other key")); ct != nil {
								b := ref.EncodeSenderKeyBody(gm.Dist, gm.ChainID, gm.Iteration, ct)
								a.present(n, from, a.sign(p.Bytes(), b), "signed by another key of the sender")
							}
						}
					}
				}
				break
			}
		}
	}
}

func reverse(b []byte) []byte {
	o := make([]byte, len(b))
	for i := range b {
		o[len(b)-1-i] = b[i]
	}
	return o
}

func (r *gmRecord) get() []*gmState {
	if r == nil {
		return nil
	}
	return r.states
}

// senderPriv is the private signing key of a sender, nil if it has none.
func (a *adversary11) senderPriv(n *Node, d distribution.ID) []byte {
	if a.g.Cur[gkey{n, d}] == nil {
		return nil
	}
	p, err := must(loadGroup(n.P, n.Addr, d).State()).PrivateSigningKey()
	if err != nil {
		return nil
	}
	return p.Bytes()
}

// cipherFor encrypts pt with the genuine key of m's position, which a member can derive from a distribution message.
func (a *adversary11) cipherFor(m *GMsg, pt []byte) []byte { return a.cipherAt(m.Ep, m.Iter, pt) }

func (a *adversary11) cipherAt(ep *epoch, iter uint32, pt []byte) []byte {
	for _, s := range a.g.SKDs {
		if s.Ep == ep && s.Iter <= iter && iter-s.Iter < 3000 {
			p, err := ref.ParseSKD(s.Wire)
			if err != nil {
				return nil
			}
			ck := p.ChainKey
			for i := s.Iter; i < iter; i++ {
				ck = ref.NextChain(ck)
			}
			iv, key := ref.SenderMsgKeys(ck)
			return ref.CBCEncrypt(key, iv, pt)
		}
	}
	return nil
}

func runC11(c *C) {
	c.Cases("attacks", c.N(150, 4000), func(t *T, i int) {
		g := newGSim(t, 2+t.Rng.IntN(3), 1+t.Rng.IntN(2))
		a := &adversary11{t, g}
		d := gdriver{
			onDeliver: func(n *Node, m *GMsg, r GResult) {
				if r.OK && !bytes.Equal(r.Plain, m.Plain) {
					t.Violate("%v decrypted by %v to %x, was %x", m, n.Addr, r.Plain, m.Plain)
				}
				if (r.Pred == pAccept) != r.OK {
					t.Skip("%v: model %v, library %v", m, r.Pred, r.Err)
				}
				t.Count("genuine deliveries", 1)
			},
			onProcess: func(n *Node, s *SKD, err error) {
				if err != nil {
					t.Skip("distribution refused: %v", err)
				}
			},
			after: func() {
				if t.Rng.IntN(3) > 0 {
					a.attack()
				}
			},
		}
		g.run(gprofiles[i%len(gprofiles)], d)
		if t.wantSample() {
			t.Sample(map[string]any{"case": t.Name, "messages": len(g.Msgs), "events": tail(t.log, 8)})
		}
	})
	c.Cases("bytes", c.N(24, 400), bytes11)
	c.Cases("twin", c.N(30, 400), twin11)
	c.Cases("large", c.N(20, 200), large11)
	c.Require("forgeries presented", 5000)
	c.Require("genuine deliveries", 2000)
	c.Require("forgery: member signs with its identity key", 50)
	c.Require("forgery: signed by another key of the sender", 20)
	c.Require("every byte altered", 10)
	c.Require("forgeries presented to the sender itself", 100)
}

// bytes11 alters every byte of one message in turn, and checks the exported verification on the same inputs.
func bytes11(t *T, i int) {
	g := newGSim(t, 2, 1)
	a := &adversary11{t, g}
	k := gkey{g.Nodes[0], g.Dists[0]}
	n := g.Nodes[1]
	if err := g.process(n, g.distribute(k)); err != nil {
		t.Skip("%v", err)
	}
	for j := t.Rng.IntN(4); j > 0; j-- {
		g.deliver(n, g.send(k, []byte("before")))
	}
	if i%2 == 0 {
		g.send(k, []byte("gap"))
	}
	m := g.send(k, plaintextOf(t.Rng, t.R))
	key := must(curve.NewPublicKey(m.Ep.sign))
	other := must(curve.GenerateKeyPair(t.R)).PublicKey()
	verify := func(w []byte, k curve.PublicKey) bool {
		x, err := message.NewSenderKeyFromBytes(clone(w))
		if err != nil {
			return false
		}
		ok, err := x.VerifySignature(k)
		return ok && err == nil
	}
	t.Eval()
	if !verify(m.Wire, key) {
		t.Skip("genuine signature does not verify")
	}
	if verify(m.Wire, other) {
		t.Violate("the signature of %v verifies under another key", m)
	}
	for j := range m.Wire {
		x := byte(1 << t.Rng.IntN(8))
		w := flip(m.Wire, j, x)
		a.present(n, k.from.Addr, w, "altered byte")
		if verify(w, key) {
			t.Violate("the signature verifies after byte %d was altered by %#x", j, x)
		}
	}
	for j := 0; j < 8; j++ {
		a.present(n, k.from.Addr, flip(m.Wire, len(m.Wire)-1, 1<<j), "altered byte")
		a.present(n, k.from.Addr, flip(m.Wire, len(m.Wire)-64, 1<<j), "altered byte")
		a.present(n, k.from.Addr, flip(m.Wire, 0, 1<<j), "altered byte")
	}
	for j := 1; j < len(m.Wire); j++ {
		a.present(n, k.from.Addr, m.Wire[:j], "truncated")
	}
	r := g.deliver(n, m)
	if !r.OK || !bytes.Equal(r.Plain, m.Plain) {
		t.Skip("genuine message refused after forgeries: %v", r.Err)
	}
	t.Count("every byte altered", 1)
	t.Seen("bytes", len(m.Wire), i%2)
}

// twin11: a member distributes a sender key with another's chain id and chain key under its own signing key, and the
// messages of each are presented as the other's.
func twin11(t *T, i int) {
	g := newGSim(t, 4, 1)
	a := &adversary11{t, g}
	alice, mal, n := g.Nodes[0], g.Nodes[1], g.Nodes[2]
	if i%2 == 1 {
		mal = g.Nodes[2] // a second device of the same user
		n = g.Nodes[3]
	}
	k := gkey{alice, g.Dists[0]}
	s := g.distribute(k)
	p, err := ref.ParseSKD(s.Wire)
	if err != nil {
		t.Skip("%v", err)
	}
	ms := &ref.GroupSender{Dist: p.Dist, ChainID: p.ChainID, CK: clone(p.ChainKey), N: p.Iteration, Sign: ref.GenKP(t.R)}
	if i%3 == 0 {
		ms.ChainID++
	}
	both := func() {
		if err := g.process(n, s); err != nil {
			t.Skip("%v", err)
		}
	}
	skd, err := message.NewSenderKeyDistributionFromBytes(ms.SKD())
	if err != nil {
		t.Skip("%v", err)
	}
	mine := func() {
		if err := n.P.Group(mal.Addr, distribution.ID{}).ProcessSenderKeyDistribution(ctx, skd); err != nil {
			t.Skip("%v", err)
		}
	}
	if i%4 < 2 {
		both()
		mine()
	} else {
		mine()
		both()
	}
	for j := 0; j < 12; j++ {
		m := g.send(k, []byte("from alice"))
		w := ms.Encrypt([]byte("from mallory"), randBytes(t, 64))
		a.present(n, mal.Addr, m.Wire, "a member's twin of the sender key")
		a.present(n, alice.Addr, w, "a member's twin of the sender key")
		if t.Rng.IntN(2) == 0 {
			if r := g.deliver(n, m); !r.OK || string(r.Plain) != "from alice" {
				t.Skip("genuine message refused: %v", r.Err)
			}
		}
		if t.Rng.IntN(2) == 0 {
			pt, err := g.open(n, mal.Addr, w)
			if err != nil || string(pt) != "from mallory" {
				t.Skip("the twin's own message refused: %v", err)
			}
		}
	}
	t.Seen("twin", i%12)
}

// large11 tampers with long group messages.
func large11(t *T, i int) {
	g := newGSim(t, 2, 1)
	a := &adversary11{t, g}
	k := gkey{g.Nodes[0], g.Dists[0]}
	n := g.Nodes[1]
	if err := g.process(n, g.distribute(k)); err != nil {
		t.Skip("%v", err)
	}
	m := g.send(k, randBytes(t, large03Sizes[i%len(large03Sizes)]))
	for _, j := range spots(t, len(m.Wire), 20) {
		a.present(n, k.from.Addr, flip(m.Wire, j, 1<<t.Rng.IntN(8)), "altered byte of a long message")
	}
	for _, j := range spots(t, len(m.Wire), 5) {
		a.present(n, k.from.Addr, m.Wire[:j], "truncated")
		x := min(len(m.Wire)-1, j+16)
		a.present(n, k.from.Addr, append(clone(m.Wire[:j]), m.Wire[x:]...), "shortened long message")
	}
	r := g.deliver(n, m)
	if !r.OK || !bytes.Equal(r.Plain, m.Plain) {
		t.Skip("genuine message refused after forgeries: %v", r.Err)
	}
	t.Seen("large", len(m.Wire))
}
