package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/crypto/aes"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/curve/curve25519"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/fingerprint"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/senderkey"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:   "C25",
		Rule: "Every byte slice passed to the library sits inside a canary-filled array (with 0 to 64 bytes of spare capacity behind it, also slices of slices); after every call, successful or not, the whole array must be as before, and so must message, bundle and key objects as their accessors tell. Then every input array and every returned slice, including its spare capacity, is overwritten: public, private and identity keys, stored sessions, pre-keys and group states must stay as they were, and the conversation must go on. Distinct by (call, lengths, outcome).",
		Run:  runC25,
	})
}

func runC25(c *C) {
	c.Cases("keys", c.N(400, 10000), keys25)
	c.Cases("signatures", c.N(300, 6000), signatures25)
	c.Cases("messages", c.N(300, 6000), messages25)
	c.Cases("sessions", c.N(120, 3000), sessions25)
	c.Cases("groups", c.N(120, 3000), groups25)
	c.Cases("fingerprints", c.N(150, 3000), fingerprints25)
	c.Cases("symmetric", c.N(300, 6000), symmetric25)
	c.Require("guarded inputs", 20000)
	c.Require("returned slices overwritten", 5000)
	c.Require("stored states compared after overwriting", 2000)
}

// guard watches the memory that a caller passes in.
type guard struct {
	t    *T
	bufs []*buf25
	outs [][]byte
	objs []obj25
}

type buf25 struct {
	name        string
	whole, copy []byte
	s           []byte
}

// obj25 is an object whose contents have to stay as they are.
type obj25 struct {
	name string
	was  string
	view func() string
}

func (g *guard) in(name string, b []byte) []byte {
	spare := []int{0, 1, 15, 16, 17, 32, 64}[g.t.Rng.IntN(7)]
	whole := randBytes(g.t, 16+len(b)+spare)
	copy(whole[16:], b)
	x := &buf25{name, whole, clone(whole), whole[16 : 16+len(b) : len(whole)]}
	g.bufs = append(g.bufs, x)
	g.t.Count("guarded inputs", 1)
	return x.s
}

// parts guards the slices of a slice, and the slice that holds them.
func (g *guard) parts(name string, ps [][]byte) [][]byte {
	out := make([][]byte, 0, len(ps)+2)
	for i, p := range ps {
		out = append(out, g.in(fmt.Sprintf("%s part %d", name, i), p))
	}
	held := out[:len(out):cap(out)]
	g.obj(name+" (slice of parts)", func() string {
		s := ""
		for _, p := range held[:cap(held)] {
			s += fmt.Sprintf("%p/%d/%d ", p, len(p), cap(p))
		}
		return s
	})
	return held
}

func (g *guard) out(b []byte) []byte {
	if b != nil {
		g.outs = append(g.outs, b)
		g.t.Count("returned slices overwritten", 1)
	}
	return b
}

func (g *guard) obj(name string, view func() string) {
	g.objs = append(g.objs, obj25{name, view(), view})
}

// untouched is called after every library call.
func (g *guard) untouched(what string) {
	g.t.Eval()
	for _, b := range g.bufs {
		if !bytes.Equal(b.whole, b.copy) {
			i := 0
			for b.whole[i] == b.copy[i] {
				i++
			}
			where := fmt.Sprintf("byte %d", i-16)
			if i >= 16+len(b.s) {
				where = fmt.Sprintf("spare capacity (byte %d behind the end)", i-16-len(b.s))
			}
			g.t.Violate("%s changes its caller's %s at %s: before %x, after %x", what, b.name, where, clipB(b.copy), clipB(b.whole))
		}
	}
	for _, o := range g.objs {
		if v := o.view(); v != o.was {
			g.t.Violate("%s changes the contents of the %s passed in:\nbefore %s\nafter  %s", what, o.name, clip(o.was), clip(v))
		}
	}
}

// spoil overwrites everything the caller owns.
func (g *guard) spoil() {
	for _, b := range g.bufs {
		for i := range b.whole {
			b.whole[i] ^= 0xa5
		}
	}
	for _, o := range g.outs {
		o = o[:cap(o)]
		for i := range o {
			o[i] ^= 0x5a
		}
	}
	g.bufs, g.outs, g.objs = nil, nil, nil
}

func clipB(b []byte) []byte {
	if len(b) > 120 {
		return b[:120]
	}
	return b
}

func pubView(k curve.PublicKey) string {
	return fmt.Sprintf("%x %x", k.Bytes(), k.KeyBytes())
}

func privView(k curve.PrivateKey) string {
	return fmt.Sprintf("%x %s", k.Bytes(), pubView(k.PublicKey()))
}

func pairView(k *curve.KeyPair) string {
	return privView(k.PrivateKey()) + " " + pubView(k.PublicKey())
}

func keys25(t *T, i int) {
	g := &guard{t: t}
	raw, _ := priv16(t)
	pub := append([]byte{5}, ref.X25519Public(raw)...)
	if t.Rng.IntN(5) == 0 { // longer encodings are accepted and cut
		pub = append(pub, randBytes(t, 1+t.Rng.IntN(4))...)
	}
	type held struct {
		name string
		view func() string
		was  string
	}
	var hs []held
	hold := func(name string, view func() string) { hs = append(hs, held{name, view, view()}) }

	if k, err := curve.NewPrivateKey(g.in("private key", raw)); err == nil {
		g.untouched("NewPrivateKey")
		hold("private key", func() string { return privView(k) })
		g.out(k.Bytes())
		g.out(k.PublicKey().Bytes())
		g.out(k.PublicKey().KeyBytes())
		p := k.PublicKey()
		hold("public key of a private key", func() string { return pubView(p) })
	}
	if k, err := curve.NewPublicKey(g.in("public key", pub)); err == nil {
		g.untouched("NewPublicKey")
		hold("public key", func() string { return pubView(k) })
		g.out(k.Bytes())
		g.out(k.KeyBytes())
	}
	if k, err := curve.NewKeyPair(g.in("private key", raw), g.in("public key", pub)); err == nil {
		g.untouched("NewKeyPair")
		hold("key pair", func() string { return pairView(k) })
		g.out(k.PrivateKey().Bytes())
		g.out(k.PublicKey().Bytes())
		g.out(k.PublicKey().KeyBytes())
		pk := prekey.NewPreKey(7, k)
		hold("pre-key", func() string { return kp24(pk.KeyPair()) })
		sk := prekey.NewSigned(7, 7, k, g.in("pre-key signature", randBytes(t, 64)))
		hold("signed pre-key", func() string { return kp24(sk.KeyPair()) })
		for _, f := range []func() (*curve.KeyPair, error){pk.KeyPair, sk.KeyPair} {
			if kp, err := f(); err == nil {
				g.out(kp.PrivateKey().Bytes())
				g.out(kp.PublicKey().Bytes())
				g.out(kp.PublicKey().KeyBytes())
			}
		}
		g.untouched("NewPreKey, NewSigned")
	}
	if k, err := identity.NewKey(g.in("identity key", pub)); err == nil {
		g.untouched("identity.NewKey")
		hold("identity key", func() string { return fmt.Sprintf("%x %s", k.Bytes(), pubView(k.PublicKey())) })
		g.out(k.Bytes())
		g.out(k.PublicKey().KeyBytes())
		pk, err := curve.NewPrivateKey(g.in("private key", raw))
		if err == nil {
			kp := identity.NewKeyPair(pk, k)
			hold("identity key pair", func() string {
				return fmt.Sprintf("%s %x %x", privView(kp.PrivateKey()), kp.IdentityKey().Bytes(), kp.PublicKey().Bytes())
			})
			g.out(kp.PrivateKey().Bytes())
			g.out(kp.IdentityKey().Bytes())
			st := identity.NewInMemStore(kp, 3)
			hold("identity store", func() string {
				own := st.KeyPair(ctx)
				return fmt.Sprintf("%x %x", own.PrivateKey().Bytes(), own.IdentityKey().Bytes())
			})
			g.out(st.KeyPair(ctx).PrivateKey().Bytes())
			g.out(st.KeyPair(ctx).IdentityKey().Bytes())
			a := address.Address{Name: "bob", DeviceID: 1}
			if _, err := st.Store(ctx, a, k); err == nil {
				hold("stored identity", func() string {
					x, ok, err := st.Load(ctx, a)
					if err != nil || !ok {
						return "absent"
					}
					return fmt.Sprintf("%x", x.Bytes())
				})
				if x, ok, err := st.Load(ctx, a); err == nil && ok {
					g.out(x.Bytes())
					g.out(x.PublicKey().KeyBytes())
				}
			}
		}
	}
	if k, err := curve25519.NewPrivateKey(g.in("private key", raw)); err == nil {
		v := func() string {
			return fmt.Sprintf("%x %x", k.Bytes(), k.PublicKeyBytes())
		}
		hold("curve25519 private key", v)
		g.out(k.Bytes())
		g.out(k.PublicKeyBytes())
		g.untouched("curve25519.NewPrivateKey")
	}
	for _, n := range []int{0, 1, 31, 33} {
		curve.NewPrivateKey(g.in("short private key", randBytes(t, n)))
		curve.NewPublicKey(g.in("short public key", randBytes(t, n)))
		identity.NewKey(g.in("short identity key", randBytes(t, n)))
		g.untouched("a refused key")
	}
	if k, err := curve.GeneratePrivateKey(t.R); err == nil {
		hold("generated private key", func() string { return privView(k) })
		g.out(k.Bytes())
		g.out(k.PublicKey().Bytes())
		g.out(k.PublicKey().KeyBytes())
	}
	if k, err := curve.GenerateKeyPair(t.R); err == nil {
		hold("generated key pair", func() string { return pairView(k) })
		g.out(k.PrivateKey().Bytes())
		g.out(k.PublicKey().Bytes())
		g.out(k.PublicKey().KeyBytes())
	}
	g.untouched("generation")
	g.spoil()
	for _, h := range hs {
		t.Eval()
		t.Seen("key", h.name, len(pub))
		if v := h.view(); v != h.was {
			t.Violate("overwriting the bytes that made the %s, or that it gave out, changes it:\nbefore %s\nafter  %s", h.name, h.was, v)
		}
	}
}

func signatures25(t *T, i int) {
	g := &guard{t: t}
	raw, _ := priv16(t)
	k, err := curve.NewPrivateKey(clone(raw))
	if err != nil {
		t.Skip("%v", err)
	}
	other := must(curve.GenerateKeyPair(t.R))
	ik := must(identity.NewKey(k.PublicKey().Bytes()))
	kp := identity.NewKeyPair(k, ik)
	ok := must(identity.NewKey(other.PublicKey().Bytes()))
	g.obj("private key", func() string { return privView(k) })
	g.obj("other key pair", func() string { return pairView(other) })
	g.obj("identity key", func() string { return fmt.Sprintf("%x", ik.Bytes()) })
	pub := k.PublicKey()
	g.obj("public key", func() string { return pubView(pub) })

	m := message16(t)
	ps := g.parts("message", split(t, m))
	sig, err := k.Sign(t.R, ps...)
	g.untouched("Sign")
	if err != nil {
		sig = randBytes(t, 64)
	}
	sig = clone(sig)
	for _, s := range [][]byte{sig, flip(sig, t.Rng.IntN(64), 1<<t.Rng.IntN(8)), sig[:t.Rng.IntN(64)], append(clone(sig), 1), flip(sig, 63, 0x80), flip(sig, 63, 0x40), nil} {
		pub.VerifySignature(g.in("signature", s), ps...)
		g.untouched("VerifySignature")
		curve25519.VerifySignature(g.in("public key", pub.KeyBytes()), g.in("signature", s), ps...)
		g.untouched("curve25519.VerifySignature")
		ik.VerifyAlternateIdentity(g.in("signature", s), ok)
		g.untouched("VerifyAlternateIdentity")
		t.Seen("verify", len(s), len(ps))
	}
	if _, err := kp.SignAlternateIdentity(t.R, ok); err == nil {
		g.untouched("SignAlternateIdentity")
	}
	x, err := k.Agreement(other.PublicKey())
	g.untouched("Agreement")
	if err == nil {
		g.out(x)
	}
	y, err := other.Agreement(pub)
	g.untouched("Agreement")
	if err == nil {
		g.out(y)
	}
	odd, err := curve.NewPublicKey(append([]byte{5}, oddPoints[t.Rng.IntN(len(oddPoints))]...))
	if err == nil {
		g.obj("odd key", func() string { return pubView(odd) })
		k.Agreement(odd)
		odd.Equal(pub)
		odd.VerifySignature(g.in("signature", sig), ps...)
		g.untouched("Agreement with an odd key")
	}
	c := curve25519Key(raw)
	if c != nil {
		c.Sign(t.R, ps...)
		g.untouched("curve25519 Sign")
		c.Agreement(g.in("public key", other.PublicKey().KeyBytes()))
		g.untouched("curve25519 Agreement")
	}
	was, wasOther := privView(k), pairView(other)
	g.spoil()
	t.Eval()
	if privView(k) != was || pairView(other) != wasOther {
		t.Violate("overwriting signature inputs or a shared secret changes a key")
	}
}

func curve25519Key(raw []byte) *curve25519.PrivateKey {
	k, err := curve25519.NewPrivateKey(clone(raw))
	if err != nil {
		return nil
	}
	return k
}

// view25 is the contents of a message object.
func view25(m any) string {
	switch m := m.(type) {
	case *message.Signal:
		return fmt.Sprintf("signal %d %d %s %x %x", m.Version(), m.Counter(), pubView(m.SenderRatchetKey()), m.Message(), m.Bytes())
	case *message.PreKey:
		return fmt.Sprintf("prekey %d %d %s %d %s %x %x [%s]", m.Version(), m.RegistrationID(), optID(m.PreKeyID()), m.SignedPreKeyID(), pubView(m.BaseKey()), m.IdentityKey().Bytes(), m.Bytes(), view25(m.Message()))
	case *message.SenderKey:
		return fmt.Sprintf("senderkey %d %v %d %d %x %x", m.Version(), m.DistributionID(), m.ChainID(), m.Iteration(), m.Message(), m.Bytes())
	case *message.SenderKeyDistribution:
		return fmt.Sprintf("distribution %d %v %d %d %x %s %x", m.Version(), m.DistributionID(), m.ChainID(), m.Iteration(), m.ChainKey(), pubView(m.SigningKey()), m.Bytes())
	case *message.Plaintext:
		return fmt.Sprintf("plaintext %x %x", m.Message(), m.Bytes())
	}
	return fmt.Sprintf("%T", m)
}

func bundleView(b *prekey.Bundle) string {
	s := fmt.Sprintf("%d %d %d %s %x %x", b.RegistrationID, b.DeviceID, b.SignedPreKeyID, pubView(b.SignedPreKeyPublic), b.SignedPreKeySignature, b.IdentityKey.Bytes())
	if b.PreKeyID != nil {
		s += fmt.Sprintf(" %d %s", *b.PreKeyID, pubView(b.PreKeyPublic))
	}
	return s
}

func messages25(t *T, i int) {
	g := &guard{t: t}
	ratchetKey := must(curve.GenerateKeyPair(t.R))
	a, b := must(identity.GenerateKeyPair(t.R)), must(identity.GenerateKeyPair(t.R))
	for name, k := range map[string]identity.KeyPair{"sender identity": a, "receiver identity": b} {
		g.obj(name, func() string { return privView(k.PrivateKey()) + fmt.Sprintf(" %x", k.IdentityKey().Bytes()) })
	}
	g.obj("ratchet key", func() string { return pairView(ratchetKey) })
	var wires [][]byte
	mac := g.in("MAC key", randBytes(t, 32))
	sig, err := message.NewSignal(message.SignalConfig{
		Version: 3, MACKey: mac, SenderRatchetKey: ratchetKey.PublicKey(), PreviousCounter: num32(t), Counter: num32(t),
		Ciphertext: g.in("ciphertext", cipher15(t)), SenderIdentityKey: a.IdentityKey(), ReceiverIdentityKey: b.IdentityKey(),
	})
	g.untouched("NewSignal")
	if err == nil {
		wires = append(wires, clone(sig.Bytes()))
		s := sig.(*message.Signal)
		g.obj("signal message", func() string { return view25(s) })
		s.VerifyMAC(mac, a.IdentityKey(), b.IdentityKey())
		g.untouched("VerifyMAC")
		s.VerifyMAC(g.in("other MAC key", randBytes(t, 32)), b.IdentityKey(), a.IdentityKey())
		s.VerifyMAC(g.in("short MAC key", randBytes(t, t.Rng.IntN(32))), b.IdentityKey(), a.IdentityKey())
		g.untouched("VerifyMAC")
		id := prekey.ID(num32(t))
		cfg := message.PreKeyConfig{Version: 3, RegistrationID: num32(t), PreKeyID: &id, SignedPreKeyID: prekey.ID(num32(t)), BaseKey: ratchetKey.PublicKey(), IdentityKey: a.IdentityKey(), Message: s}
		was := id
		p, err := message.NewPreKey(cfg)
		g.untouched("NewPreKey")
		if id != was {
			t.Violate("NewPreKey changes the pre-key id of its caller")
		}
		if err == nil {
			wires = append(wires, clone(p.Bytes()))
		}
	}
	dist, _ := randDist(t)
	sk, err := message.NewSenderKey(t.R, message.SenderKeyConfig{Version: 3, DistID: dist, ChainID: num32(t), Iteration: num32(t), Ciphertext: g.in("ciphertext", cipher15(t)), SignatureKey: ratchetKey.PrivateKey()})
	g.untouched("NewSenderKey")
	if err == nil {
		wires = append(wires, clone(sk.Bytes()))
		g.obj("sender key message", func() string { return view25(sk) })
		sk.VerifySignature(ratchetKey.PublicKey())
		sk.VerifySignature(a.PublicKey())
		g.untouched("VerifySignature")
	}
	skd, err := message.NewSenderKeyDistribution(message.SenderKeyDistConfig{Version: 3, DistID: dist, ChainID: num32(t), Iteration: num32(t), ChainKey: g.in("chain key", randBytes(t, 32)), SigningKey: ratchetKey.PublicKey()})
	g.untouched("NewSenderKeyDistribution")
	if err == nil {
		wires = append(wires, clone(skd.Bytes()))
	}
	wires = append(wires, append(append([]byte{0xc0}, randBytes(t, t.Rng.IntN(20))...), 0x80))
	for n := 0; n < 12; n++ {
		w := wires[t.Rng.IntN(len(wires))]
		if n >= len(wires) {
			w = mutBytes(t.Rng, clone(w), wires)
		} else {
			w = wires[n]
		}
		in := g.in("message", w)
		kinds := []func() (any, error){
			func() (any, error) { return message.NewSignalFromBytes(in) },
			func() (any, error) { return message.NewPreKeyFromBytes(in) },
			func() (any, error) { return message.NewSenderKeyFromBytes(in) },
			func() (any, error) { return message.NewSenderKeyDistributionFromBytes(in) },
			func() (any, error) { return message.NewPlaintextFromBytes(in) },
		}
		for k, parse := range kinds {
			m, err := parse()
			g.untouched("parsing")
			t.Seen("parse", k, err == nil, len(in))
			if err != nil || nothing(m) {
				continue
			}
			v := view25(m)
			if v != view25(m) {
				t.Violate("reading a message changes it: %s", clip(v))
			}
			g.untouched("reading a message")
			if s, ok := m.(*message.Signal); ok {
				s.VerifyMAC(g.in("MAC key", randBytes(t, 32)), a.IdentityKey(), b.IdentityKey())
			}
			if s, ok := m.(*message.SenderKey); ok {
				s.VerifySignature(ratchetKey.PublicKey())
			}
			g.untouched("verifying a parsed message")
			if x := view25(m); x != v {
				t.Violate("verification changes the message from\n%s\nto\n%s", clip(v), clip(x))
			}
		}
	}
	was := pairView(ratchetKey) + privView(a.PrivateKey()) + privView(b.PrivateKey())
	if skd != nil {
		g.out(skd.SigningKey().Bytes())
	}
	g.spoil()
	t.Eval()
	if pairView(ratchetKey)+privView(a.PrivateKey())+privView(b.PrivateKey()) != was {
		t.Violate("overwriting message bytes changes a key passed in")
	}
}

// outsOf collects the key bytes a message gives out.
func (g *guard) outsOf(m any) {
	switch m := m.(type) {
	case *message.Signal:
		g.out(m.SenderRatchetKey().Bytes())
		g.out(m.SenderRatchetKey().KeyBytes())
		g.out(m.Message())
		g.out(m.Bytes())
	case *message.PreKey:
		g.out(m.BaseKey().Bytes())
		g.out(m.BaseKey().KeyBytes())
		g.out(m.IdentityKey().Bytes())
		g.out(m.IdentityKey().PublicKey().KeyBytes())
		g.outsOf(m.Message())
		g.out(m.Bytes())
	case *message.SenderKey:
		g.out(m.Message())
		g.out(m.Bytes())
	case *message.SenderKeyDistribution:
		g.out(m.ChainKey())
		g.out(m.SigningKey().Bytes())
		g.out(m.SigningKey().KeyBytes())
		g.out(m.Bytes())
	}
}

func sessions25(t *T, i int) {
	a, b := newParty(t, "alice", 1), newParty(t, "bob", 2)
	ps := []*Party{a, b}
	a.know(b.Addr)
	b.know(a.Addr)
	type flying struct {
		to, typ int
		wire    []byte
		pt      []byte
	}
	var fly []flying
	has := [2]bool{}
	// settle overwrites everything the caller owns and compares what both parties store.
	settle := func(g *guard, what string) {
		before := [2][]string{a.snapshot(nil), b.snapshot(nil)}
		g.spoil()
		for k, p := range ps {
			t.Eval()
			t.Count("stored states compared after overwriting", 1)
			if d := diffSnap(before[k], p.snapshot(nil)); d != "" {
				t.Violate("%s: overwriting its inputs and outputs afterwards changes what %v stores:\n%s", what, p.Addr, d)
			}
		}
	}
	for n := 0; n < 30; n++ {
		k := t.Rng.IntN(2)
		from, to := ps[k], ps[1-k]
		g := &guard{t: t}
		for _, p := range ps {
			g.obj(fmt.Sprintf("identity key pair of %v", p.Addr), func() string {
				return privView(p.KP.PrivateKey()) + fmt.Sprintf("%x", p.KP.IdentityKey().Bytes())
			})
		}
		switch {
		case !has[0] && !has[1] || t.Rng.IntN(12) == 0:
			pub := to.Bundle(t.Rng.IntN(2) == 0)
			// The same bundle, made of keys and bytes of its own.
			bun := *pub
			bun.SignedPreKeySignature = g.in("bundle signature", pub.SignedPreKeySignature)
			bun.SignedPreKeyPublic = must(curve.NewPublicKey(g.in("bundle signed pre-key", pub.SignedPreKeyPublic.Bytes())))
			bun.IdentityKey = must(identity.NewKey(g.in("bundle identity", pub.IdentityKey.Bytes())))
			var id prekey.ID
			if pub.PreKeyID != nil {
				id = *pub.PreKeyID
				bun.PreKeyID = &id
				bun.PreKeyPublic = must(curve.NewPublicKey(g.in("bundle one-time pre-key", pub.PreKeyPublic.Bytes())))
			}
			forged := t.Rng.IntN(4) == 0
			if forged {
				bun.SignedPreKeySignature = g.in("forged signature", flip(pub.SignedPreKeySignature, t.Rng.IntN(64), 1))
			}
			g.obj("bundle", func() string { return bundleView(&bun) })
			err := from.Session(to.Addr).ProcessPreKeyBundle(ctx, t.R, &bun)
			t.Logf("%v processes a bundle (forged %v) -> %v", from.Addr, forged, err)
			g.untouched("ProcessPreKeyBundle")
			g.out(bun.SignedPreKeyPublic.Bytes())
			g.out(bun.SignedPreKeyPublic.KeyBytes())
			g.out(bun.IdentityKey.Bytes())
			if bun.PreKeyPublic != nil {
				g.out(bun.PreKeyPublic.Bytes())
			}
			has[k] = has[k] || err == nil
			settle(g, "ProcessPreKeyBundle")
			id ^= 0xffff // nor does the session hold on to the id
			if err == nil && pub.PreKeyID != nil {
				m, err := from.Session(to.Addr).EncryptMessage(ctx, []byte("id"))
				if err == nil && m.Type() == message.PreKeyType {
					pm, err := ref.ParsePreKey(m.Bytes())
					if err == nil && (pm.PreKeyID == nil || *pm.PreKeyID != uint32(*pub.PreKeyID)) {
						t.Violate("overwriting the id of a bundle changes the session made from it")
					}
				}
			}
			t.Seen("bundle", forged, err == nil, has[k])
		case has[k] && t.Rng.IntN(2) == 0:
			pt := plaintextOf(t.Rng, t.R)
			m, err := from.Session(to.Addr).EncryptMessage(ctx, g.in("plaintext", pt))
			t.Logf("%v sends %d bytes -> %v", from.Addr, len(pt), err)
			g.untouched("EncryptMessage")
			if err != nil {
				continue
			}
			fly = append(fly, flying{1 - k, int(m.Type()), clone(m.Bytes()), pt})
			g.outsOf(m)
			settle(g, "EncryptMessage")
			t.Seen("encrypt", len(pt), int(m.Type()))
		case len(fly) > 0:
			f := fly[t.Rng.IntN(len(fly))]
			w := f.wire
			if t.Rng.IntN(5) == 0 {
				w = flip(w, t.Rng.IntN(len(w)), 1<<t.Rng.IntN(8))
			}
			in := g.in("message bytes", w)
			var m message.Ciphertext
			var err error
			if message.CiphertextType(f.typ) == message.PreKeyType {
				m, err = message.NewPreKeyFromBytes(in)
			} else {
				m, err = message.NewSignalFromBytes(in)
			}
			g.untouched("parsing")
			if err != nil {
				continue
			}
			g.obj("message", func() string { return view25(m) })
			p := ps[f.to]
			pt, err := p.Session(ps[1-f.to].Addr).DecryptMessage(ctx, t.R, m)
			t.Logf("%v decrypts -> %x, %v", p.Addr, clipB(pt), err)
			g.untouched("DecryptMessage")
			g.out(pt)
			has[f.to] = has[f.to] || err == nil
			g.outsOf(m)
			settle(g, "DecryptMessage")
			t.Seen("decrypt", err == nil, f.typ, len(f.pt))
		}
	}
	// The parties, whose own keys were read and overwritten throughout, still understand each other.
	for _, p := range ps {
		g := &guard{t: t}
		own := p.St.in.IdentityStore().KeyPair(ctx)
		g.out(own.PrivateKey().Bytes())
		g.out(own.IdentityKey().Bytes())
		g.out(own.PublicKey().KeyBytes())
		for id := range p.PreKeys {
			if x, ok, err := p.St.in.PreKeyStore().Load(ctx, id); ok && err == nil {
				if kp, err := x.KeyPair(); err == nil {
					g.out(kp.PrivateKey().Bytes())
					g.out(kp.PublicKey().Bytes())
				}
			}
		}
		settle(g, "reading keys")
	}
}

func groups25(t *T, i int) {
	s, r := newParty(t, "carol", 1), newParty(t, "bob", 2)
	d := newDist(t)
	grp := []groupKey{{s.Addr, d}}
	settle := func(g *guard, what string) {
		before := [2][]string{s.snapshot(grp), r.snapshot(grp)}
		g.spoil()
		for k, p := range []*Party{s, r} {
			t.Eval()
			t.Count("stored states compared after overwriting", 1)
			if d := diffSnap(before[k], p.snapshot(grp)); d != "" {
				t.Violate("%s: overwriting its inputs and outputs afterwards changes what %v stores:\n%s", what, p.Addr, d)
			}
		}
	}
	var sent [][]byte
	for n := 0; n < 25; n++ {
		g := &guard{t: t}
		switch {
		case n == 0 || t.Rng.IntN(6) == 0:
			m, err := s.Group(s.Addr, d).NewSenderKeyDistribution(ctx, t.R)
			if err != nil {
				t.Skip("%v", err)
			}
			w := clone(m.Bytes())
			g.outsOf(m)
			settle(g, "NewSenderKeyDistribution")
			g = &guard{t: t}
			x, err := message.NewSenderKeyDistributionFromBytes(g.in("distribution message", w))
			g.untouched("parsing")
			if err != nil {
				t.Skip("%v", err)
			}
			g.obj("distribution message", func() string { return view25(x) })
			err = r.Group(s.Addr, d).ProcessSenderKeyDistribution(ctx, x)
			t.Logf("process -> %v", err)
			g.untouched("ProcessSenderKeyDistribution")
			g.outsOf(x)
			settle(g, "ProcessSenderKeyDistribution")
			t.Seen("distribution", n)
		case t.Rng.IntN(2) == 0 || len(sent) == 0:
			pt := plaintextOf(t.Rng, t.R)
			m, err := s.Group(s.Addr, d).EncryptMessage(ctx, t.R, g.in("plaintext", pt))
			g.untouched("group EncryptMessage")
			t.Logf("send %d bytes -> %v", len(pt), err)
			if err != nil {
				t.Skip("%v", err)
			}
			sent = append(sent, clone(m.Bytes()))
			g.outsOf(m)
			settle(g, "group EncryptMessage")
			t.Seen("group encrypt", len(pt))
		default:
			w := sent[t.Rng.IntN(len(sent))]
			if t.Rng.IntN(5) == 0 {
				w = flip(w, t.Rng.IntN(len(w)), 1<<t.Rng.IntN(8))
			}
			x, err := message.NewSenderKeyFromBytes(g.in("group message", w))
			g.untouched("parsing")
			if err != nil {
				continue
			}
			g.obj("group message", func() string { return view25(x) })
			pt, err := r.Group(s.Addr, d).DecryptMessage(ctx, x)
			t.Logf("decrypt -> %x, %v", clipB(pt), err)
			g.untouched("group DecryptMessage")
			g.out(pt)
			g.outsOf(x)
			settle(g, "group DecryptMessage")
			t.Seen("group decrypt", err == nil, len(pt))
		}
	}
	// A state made from the caller's bytes does not hold on to them.
	g := &guard{t: t}
	kp := must(curve.GenerateKeyPair(t.R))
	ck := randBytes(t, 32)
	st := session.NewGroupState(session.GroupStateConfig{MessageVersion: 3, ChainID: 9, Iteration: 4, ChainKey: g.in("chain key", ck), SignatureKey: kp.PublicKey(), SignaturePrivateKey: kp.PrivateKey()})
	g.untouched("NewGroupState")
	rec := session.NewGroupRecord()
	if err := rec.AddState(st); err != nil {
		t.Skip("%v", err)
	}
	if err := r.St.in.GroupStore().Store(ctx, s.Addr, d, rec); err != nil {
		t.Skip("%v", err)
	}
	g.out(kp.PublicKey().Bytes())
	g.out(kp.PrivateKey().Bytes())
	was := gview24(rec, []uint32{9})
	g.spoil()
	if v := gview24(rec, []uint32{9}); v != was {
		t.Violate("overwriting the chain key given to NewGroupState changes the state:\nbefore %s\nafter  %s", was, v)
	}
	if x, ok, err := r.St.in.GroupStore().Load(ctx, s.Addr, d); !ok || err != nil || gview24(x, []uint32{9}) != was {
		t.Violate("overwriting the chain key given to NewGroupState changes the stored state")
	}
	// Nor does a session state parsed from the caller's bytes.
	g = &guard{t: t}
	b := session.NewState(randStruct(t)).Bytes()
	sr, err := session.NewRecordBytes(g.in("session bytes", b))
	g.untouched("NewRecordBytes")
	if err != nil {
		t.Skip("%v", err)
	}
	g.out(sr.State().Bytes())
	sr.HasSessionState(3, g.in("base key", sr.State().AliceBaseKey()))
	g.untouched("HasSessionState")
	v := view24(sr)
	g.spoil()
	if view24(sr) != v {
		t.Violate("overwriting the bytes a session was parsed from, or was serialized to, changes it")
	}
	t.Eval()
}

func fingerprints25(t *T, i int) {
	g := &guard{t: t}
	a, b := side(t), side(t)
	ia, ib := must(identity.NewKey(a.key.Bytes())), must(identity.NewKey(b.key.Bytes()))
	g.obj("local identity key", func() string { return fmt.Sprintf("%x", ia.Bytes()) })
	g.obj("remote identity key", func() string { return fmt.Sprintf("%x", ib.Bytes()) })
	n := uint32(2 + t.Rng.IntN(10))
	if t.Rng.IntN(5) == 0 {
		n = []uint32{0, 1, 1_000_001, 1<<32 - 1}[t.Rng.IntN(4)]
	}
	f, err := fingerprint.New(2, n, g.in("local identifier", a.id), ia, g.in("remote identifier", b.id), ib)
	g.untouched("fingerprint.New")
	t.Seen("fingerprint", n, len(a.id), len(b.id), err == nil)
	if err == nil {
		if v, ok := findField(reflect.ValueOf(f), reflect.TypeOf((*fingerprint.Scannable)(nil)), 0); ok {
			s := v.Interface().(*fingerprint.Scannable)
			code, err := s.Bytes()
			if err == nil {
				was := dump(f)
				for _, c := range [][]byte{code, flip(code, t.Rng.IntN(len(code)), 1<<t.Rng.IntN(8)), code[:t.Rng.IntN(len(code))], randBytes(t, 20), nil} {
					s.Compare(g.in("scanned code", c))
					g.untouched("Compare")
					if dump(f) != was {
						t.Violate("Compare changes the fingerprint")
					}
				}
			}
		}
	}
	for _, k := range []int{0, 29, 30, 31, 32, 33, 64} {
		x, y := g.in("local fingerprint", randBytes(t, k)), g.in("remote fingerprint", randBytes(t, k))
		fingerprint.NewScannable(2, x, y)
		g.untouched("NewScannable")
		if d, err := fingerprint.NewDisplayable(x, y); err == nil {
			_ = fmt.Sprint(d)
		}
		g.untouched("NewDisplayable")
	}
	distribution.ParseBytes(g.in("distribution id", randBytes(t, 16)))
	distribution.ParseBytes(g.in("distribution id", []byte("6ba7b810-9dad-11d1-80b4-00c04fd430c8")))
	g.untouched("ParseBytes")
	va, vb := fmt.Sprintf("%x", ia.Bytes()), fmt.Sprintf("%x", ib.Bytes())
	g.spoil()
	t.Eval()
	if fmt.Sprintf("%x", ia.Bytes()) != va || fmt.Sprintf("%x", ib.Bytes()) != vb {
		t.Violate("overwriting fingerprint inputs changes an identity key")
	}
}

func symmetric25(t *T, i int) {
	g := &guard{t: t}
	key, iv := g.in("key", randBytes(t, 32)), g.in("iv", randBytes(t, 16))
	pt := plaintextOf(t.Rng, t.R)
	if i%6 == 0 {
		pt = randBytes(t, []int{255, 256, 1000, 1023, 1024, 4095, 4096, 5000, 8192, 65536, 70_001}[t.Rng.IntN(11)])
	}
	ct, err := aes.CBCEncrypt(key, iv, g.in("plaintext", pt))
	g.untouched("CBCEncrypt")
	if err == nil {
		in := g.in("ciphertext", ct)
		aes.CBCDecrypt(key, iv, in)
		g.untouched("CBCDecrypt")
		aes.CBCDecrypt(g.in("key", randBytes(t, 32)), iv, in)
		aes.CBCDecrypt(key, iv, in[:t.Rng.IntN(len(in)+1)])
		aes.CBCDecrypt(key, iv, g.in("altered", flip(ct, t.Rng.IntN(len(ct)), 1)))
		g.untouched("failing CBCDecrypt")
		t.Seen("cbc", len(pt))
	}
	aes.CBCEncrypt(g.in("short key", randBytes(t, t.Rng.IntN(32))), iv, g.in("plaintext", pt))
	aes.CBCEncrypt(key, g.in("short iv", randBytes(t, t.Rng.IntN(16))), g.in("plaintext", pt))
	g.untouched("failing CBCEncrypt")
	// One array for everything: plaintext, key and IV next to each other.
	all := g.in("joint array", randBytes(t, 32+16+len(pt)+16))
	aes.CBCEncrypt(all[:32], all[32:48], all[48:48+len(pt)])
	g.untouched("CBCEncrypt of a joint array")
	aes.CBCDecrypt(all[:32], all[32:48], all[48:48+len(pt)/16*16])
	g.untouched("CBCDecrypt of a joint array")

	ck := g.in("chain key", randBytes(t, 32))
	if c, err := ratchet.NewChainKey(ck, num32(t)); err == nil {
		c.Next()
		c.MessageKeys()
		g.untouched("ratchet chain key")
	}
	if rk, err := ratchet.NewRootKey(g.in("root key", randBytes(t, 32))); err == nil {
		x, y := must(curve.GenerateKeyPair(t.R)), must(curve.GenerateKeyPair(t.R))
		g.obj("ratchet key", func() string { return pairView(x) + pairView(y) })
		rk.CreateChain(x.PrivateKey(), y.PublicKey())
		g.untouched("CreateChain")
	}
	ratchet.DeriveKeys(g.in("secret", randBytes(t, 32*(1+t.Rng.IntN(5)))))
	ratchet.DeriveMessageKeys(g.in("key material", randBytes(t, 32)), 1)
	ratchet.NewMessageKeys(g.in("cipher key", randBytes(t, 32)), g.in("mac key", randBytes(t, 32)), g.in("iv", randBytes(t, 16)), 3)
	sc := senderkey.NewChainKey(g.in("sender chain key", randBytes(t, 32)), num32(t))
	sc.Next()
	sc.MessageKey()
	senderkey.DeriveMessageKey(g.in("sender message seed", randBytes(t, 32)), 2)
	g.untouched("key derivation")
	t.Eval()
}
