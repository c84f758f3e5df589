package main

import (
	"errors"
	"fmt"
	"slices"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/perrors"

	"verif/harness/ref"
)

// edgeStream is one chain from a reference sender to a library receiver.
type edgeStream struct {
	enc  func(pt []byte) (present func(form int) ([]byte, error))
	skip func(n int)
	// what the check has to say about a first presentation, and about another one
	take  func(what string, want, pt []byte, err error)
	again func(what string, pt []byte, err error)
}

var edgeJumps = []int{1, 2, 1999, 2000, 2001, 2600, 5001, 12_000, 25_000}

// edges fills the window of skipped messages by a single jump of an exact length, then has the messages at its edges
// arrive - oldest first, newest first, or in random order - and presents each of them, and the message that jumped,
// again at once, after each other arrival, and at the end.
func (s *edgeStream) edges(t *T, i int) {
	jump, order := edgeJumps[i%len(edgeJumps)], (i/len(edgeJumps))%3
	type slot struct {
		what string
		pt   []byte
		open func(form int) ([]byte, error)
		done bool
	}
	mk := func(f string, a ...any) *slot {
		x := &slot{what: fmt.Sprintf(f, a...), pt: plaintextOf(t.Rng, t.R)}
		x.open = s.enc(x.pt)
		return x
	}
	take := func(x *slot) {
		pt, err := x.open(0)
		t.Eval()
		s.take(x.what, x.pt, pt, err)
		x.done = true
	}
	again := func(x *slot, when string) {
		form := t.Rng.IntN(3)
		pt, err := x.open(form)
		t.Eval()
		s.again(fmt.Sprintf("%s, presented again %s (form %d)", x.what, when, form), pt, err)
	}
	first := mk("the first message")
	take(first)
	again(first, "at once")
	lo := max(0, jump-modelMaxSkipped)
	made := map[int]bool{lo: true, lo + 1: true, (lo + jump) / 2: true, jump - 2: true, jump - 1: true}
	for k := 0; k < 4; k++ {
		made[lo+t.Rng.IntN(jump-lo)] = true
	}
	var held []*slot
	gap := 0
	for k := 0; k < jump; k++ {
		if !made[k] {
			gap++
			continue
		}
		s.skip(gap)
		gap = 0
		held = append(held, mk("skipped message %d of %d", k, jump))
	}
	s.skip(gap)
	far := mk("the message after %d skipped ones", jump)
	take(far)
	again(far, "at once")
	switch order {
	case 1:
		slices.Reverse(held)
	case 2:
		t.Rng.Shuffle(len(held), func(a, b int) { held[a], held[b] = held[b], held[a] })
	}
	for k, x := range held {
		take(x)
		again(x, "at once")
		again(far, "after a late arrival")
		again(held[t.Rng.IntN(k+1)], "later")
	}
	last := mk("the message after that")
	take(last)
	for _, x := range append(held, first, far, last) {
		again(x, "at the end")
	}
	t.Seen("edges", jump, order)
	t.Count("messages at the edges of the window", int64(len(held)))
}

// far moves one chain on to beyond 2^top. Around each power of two messages are skipped and stay outstanding while
// every message read so far is presented again - some differ from outstanding ones by just that power - and arrive then.
func (s *edgeStream) far(t *T, top int) {
	type slot struct {
		at   int
		pt   []byte
		open func(form int) ([]byte, error)
	}
	at := 0
	mk := func() *slot {
		x := &slot{at: at, pt: plaintextOf(t.Rng, t.R)}
		x.open = s.enc(x.pt)
		at++
		return x
	}
	var read []*slot
	take := func(x *slot) {
		pt, err := x.open(0)
		t.Eval()
		s.take(fmt.Sprintf("message %d, with the chain at %d,", x.at, at), x.pt, pt, err)
		read = append(read, x)
	}
	moveTo := func(n int) {
		for n-at > 20_000 {
			s.skip(20_000)
			at += 20_000
			take(mk())
		}
		s.skip(n - at)
		at = n
	}
	for at < 40 {
		take(mk())
	}
	for k := 6; k <= top; k++ {
		d := 1 << k
		moveTo(d - 8)
		var out []*slot
		for at < d+12 {
			out = append(out, mk())
		}
		moveTo(d + 24)
		take(mk())
		for _, x := range read {
			pt, err := x.open(0)
			t.Eval()
			s.again(fmt.Sprintf("message %d, presented again with the chain at %d,", x.at, at), pt, err)
		}
		t.Rng.Shuffle(len(out), func(a, b int) { out[a], out[b] = out[b], out[a] })
		for _, x := range out {
			take(x)
		}
		t.Seen("far", k)
		t.Count("outstanding messages a power of two from read ones", int64(len(out)))
	}
	t.Count("messages in the longest chain", int64(at))
}

// gaps alternates losses and undisturbed stretches of various lengths in one chain; what was lost arrives much later, and
// what was read is presented again in between.
func (s *edgeStream) gaps(t *T) {
	type slot struct {
		at   int
		pt   []byte
		open func(form int) ([]byte, error)
	}
	at := 0
	mk := func() *slot {
		x := &slot{at: at, pt: plaintextOf(t.Rng, t.R)}
		x.open = s.enc(x.pt)
		at++
		return x
	}
	var read, out []*slot
	take := func(x *slot) {
		pt, err := x.open(0)
		t.Eval()
		s.take(fmt.Sprintf("message %d, with the chain at %d,", x.at, at), x.pt, pt, err)
		read = append(read, x)
	}
	late := func(n int) {
		for ; n > 0 && len(out) > 0; n-- {
			j := []int{0, len(out) - 1, t.Rng.IntN(len(out))}[t.Rng.IntN(3)]
			take(out[j])
			out = append(out[:j:j], out[j+1:]...)
		}
	}
	again := func(n int) {
		for ; n > 0; n-- {
			x := read[t.Rng.IntN(len(read))]
			pt, err := x.open(t.Rng.IntN(3))
			t.Eval()
			s.again(fmt.Sprintf("message %d, presented again with the chain at %d,", x.at, at), pt, err)
		}
	}
	take(mk())
	rounds := 3 + t.Rng.IntN(6)
	for r := 0; r < rounds; r++ {
		for k := []int{1, 2, 5, 17, 33, 70, 150}[t.Rng.IntN(7)]; k > 0; k-- {
			out = append(out, mk())
		}
		n := []int{1, 2, 9, 40, 65, 130, 260, 520}[t.Rng.IntN(8)]
		for k := n; k > 0; k-- {
			take(mk())
			if t.Rng.IntN(60) == 0 {
				late(1)
			}
		}
		again(2)
		late(t.Rng.IntN(4))
		t.Seen("gaps", bucket(len(out)), bucket(n))
	}
	take(mk())
	t.Count("lost messages that arrive after later gaps", int64(len(out)))
	late(len(out))
	again(20)
}

// oneStream sets up a one-to-one session with a reference sender; later selects whether the chain is one after a
// ratchet step.
func oneStream(t *T, later bool) *edgeStream {
	r := newRefPeer01(t)
	present := func(typ int, w []byte) func(int) ([]byte, error) {
		return func(form int) ([]byte, error) {
			if form == 1 {
				return r.p.receive(r.peer, message.WhisperType, inner(message.CiphertextType(typ), w))
			}
			return r.p.receive(r.peer, message.CiphertextType(typ), w)
		}
	}
	if later {
		typ, w := r.rs.Encrypt([]byte("start"))
		_, err := present(typ, w)(0)
		ok02(t, err)
		ct, err := r.p.Session(r.peer).EncryptMessage(ctx, []byte("turn"))
		ok02(t, err)
		_, err = r.rs.Decrypt(inner(ct.Type(), ct.Bytes()))
		ok02(t, err)
	}
	return &edgeStream{
		enc: func(pt []byte) func(int) ([]byte, error) {
			typ, w := r.rs.Encrypt(pt)
			return present(typ, w)
		},
		skip: r.rs.Skip,
	}
}

// groupStream is the same for a group.
func groupStream(t *T) *edgeStream {
	p := newParty(t, "bob", 1)
	from := address.Address{Name: "alice", DeviceID: 1}
	dist := newDist(t)
	g := &ref.GroupSender{Dist: []byte(dist.String()), ChainID: t.Rng.Uint32(), CK: randBytes(t, 32), Sign: ref.GenKP(t.R)}
	skd := g.SKD()
	process := func() error {
		m, err := message.NewSenderKeyDistributionFromBytes(clone(skd))
		if err != nil {
			return err
		}
		return p.Group(from, distribution.ID{}).ProcessSenderKeyDistribution(ctx, m)
	}
	ok02(t, process())
	return &edgeStream{
		enc: func(pt []byte) func(int) ([]byte, error) {
			w := g.Encrypt(pt, randBytes(t, 64))
			return func(form int) ([]byte, error) {
				switch form {
				case 1: // the distribution message arrives once more
					ok02(t, process())
				case 2: // and a later one
					m, err := message.NewSenderKeyDistributionFromBytes(g.SKD())
					ok02(t, err)
					ok02(t, p.Group(from, distribution.ID{}).ProcessSenderKeyDistribution(ctx, m))
				}
				m, err := message.NewSenderKeyFromBytes(clone(w))
				if err != nil {
					return nil, err
				}
				return p.Group(from, dist).DecryptMessage(ctx, m)
			}
		},
		skip: func(n int) {
			for ; n > 0; n-- {
				g.CK = ref.NextChain(g.CK)
				g.N++
			}
		},
	}
}

// judge sets what counts: deliveries, or repetitions.
func (s *edgeStream) judge(t *T, deliveries bool) *edgeStream {
	s.take = func(what string, want, pt []byte, err error) {
		if err == nil && string(pt) == string(want) {
			return
		}
		if deliveries {
			t.Violate("%s gives %s, %v; it was %s", what, hexs(pt), err, hexs(want))
		}
		t.Skip("%s gives %v", what, err)
	}
	s.again = func(what string, pt []byte, err error) {
		if deliveries || err != nil && pt == nil && errors.Is(err, perrors.ErrDuplicateMessage) {
			return
		}
		if err == nil || pt != nil {
			t.Violate("%s, yields %s, %v", what, hexs(pt), err)
		}
		t.Violate("%s, gives %q instead of the duplicate-message error", what, err)
	}
	return s
}
