seed('C01-archive-drops-newest', 'C01',
 'more than 40 re-establishments of a session, then a message that was delayed since one of the last of them',
 'once the archive is full, the newest archived session is dropped instead of the oldest, so delayed messages within the limits are refused',
 [('session/record.go', 'r.previousSessions = r.previousSessions[1:]\n\t}\n\n\tr.previousSessions = append(r.previousSessions, r.currentSession.Bytes())',
   'r.previousSessions = r.previousSessions[:maxArchivedStates-1]\n\t}\n\n\tr.previousSessions = append(r.previousSessions, r.currentSession.Bytes())')],
'''package main

import "fmt"

func main() {
	a, b := newParty("alice"), newParty("bob")
	var held [][]byte
	for i := 0; i < 45; i++ {
		a.connect(b, true)
		b.gets(a, a.send(b, "first"), "first")
		held = append(held, a.send(b, fmt.Sprint("held ", i)))
	}
	// The last 41 sessions are the current one and the 40 archived ones.
	for i := 44; i >= 5; i-- {
		b.gets(a, held[i], fmt.Sprint("held ", i))
	}
}
''')

seed('C01-promote-reorders', 'C01',
 'a delayed message of an archived session followed by enough re-establishments to fill the archive',
 'taking a session out of the archive moves the newest archived session into the place of an old one, which makes it the next to be evicted while far older ones stay',
 [('session/record.go', '''	r.previousSessions[idx] = nil
	r.previousSessions = append(r.previousSessions[:idx], r.previousSessions[idx+1:]...)
''', '''	last := len(r.previousSessions) - 1
	r.previousSessions[idx] = r.previousSessions[last]
	r.previousSessions[last] = nil
	r.previousSessions = r.previousSessions[:last]
''')],
'''package main

import "fmt"

func main() {
	a, b := newParty("alice"), newParty("bob")
	var held [][]byte
	var extra [][]byte
	open := func(i int) {
		a.connect(b, true)
		b.gets(a, a.send(b, "first"), "first")
		held = append(held, a.send(b, fmt.Sprint("held ", i)))
		extra = append(extra, a.send(b, "extra"))
	}
	for i := 0; i < 10; i++ {
		open(i)
	}
	// Session 0 leaves the archive; session 9 enters it.
	b.gets(a, held[0], "held 0")
	for i := 10; i < 42; i++ {
		open(i)
	}
	// Archived, newest first: 40..10 (31), 0, 9, 8, 7, 6, 5, 4, 3, 2 - the oldest is 1, already evicted or not.
	b.gets(a, extra[8], "extra")
}
''')

seed('C01-skipped-drops-newest', 'C01',
 'more than 2,000 skipped messages in one chain, the latest of which arrive afterwards',
 'when the limit of skipped keys is reached, the most recently skipped ones are dropped',
 [('session/state.go', '''		chain.GetMessageKeys()[0] = nil
		chain.MessageKeys = chain.GetMessageKeys()[1:]
''', '''		chain.GetMessageKeys()[maxMessageKeys] = nil
		chain.MessageKeys = chain.GetMessageKeys()[:maxMessageKeys]
''')],
'''package main

func main() {
	a, b := newParty("alice"), newParty("bob")
	a.connect(b, true)
	talk(a, b)
	var last, w []byte
	for i := 0; i < 2102; i++ {
		last, w = w, a.send(b, "m")
	}
	b.gets(a, w, "m")
	b.gets(a, last, "m")
}
''')

seed('C01-current-not-copied', 'C01',
 'a message of an older session in a new ratchet key arrives while a newer session is current, and then a message of the newer one',
 'the current session is tried in place, so a message that belongs to an older session leaves a bogus ratchet step in the newer session when that is archived',
 [('session/cipher.go', 'currentState := record.State().Clone()', 'currentState := record.State()')],
'''package main

func main() {
	a, b := newParty("alice"), newParty("bob")
	a.connect(b, true)
	talk(a, b)
	b.gets(a, a.send(b, "1"), "1")
	old := a.send(b, "old")
	// b learns a new session from a, and replies are exchanged in it.
	a.connect(b, true)
	talk(a, b)
	talk(a, b)
	late := a.send(b, "late")
	// The old session's message is decrypted with the archived session.
	b.gets(a, old, "old")
	b.gets(a, late, "late")
	talk(a, b)
}
''')

seed('C02-last-skipped-key-kept', 'C02',
 'a delayed message which is the only outstanding one of its chain is presented twice',
 'the last remaining skipped key of a chain is not removed when it is used, so its message is accepted again',
 [('session/state.go', '''	chain.MessageKeys = filtered

	return''', '''	if len(filtered) > 0 {
		chain.MessageKeys = filtered
	}

	return''')],
'''package main

func main() {
	a, b := newParty("alice"), newParty("bob")
	a.connect(b, true)
	talk(a, b)
	m1, m2 := a.send(b, "1"), a.send(b, "2")
	b.gets(a, m2, "2")
	b.gets(a, m1, "1")
	if pt, err := b.recv(a, m1); err == nil {
		fail("message accepted twice: %q", pt)
	}
}
''')

seed('C02-oldest-archived-not-recognised', 'C02',
 'a handshake without a one-time pre-key whose session has become the oldest archived one is presented again',
 'the search for a known base key skips the oldest archived session, so its handshake sets up a second session and the message is accepted twice',
 [('session/record.go', 'for _, previous := range previousStates {\n\t\tif version', 'for i := len(previousStates) - 1; i > 0; i-- {\n\t\tprevious := previousStates[i]\n\t\tif version')],
'''package main

func main() {
	a, b := newParty("alice"), newParty("bob")
	a.connect(b, false)
	first := a.send(b, "first")
	b.gets(a, first, "first")
	for i := 0; i < 3; i++ {
		a.connect(b, true)
		b.gets(a, a.send(b, "x"), "x")
	}
	if pt, err := b.recv(a, first); err == nil {
		fail("handshake message accepted twice: %q", pt)
	}
}
''')

seed('C03-mac-compare-skips-byte', 'C03',
 'a message altered in the last byte of its tag',
 'one byte of the authentication tag is not compared',
 [('message/signal.go', 'equal := hmac.Equal(ourMAC, theirMAC)', 'equal := hmac.Equal(ourMAC[:macSize-1], theirMAC[:macSize-1])')],
'''package main

func main() {
	a, b := newParty("alice"), newParty("bob")
	a.connect(b, true)
	talk(a, b)
	w := a.send(b, "hi")
	for i := 1; i <= 8; i++ {
		x := append([]byte(nil), w...)
		x[len(x)-i] ^= 0x10
		if pt, err := b.recv(a, x); err == nil {
			fail("altered message decrypts to %q", pt)
		}
	}
}
''')

seed('C03-mac-ignores-roles', 'C03',
 'a tag that is verified with the identities of sender and receiver exchanged',
 'the tag is computed over the two identity keys in the order of their bytes, so it verifies with the roles exchanged',
 [('message/mac.go', '''	hash.Write(senderIdentityKey.Bytes())
	hash.Write(receiverIdentityKey.Bytes())
''', '''	first, second := senderIdentityKey.Bytes(), receiverIdentityKey.Bytes()
	if bytes.Compare(first, second) > 0 {
		first, second = second, first
	}
	hash.Write(first)
	hash.Write(second)
'''), ('message/mac.go', 'import (\n', 'import (\n\t"bytes"\n')],
'''package main

import "github.com/RTann/libsignal-go/protocol/message"

func main() {
	a, b := newParty("alice"), newParty("bob")
	key := make([]byte, 32)
	m := must(message.NewSignal(message.SignalConfig{Version: 3, MACKey: key, SenderRatchetKey: a.signed.PublicKey(), Ciphertext: []byte("0123456789abcdef"), SenderIdentityKey: a.id.IdentityKey(), ReceiverIdentityKey: b.id.IdentityKey()})).(*message.Signal)
	if ok := must(m.VerifyMAC(key, a.id.IdentityKey(), b.id.IdentityKey())); !ok {
		fail("tag does not verify")
	}
	if ok := must(m.VerifyMAC(key, b.id.IdentityKey(), a.id.IdentityKey())); ok {
		fail("tag verifies with the roles exchanged")
	}
}
''')

seed('C04-store-before-trust', 'C04',
 'encryption for an identity that has become untrusted, followed by a decision to trust it again',
 'the advanced sending chain is stored before the trust check, so a refused encryption uses up a message number',
 [('session/cipher.go', '''	state.SetSenderChainKey(chainKey.Next())

	trusted, err''', '''	state.SetSenderChainKey(chainKey.Next())
	if err := s.SessionStore.Store(ctx, s.RemoteAddress, record); err != nil {
		return nil, err
	}

	trusted, err'''),
  ('session/cipher.go', '''	if err := s.SessionStore.Store(ctx, s.RemoteAddress, record); err != nil {
		return nil, err
	}

	return msg, nil''', '''	return msg, nil''')],
'''package main

import "bytes"

func main() {
	a, b, m := newParty("alice"), newParty("bob"), newParty("mallory")
	a.connect(b, true)
	talk(a, b)
	before := a.record(b).State().Bytes()
	must(a.st.IdentityStore().Store(ctx, b.addr, m.id.IdentityKey()))
	if _, err := a.with(b).EncryptMessage(ctx, []byte("x")); err == nil {
		fail("encrypts for an untrusted identity")
	}
	if !bytes.Equal(before, a.record(b).State().Bytes()) {
		fail("a refused encryption changed the stored session")
	}
}
''')

seed('C04-group-store-before-sign', 'C04',
 'the random source fails while a group message is being signed',
 'the advanced chain is stored before the message is signed, so a failed group encryption uses up an iteration and its key',
 [('session/group_cipher.go', '''	signingKey, err := state.PrivateSigningKey()
	if err != nil {
		return nil, err
	}

	msg, err''', '''	signingKey, err := state.PrivateSigningKey()
	if err != nil {
		return nil, err
	}

	state.SetSenderChainKey(senderChainKey.Next())
	err = g.SenderKeyStore.Store(ctx, g.SenderAddress, g.DistID, record)
	if err != nil {
		return nil, err
	}

	msg, err'''),
  ('session/group_cipher.go', '''	state.SetSenderChainKey(senderChainKey.Next())

	err = g.SenderKeyStore.Store(ctx, g.SenderAddress, g.DistID, record)
	if err != nil {
		return nil, err
	}

	return msg, nil''', '''	return msg, nil''')],
'''package main

import "strings"

func main() {
	a := newParty("alice")
	a.issue()
	a.say("one")
	r, _, _ := a.st.GroupStore().Load(ctx, a.addr, group)
	before := must(r.State()).SenderChainKey().Iteration()
	if _, err := a.in(a).EncryptMessage(ctx, strings.NewReader("short"), []byte("x")); err == nil {
		fail("signs without randomness")
	}
	r, _, _ = a.st.GroupStore().Load(ctx, a.addr, group)
	if after := must(r.State()).SenderChainKey().Iteration(); after != before {
		fail("a failed encryption moved the stored chain from %d to %d", before, after)
	}
}
''')

seed('C05-direction-mixed-up', 'C05',
 'an identity store that trusts a key for sending but not for receiving (or the other way round)',
 'the trust of the sender of a decrypted message is asked for the sending direction',
 [('session/cipher.go', 'theirIdentityKey, direction.Receiving)', 'theirIdentityKey, direction.Sending)')],
'''package main

import (
	"context"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/direction"
	"github.com/RTann/libsignal-go/protocol/identity"
)

type base = identity.Store

type picky struct {
	base
	refuse direction.Direction
	active bool
}

func (p *picky) IsTrustedIdentity(ctx context.Context, a address.Address, k identity.Key, d direction.Direction) (bool, error) {
	if p.active && d == p.refuse {
		return false, nil
	}
	return p.base.IsTrustedIdentity(ctx, a, k, d)
}

func main() {
	a, b := newParty("alice"), newParty("bob")
	a.connect(b, true)
	talk(a, b)
	w := a.send(b, "hi")
	m := must(parse(w))
	s := b.with(a)
	s.IdentityKeyStore = &picky{base: b.st.IdentityStore(), refuse: direction.Receiving, active: true}
	if pt, err := s.DecryptMessage(ctx, b.r, m); err == nil {
		fail("outputs %q from an identity not trusted for receiving", pt)
	}
}
''')

seed('C05-trust-only-in-handshake', 'C05',
 'the identity becomes untrusted after the first reply arrived',
 'messages of an acknowledged session are encrypted without asking whether the identity is trusted',
 [('session/cipher.go', '''	trusted, err := s.IdentityKeyStore.IsTrustedIdentity(ctx, s.RemoteAddress, theirIdentityKey, direction.Sending)
	if err != nil {
		return nil, err
	}
	if !trusted {
		glog.Warningf("Identity key %s is not trusted for remote address %s", hex''', '''	trusted := items == nil
	if !trusted {
		trusted, err = s.IdentityKeyStore.IsTrustedIdentity(ctx, s.RemoteAddress, theirIdentityKey, direction.Sending)
		if err != nil {
			return nil, err
		}
	}
	if !trusted {
		glog.Warningf("Identity key %s is not trusted for remote address %s", hex''')],
'''package main

func main() {
	a, b, m := newParty("alice"), newParty("bob"), newParty("mallory")
	a.connect(b, true)
	talk(a, b)
	must(a.st.IdentityStore().Store(ctx, b.addr, m.id.IdentityKey()))
	if _, err := a.with(b).EncryptMessage(ctx, []byte("x")); err == nil {
		fail("emits a message for an untrusted identity")
	}
}
''')

seed('C06-signature-checked-once', 'C06',
 'a second bundle of a known peer which carries a forged signed pre-key',
 'the signature of the signed pre-key is only checked when there is no session with the peer yet',
 [('session/session.go', '''	ok, err := theirIdentityKey.PublicKey().VerifySignature(bundle.SignedPreKeySignature, bundle.SignedPreKeyPublic.Bytes())
	if err != nil {
		return err
	}
	if !ok {
		return errors.New("signature validation failed")
	}

	record, exists, err := s.SessionStore.Load(ctx, s.RemoteAddress)
	if err != nil {
		return err
	}
	if !exists {
''', '''	record, exists, err := s.SessionStore.Load(ctx, s.RemoteAddress)
	if err != nil {
		return err
	}
	if !exists {
		ok, err := theirIdentityKey.PublicKey().VerifySignature(bundle.SignedPreKeySignature, bundle.SignedPreKeyPublic.Bytes())
		if err != nil {
			return err
		}
		if !ok {
			return errors.New("signature validation failed")
		}

''')],
'''package main

func main() {
	a, b, m := newParty("alice"), newParty("bob"), newParty("mallory")
	a.connect(b, true)
	talk(a, b)
	bu := b.bundle(true)
	bu.SignedPreKeyPublic = m.signed.PublicKey()
	bu.SignedPreKeySignature = m.sig
	if err := a.with(b).ProcessPreKeyBundle(ctx, a.r, bu); err == nil {
		fail("accepts a signed pre-key the peer did not sign")
	}
}
''')

seed('C06-prekey-deleted-again', 'C06',
 'a one-time pre-key is stored under an id that was used before, and another message of the earlier handshake arrives',
 'every message that repeats a known handshake deletes the one-time pre-key it names, even when a new key has been stored under that id',
 [('session/session.go', '''		// We've already set up a session for this V3 message, letting bundled message fall through.
		return nil, nil''', '''		// We've already set up a session for this V3 message, letting bundled message fall through.
		return message.PreKeyID(), nil''')],
'''package main

func main() {
	a, b, c := newParty("alice"), newParty("bob"), newParty("carol")
	a.connect(b, true)
	m1, m2 := a.send(b, "1"), a.send(b, "2")
	b.gets(a, m1, "1")
	b.next = 1 // ids start over
	c.connect(b, true)
	w := c.send(b, "hello")
	b.gets(a, m2, "2")
	b.gets(c, w, "hello")
}
''')

seed('C07-mac-identity-order', 'C07',
 'a peer with an implementation of its own',
 'the tag covers the identity keys in the order receiver, sender, on both sides',
 [('message/mac.go', '''	hash.Write(senderIdentityKey.Bytes())
	hash.Write(receiverIdentityKey.Bytes())
''', '''	hash.Write(receiverIdentityKey.Bytes())
	hash.Write(senderIdentityKey.Bytes())
''')],
'''package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"

	"github.com/RTann/libsignal-go/protocol/message"
)

func main() {
	a, b := newParty("alice"), newParty("bob")
	key := bytes.Repeat([]byte{7}, 32)
	w := must(message.NewSignal(message.SignalConfig{Version: 3, MACKey: key, SenderRatchetKey: a.signed.PublicKey(), Ciphertext: []byte("0123456789abcdef"), SenderIdentityKey: a.id.IdentityKey(), ReceiverIdentityKey: b.id.IdentityKey()})).Bytes()
	h := hmac.New(sha256.New, key)
	h.Write(a.id.IdentityKey().Bytes())
	h.Write(b.id.IdentityKey().Bytes())
	h.Write(w[:len(w)-8])
	if !bytes.Equal(h.Sum(nil)[:8], w[len(w)-8:]) {
		fail("the tag is not HMAC(key, sender || receiver || message)")
	}
}
''')

seed('C07-previous-counter', 'C07',
 'an observer who looks at the previous-chain counter after a ratchet step of a chain with several messages',
 'the previous counter is the number of messages in the previous chain instead of the number of its last message',
 [('session/cipher.go', 'previousIdx = currentIdx - 1', 'previousIdx = currentIdx')],
'''package main

import (
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"google.golang.org/protobuf/proto"
)

func main() {
	a, b := newParty("alice"), newParty("bob")
	a.connect(b, true)
	talk(a, b)
	for i := 0; i < 4; i++ { // the chain's messages are 0..3
		b.gets(a, a.send(b, "m"), "m")
	}
	a.gets(b, b.send(a, "turn"), "turn")
	w := a.send(b, "next")
	var m v1.SignalMessage
	check(proto.Unmarshal(w[1:len(w)-8], &m), "unmarshal")
	if m.GetPreviousCounter() != 3 {
		fail("previous counter %d, want 3", m.GetPreviousCounter())
	}
}
''')

seed('C08-chains-with-skipped-kept', 'C08',
 'more than five ratchet steps of the peer with a message outstanding in each chain',
 'receiving chains with outstanding messages are never dropped, so a session grows without bound',
 [('session/state.go', '''	if len(s.session.GetReceiverChains()) > maxReceiverChains {
		s.session.GetReceiverChains()[0] = nil
''', '''	if chains := s.session.GetReceiverChains(); len(chains) > maxReceiverChains && len(chains[0].GetMessageKeys()) == 0 {
		s.session.GetReceiverChains()[0] = nil
''')],
'''package main

import (
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"google.golang.org/protobuf/proto"
)

func main() {
	a, b := newParty("alice"), newParty("bob")
	a.connect(b, true)
	talk(a, b)
	for i := 0; i < 10; i++ {
		a.send(b, "lost")
		talk(a, b)
	}
	var s v1.SessionStructure
	check(proto.Unmarshal(b.record(a).State().Bytes(), &s), "unmarshal")
	if n := len(s.GetReceiverChains()); n > 5 {
		fail("%d receiving chains", n)
	}
}
''')

seed('C08-jump-measured-from-skipped', 'C08',
 'a message more than 25,000 ahead of its chain while skipped keys are outstanding',
 'the distance of a message is measured after discounting the skipped keys on hand, so messages further ahead than 25,000 are accepted',
 [('session/cipher.go', '	jump := counter - chainIdx\n\tif jump > MaxJumps {', '	jump := counter - chainIdx\n\t_, chain := state.ReceiverChain(theirEphemeral)\n\tif jump > MaxJumps+uint32(len(chain.GetMessageKeys())) {')],
'''package main

func main() {
	a, b := newParty("alice"), newParty("bob")
	a.connect(b, true)
	talk(a, b)
	for i := 0; i < 10; i++ {
		a.send(b, "skipped")
	}
	b.gets(a, a.send(b, "now"), "now")
	for i := 0; i < 25001; i++ {
		a.send(b, "lost")
	}
	if _, err := b.recv(a, a.send(b, "far")); err == nil {
		fail("a message 25,001 ahead is accepted")
	}
}
''')
