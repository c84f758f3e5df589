seed('C09-exact-limit-refused', 'C09',
 'a group message exactly 25,000 ahead of the receiver',
 'the limit is off by one: a message exactly 25,000 ahead is refused',
 [('session/group_cipher.go', 'if jump > MaxJumps {', 'if jump >= MaxJumps {')],
'''package main

func main() {
	a, b := newParty("alice"), newParty("bob")
	b.join(a, a.issue())
	for i := 0; i < 25000; i++ {
		a.say("x")
	}
	b.hears(a, a.say("far"), "far")
}
''')

seed('C09-skipped-keys-renewed', 'C09',
 'messages of a group arrive late, after a later gap',
 'when a gap is skipped, the keys of earlier gaps are dropped, so messages within the limits are refused',
 [('session/group_state.go', '''	s.state.SenderMessageKeys = append(s.state.GetSenderMessageKeys(), msgKeys)
''', '''	keys := s.state.GetSenderMessageKeys()
	if n := len(keys); n > 16 && keys[n-1].GetIteration()+64 < key.Iteration() {
		keys = nil // the sender has moved on
	}
	s.state.SenderMessageKeys = append(keys, msgKeys)
''')],
'''package main

func main() {
	a, b := newParty("alice"), newParty("bob")
	b.join(a, a.issue())
	var early []byte
	for i := 0; i < 20; i++ {
		early = a.say("early")
	}
	b.hears(a, a.say("now"), "now")
	for i := 0; i < 100; i++ {
		b.hears(a, a.say("seen"), "seen")
	}
	a.say("lost")
	b.hears(a, a.say("now"), "now")
	b.hears(a, early, "early")
}
''')

seed('C10-first-skipped-key-kept', 'C10',
 'the oldest outstanding group message arrives twice',
 'the key of the oldest skipped message is not removed when it is used',
 [('session/group_state.go', '''	s.state.GetSenderMessageKeys()[idx] = nil
	s.state.SenderMessageKeys = append(s.state.GetSenderMessageKeys()[:idx], s.state.GetSenderMessageKeys()[idx+1:]...)
''', '''	if idx > 0 {
		s.state.GetSenderMessageKeys()[idx] = nil
		s.state.SenderMessageKeys = append(s.state.GetSenderMessageKeys()[:idx], s.state.GetSenderMessageKeys()[idx+1:]...)
	}
''')],
'''package main

func main() {
	a, b := newParty("alice"), newParty("bob")
	b.join(a, a.issue())
	m := a.say("one")
	b.hears(a, a.say("two"), "two")
	b.hears(a, m, "one")
	if pt, err := b.hear(a, m); err == nil {
		fail("group message accepted twice: %q", pt)
	}
}
''')

seed('C12-redistribution-rewinds', 'C12',
 'the first distribution message of a sender key is processed again after messages were received',
 'processing a distribution message of a known sender key takes over its chain position when that is behind the stored one',
 [('session/group_record.go', '''	if !removed {
		existing = state
	}
''', '''	if !removed || state.SenderChainKey().Iteration() < existing.SenderChainKey().Iteration() {
		existing = state
	}
''')],
'''package main

func main() {
	a, b := newParty("alice"), newParty("bob")
	skd := a.issue()
	b.join(a, skd)
	m := a.say("one")
	b.hears(a, m, "one")
	b.join(a, skd)
	if pt, err := b.hear(a, m); err == nil {
		fail("group message accepted again after its distribution message was: %q", pt)
	}
}
''')

seed('C12-evicts-before-replacing', 'C12',
 'a receiver with five sender keys of one sender processes a distribution message of one of them again',
 'a full record drops its oldest sender key even when the added one is known already',
 [('session/group_record.go', '''	existing, removed := g.RemoveState(state.ChainID(), signingKey)
''', '''	if len(g.states) >= maxSenderKeyStates {
		g.states[0] = nil
		g.states = append(g.states[:0], g.states[1:]...)
	}

	existing, removed := g.RemoveState(state.ChainID(), signingKey)
'''), ('session/group_record.go', '''	if len(g.states) >= maxSenderKeyStates {
		g.states[0] = nil
		g.states = g.states[1:]
	}

	g.states = append(g.states, existing)''', '''	g.states = append(g.states, existing)''')],
'''package main

import "fmt"

func main() {
	b := newParty("bob")
	var devices []*party
	var skds [][]byte
	for i := 0; i < 5; i++ { // five sender keys of the same sender
		a := newParty(fmt.Sprint("alice", i))
		a.addr.Name = "alice"
		devices = append(devices, a)
		skds = append(skds, a.issue())
		b.join(a, skds[i])
	}
	b.join(devices[4], skds[4])
	for i, a := range devices {
		b.hears(a, a.say(fmt.Sprint("from ", i)), fmt.Sprint("from ", i))
	}
}
''')

seed('C11-version-not-signed', 'C11',
 'a group message whose version byte is altered in the bits a parser does not look at',
 'the signature does not cover the version byte, neither when signing nor when verifying',
 [('message/senderkey.go', 'cfg.SignatureKey.Sign(random, serialized.Bytes())', 'cfg.SignatureKey.Sign(random, serialized.Bytes()[1:])'),
  ('message/senderkey.go', 's.serialized[idx:], s.serialized[:idx])', 's.serialized[idx:], s.serialized[1:idx])')],
'''package main

func main() {
	a, b := newParty("alice"), newParty("bob")
	b.join(a, a.issue())
	w := a.say("hi")
	x := append([]byte(nil), w...)
	x[0] ^= 0x01
	if pt, err := b.hear(a, x); err == nil {
		fail("altered group message decrypts to %q", pt)
	}
	b.hears(a, w, "hi")
}
''')

seed('C13-iv-after-key', 'C13',
 'a group peer with an implementation of its own',
 'IV and key are taken from the derived bytes in the other order, by senders and receivers alike',
 [('senderkey/keys.go', '''		cipherKey: derived[16:],
		iv:        derived[:16],
''', '''		cipherKey: derived[:32],
		iv:        derived[32:],
''')],
'''package main

import (
	"bytes"
	"io"

	"crypto/sha256"

	"golang.org/x/crypto/hkdf"

	"github.com/RTann/libsignal-go/protocol/senderkey"
)

func main() {
	seed := bytes.Repeat([]byte{9}, 32)
	k := must(senderkey.DeriveMessageKey(seed, 0))
	want := make([]byte, 48)
	io.ReadFull(hkdf.New(sha256.New, seed, nil, []byte("WhisperGroup")), want)
	if !bytes.Equal(k.IV(), want[:16]) || !bytes.Equal(k.CipherKey(), want[16:]) {
		fail("IV and key are not the ones the scheme prescribes")
	}
}
''')

seed('C14-group-message-length', 'C14',
 'a sender-key message of exactly 64 bytes',
 'the minimum length of a group message leaves out the version byte, so a message of 64 bytes panics',
 [('message/senderkey.go', 'if len(bytes) < 1+curve.SignatureSize {', 'if len(bytes) < curve.SignatureSize {')],
'''package main

import (
	"bytes"

	"github.com/RTann/libsignal-go/protocol/message"
)

func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	for n := 0; n < 200; n++ {
		message.NewSenderKeyFromBytes(bytes.Repeat([]byte{0x33}, n))
	}
}
''')

seed('C14-empty-ciphertext', 'C14',
 'a correctly authenticated group message with an empty ciphertext',
 'an empty ciphertext is not refused before unpadding, which indexes before the start of the slice',
 [('crypto/aes/aes.go', 'if len(ciphertext) == 0 || len(ciphertext)%aes.BlockSize != 0 {', 'if len(ciphertext)%aes.BlockSize != 0 {')],
'''package main

import "github.com/RTann/libsignal-go/protocol/crypto/aes"

func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	if _, err := aes.CBCDecrypt(make([]byte, 32), make([]byte, 16), nil); err == nil {
		fail("empty ciphertext accepted")
	}
}
''')

seed('C15-absent-prekey-id', 'C15',
 'a pre-key message that names the pre-key with id 0',
 'a pre-key id of 0 is read as no pre-key at all',
 [('message/prekey.go', 'if message.PreKeyId != nil {', 'if message.GetPreKeyId() != 0 {')],
'''package main

import (
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
)

func main() {
	a, b := newParty("alice"), newParty("bob")
	s := must(message.NewSignal(message.SignalConfig{Version: 3, MACKey: make([]byte, 32), SenderRatchetKey: a.signed.PublicKey(), Ciphertext: []byte("0123456789abcdef"), SenderIdentityKey: a.id.IdentityKey(), ReceiverIdentityKey: b.id.IdentityKey()}))
	id := prekey.ID(0)
	w := must(message.NewPreKey(message.PreKeyConfig{Version: 3, PreKeyID: &id, SignedPreKeyID: 5, BaseKey: a.signed.PublicKey(), IdentityKey: a.id.IdentityKey(), Message: s.(*message.Signal)})).Bytes()
	m := must(message.NewPreKeyFromBytes(w)).(*message.PreKey)
	if m.PreKeyID() == nil || *m.PreKeyID() != 0 {
		fail("pre-key id 0 is parsed as %v", m.PreKeyID())
	}
}
''')

seed('C15-distribution-reencoded', 'C15',
 'a distribution message with a field this version does not know, or fields in another order',
 'a parsed distribution message serializes to a fresh encoding of the known fields instead of the bytes received',
 [('message/senderkey.go', '''	chainKey := message.GetChainKey()
	if len''', '''	chainKey := message.GetChainKey()
	known, err := proto.MarshalOptions{Deterministic: true}.Marshal(&v1.SenderKeyDistributionMessage{
		DistributionUuid: message.DistributionUuid,
		ChainId:          message.ChainId,
		Iteration:        message.Iteration,
		ChainKey:         message.ChainKey,
		SigningKey:       message.SigningKey,
	})
	if err != nil {
		return nil, err
	}
	if len'''), ('message/senderkey.go', '''		signingKey: signingKey,
		serialized: bytes,
''', '''		signingKey: signingKey,
		serialized: append([]byte{bytes[0]}, known...),
''')],
'''package main

import (
	"bytes"

	"github.com/RTann/libsignal-go/protocol/message"
)

func main() {
	a := newParty("alice")
	w := append(a.issue(), 0xa0, 0x06, 0x01) // unknown field 100
	m := must(message.NewSenderKeyDistributionFromBytes(bytes.Clone(w)))
	if !bytes.Equal(m.Bytes(), w) {
		fail("re-serializes to %x instead of %x", m.Bytes(), w)
	}
}
''')

seed('C16-nonce-first-part-only', 'C16',
 'two different multi-part messages with the same first part signed with a repeating random source',
 'the nonce depends on the first part of the message only',
 [('curve/curve25519/curve25519.go', '''	hash.Write(a)
	for _, message := range messages {
		hash.Write(message)
	}
	hash.Write(Z)''', '''	hash.Write(a)
	if len(messages) > 0 {
		hash.Write(messages[0])
	}
	hash.Write(Z)''')],
'''package main

import "bytes"

func main() {
	a := newParty("alice")
	s1 := must(a.id.PrivateKey().Sign(rnd("same"), []byte("head"), []byte("one")))
	s2 := must(a.id.PrivateKey().Sign(rnd("same"), []byte("head"), []byte("two")))
	if bytes.Equal(s1[:32], s2[:32]) {
		fail("two messages are signed with the same nonce")
	}
}
''')

seed('C16-scalar-reduced', 'C16',
 'a signature whose scalar was increased by the order of the group',
 'the scalar of a signature is reduced before it is verified, so a second, different signature verifies for the same message',
 [('curve/curve25519/curve25519.go', '	copy(sig, signature)\n	sig[63] &= 0b0111_1111\n', '''	copy(sig, signature)
	sig[63] &= 0b0111_1111
	s, err := edwards25519.NewScalar().SetUniformBytes(append(sig[32:64:64], make([]byte, 32)...))
	if err != nil {
		return false, err
	}
	copy(sig[32:], s.Bytes())
''')],
'''package main

import "math/big"

func main() {
	a := newParty("alice")
	order, _ := new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
	msg := []byte("m")
	s := must(a.id.PrivateKey().Sign(a.r, msg))
	sign := s[63] & 0x80
	s[63] &= 0x7f
	v := new(big.Int)
	for i := 63; i >= 32; i-- {
		v.Lsh(v, 8).Or(v, big.NewInt(int64(s[i])))
	}
	v.Add(v, order)
	for i := 32; i < 64; i++ {
		s[i] = byte(new(big.Int).And(v, big.NewInt(255)).Int64())
		v.Rsh(v, 8)
	}
	s[63] |= sign
	if ok, err := a.id.PublicKey().VerifySignature(s, msg); err == nil && ok {
		fail("an altered signature verifies")
	}
}
''')

seed('C17-top-bit-cleared', 'C17',
 'a public key with its top bit set',
 'the unused top bit of a public key is cleared when it is read, so the key does not keep its value',
 [('curve/public.go', '	copy(publicKey, key[1:])\n', '	copy(publicKey, key[1:])\n\tpublicKey[PublicKeySize-1] &= 0x7f\n')],
'''package main

import (
	"bytes"

	"github.com/RTann/libsignal-go/protocol/curve"
)

func main() {
	w := append([]byte{5}, bytes.Repeat([]byte{0xf1}, 32)...)
	if k := must(curve.NewPublicKey(w)); !bytes.Equal(k.Bytes(), w) {
		fail("key %x reads back as %x", w, k.Bytes())
	}
}
''')

seed('C17-zero-secret-accepted', 'C17',
 'a public key of small order',
 'agreement uses a function that does not refuse an all-zero secret',
 [('curve/curve25519/curve25519.go', '''	publicKey, err := ecdh.X25519().NewPublicKey(key)
	if err != nil {
		return nil, err
	}

	return p.ecdhKey.ECDH(publicKey)''', '''	var secret, scalar, point [32]byte
	copy(scalar[:], p.privateKey)
	copy(point[:], key)
	x25519.ScalarMult(&secret, &scalar, &point)

	return secret[:], nil'''), ('curve/curve25519/curve25519.go', '	"filippo.io/edwards25519"\n', '	"filippo.io/edwards25519"\n	x25519 "golang.org/x/crypto/curve25519"\n')],
'''package main

import "github.com/RTann/libsignal-go/protocol/curve"

func main() {
	a := newParty("alice")
	for _, first := range []byte{0, 1} {
		w := make([]byte, 33)
		w[0], w[1] = 5, first
		if s, err := a.id.PrivateKey().Agreement(must(curve.NewPublicKey(w))); err == nil {
			fail("agreement with a key of small order gives %x", s)
		}
	}
}
''')

seed('C18-long-padding', 'C18',
 'a ciphertext whose padding is consistent but longer than a block',
 'padding of up to 255 bytes is accepted',
 [('crypto/aes/aes.go', 'if n < 1 || n > aes.BlockSize {', 'if n < 1 || n > length {')],
'''package main

import (
	"bytes"
	stdaes "crypto/aes"
	"crypto/cipher"

	"github.com/RTann/libsignal-go/protocol/crypto/aes"
)

func main() {
	key, iv := make([]byte, 32), make([]byte, 16)
	block := must(stdaes.NewCipher(key))
	ct := bytes.Repeat([]byte{20}, 32)
	cipher.NewCBCEncrypter(block, iv).CryptBlocks(ct, ct)
	if pt, err := aes.CBCDecrypt(key, iv, ct); err == nil {
		fail("padding of 20 bytes is accepted: %x", pt)
	}
}
''')

seed('C19-prefix-compared', 'C19',
 'a scanned code whose contents were cut short',
 'only the bytes present in the scanned code are compared, so a shortened or empty code matches',
 [('fingerprint/scannable.go', '''	same1 := subtle.ConstantTimeCompare(s.local, combined.GetRemoteFingerprint().GetContent()) == 1
	same2 := subtle.ConstantTimeCompare(s.remote, combined.GetLocalFingerprint().GetContent()) == 1
''', '''	theirRemote := combined.GetRemoteFingerprint().GetContent()
	theirLocal := combined.GetLocalFingerprint().GetContent()
	if len(theirRemote) > len(s.local) || len(theirLocal) > len(s.remote) {
		return false, nil
	}

	same1 := subtle.ConstantTimeCompare(s.local[:len(theirRemote)], theirRemote) == 1
	same2 := subtle.ConstantTimeCompare(s.remote[:len(theirLocal)], theirLocal) == 1
''')],
'''package main

import (
	"bytes"

	"github.com/RTann/libsignal-go/protocol/fingerprint"
)

func main() {
	x, y := bytes.Repeat([]byte{1}, 32), bytes.Repeat([]byte{2}, 32)
	mine := must(fingerprint.NewScannable(1, x, y))
	theirs := must(must(fingerprint.NewScannable(1, y, x)).Bytes())
	if ok := must(mine.Compare(theirs)); !ok {
		fail("the peer's code does not match")
	}
	empty := []byte{0x08, 1, 0x12, 0, 0x1a, 0}
	if ok, err := mine.Compare(empty); err == nil && ok {
		fail("a code without contents matches")
	}
}
''')

seed('C19-key-once-per-thousand', 'C19',
 'a fingerprint with more than 5,200 iterations',
 'iterations beyond 5,200 leave out the key, on both sides, so the digits are not the published ones',
 [('fingerprint/fingerprint.go', '''		hash.Write(checksum)
		hash.Write(localKeyBytes)
''', '''		hash.Write(checksum)
		if i < 5_200 {
			hash.Write(localKeyBytes)
		}
''')],
'''package main

import (
	"crypto/sha512"
	"fmt"

	"github.com/RTann/libsignal-go/protocol/fingerprint"
)

func digits(iter int, id, key []byte) string {
	h := sha512.Sum512(append(append(append([]byte{0, 0}, key...), id...), key...))
	for i := 1; i < iter; i++ {
		h = sha512.Sum512(append(h[:], key...))
	}
	s := ""
	for i := 0; i < 30; i += 5 {
		var v uint64
		for _, b := range h[i : i+5] {
			v = v<<8 | uint64(b)
		}
		s += fmt.Sprintf("%05d", v%100000)
	}
	return s
}

func main() {
	a, b := newParty("alice"), newParty("bob")
	f := must(fingerprint.New(1, 6000, []byte("a"), a.id.IdentityKey(), []byte("b"), b.id.IdentityKey()))
	x, y := digits(6000, []byte("a"), a.id.IdentityKey().Bytes()), digits(6000, []byte("b"), b.id.IdentityKey().Bytes())
	if y < x {
		x, y = y, x
	}
	if f.String() != x+y {
		fail("digits %s, want %s", f.String(), x+y)
	}
}
''')

seed('C20-plain-signature-accepted', 'C20',
 'an ordinary signature of the signing identity over another identity key, such as a signature of a pre-key',
 'a signature over the bare key is accepted as an alternate-identity signature',
 [('identity/keys.go', '''	return k.publicKey.VerifySignature(signature,
		alternateIdentitySignaturePrefix1,
		alternateIdentitySignaturePrefix2,
		other.Bytes(),
	)''', '''	valid, err := k.publicKey.VerifySignature(signature,
		alternateIdentitySignaturePrefix1,
		alternateIdentitySignaturePrefix2,
		other.Bytes(),
	)
	if err != nil || valid {
		return valid, err
	}

	// Signatures of early versions.
	return k.publicKey.VerifySignature(signature, other.Bytes())''')],
'''package main

func main() {
	a, b := newParty("alice"), newParty("bob")
	s := must(a.id.PrivateKey().Sign(a.r, b.id.IdentityKey().Bytes()))
	if ok := must(a.id.IdentityKey().VerifyAlternateIdentity(s, b.id.IdentityKey())); ok {
		fail("an ordinary signature passes as an alternate-identity signature")
	}
}
''')

seed('C20-key-bytes-signed', 'C20',
 'a peer with an implementation of its own',
 'alternate-identity signatures cover the key without its type byte, on both sides',
 [('identity/keys.go', '''		alternateIdentitySignaturePrefix2,
		other.Bytes(),
	)
}

// Equal''', '''		alternateIdentitySignaturePrefix2,
		other.PublicKey().KeyBytes(),
	)
}

// Equal'''), ('identity/keys.go', '''	return k.privateKey.Sign(random,
		alternateIdentitySignaturePrefix1,
		alternateIdentitySignaturePrefix2,
		other.Bytes(),
''', '''	return k.privateKey.Sign(random,
		alternateIdentitySignaturePrefix1,
		alternateIdentitySignaturePrefix2,
		other.PublicKey().KeyBytes(),
''')],
'''package main

import "bytes"

func main() {
	a, b := newParty("alice"), newParty("bob")
	s := must(a.id.SignAlternateIdentity(a.r, b.id.IdentityKey()))
	msg := append(append(bytes.Repeat([]byte{0xff}, 32), "Signal_PNI_Signature"...), b.id.IdentityKey().Bytes()...)
	if ok := must(a.id.PublicKey().VerifySignature(s, msg)); !ok {
		fail("the signature is not in the published format")
	}
}
''')

seed('C21-shared-mac-buffer', 'C21',
 'two goroutines computing tags at the same time',
 'tags are computed in a buffer shared by the whole package, so concurrent sessions race',
 [('message/mac.go', '''	m := make([]byte, 0, sha256.Size)
	return hash.Sum(m)[:macSize], nil''', '''	m := append([]byte(nil), hash.Sum(macBuffer[:0])[:macSize]...)

	return m, nil'''), ('message/mac.go', '''// mac calculates''', '''// macBuffer saves an allocation per message.
var macBuffer = make([]byte, 0, sha256.Size)

// mac calculates''')],
'''package main

import (
	"fmt"
	"sync"
)

func main() {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		a, b := newParty(fmt.Sprint("alice", i)), newParty(fmt.Sprint("bob", i))
		wg.Add(1)
		go func() {
			defer wg.Done()
			a.connect(b, true)
			for k := 0; k < 50; k++ {
				talk(a, b)
			}
		}()
	}
	wg.Wait()
}
''', race=True)

seed('C21-key-encoding-cached', 'C21',
 'a public key shared by two goroutines which serialize it for the first time at the same moment',
 'the encoding of a public key is cached in the key object without synchronization',
 [('curve/djb_public.go', '''type DJBPublicKey struct {
	key []byte
}''', '''type DJBPublicKey struct {
	key     []byte
	encoded string
}'''), ('curve/djb_public.go', '''	bytes := make([]byte, 1+PublicKeySize)
	bytes[0] = byte(DJB)
	copy(bytes[1:], d.key)
	return bytes
}''', '''	if d.encoded == "" {
		d.encoded = string(append([]byte{byte(DJB)}, d.key...))
	}
	return []byte(d.encoded)
}''')],
'''package main

import (
	"fmt"
	"sync"

	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/identity"
)

func main() {
	bob := newParty("bob")
	for round := 0; round < 20; round++ {
		bu := bob.bundle(false)
		// Nobody has used these key objects yet.
		bu.IdentityKey = must(identity.NewKey(bob.id.IdentityKey().Bytes()))
		bu.SignedPreKeyPublic = must(curve.NewPublicKey(bob.signed.PublicKey().Bytes()))
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			a := newParty(fmt.Sprint("alice", i, "/", round))
			wg.Add(1)
			go func() {
				defer wg.Done()
				check(a.with(bob).ProcessPreKeyBundle(ctx, a.r, bu), "bundle")
				a.send(bob, "hi")
			}()
		}
		wg.Wait()
	}
}
''', race=True)

seed('C21-verified-cache', 'C21',
 'concurrent verification of group messages',
 'successful verifications are remembered in an unsynchronized map, which ends the process when two goroutines write it',
 [('curve/djb_public.go', '	return curve25519.VerifySignature(d.key, signature, messages...)\n}', '''	id := string(d.key) + string(signature) + string(bytes.Join(messages, nil))
	if verified[id] {
		return true, nil
	}
	ok, err := curve25519.VerifySignature(d.key, signature, messages...)
	if ok {
		if len(verified) > 1000 {
			verified = make(map[string]bool)
		}
		verified[id] = true
	}

	return ok, err
}

// verified remembers recently verified signatures.
var verified = make(map[string]bool)'''), ('curve/djb_public.go', 'import (\n', 'import (\n\t"bytes"\n')],
'''package main

import (
	"fmt"
	"sync"
)

func main() {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		a, b := newParty(fmt.Sprint("alice", i)), newParty(fmt.Sprint("bob", i))
		wg.Add(1)
		go func() {
			defer wg.Done()
			b.join(a, a.issue())
			for k := 0; k < 50; k++ {
				b.hears(a, a.say("x"), "x")
			}
		}()
	}
	wg.Wait()
}
''', race=True)

seed('C22-short-read', 'C22',
 'a random source that returns fewer bytes than asked for',
 'a private key is drawn with a single read, so a short read leaves the rest of the key zero',
 [('curve/curve25519/curve25519.go', '''	_, err := io.ReadFull(random, key)
	if err != nil {''', '''	_, err := random.Read(key)
	if err != nil {''')],
'''package main

import (
	"bytes"
	"testing/iotest"

	"github.com/RTann/libsignal-go/protocol/curve"
)

func main() {
	k1 := must(curve.GeneratePrivateKey(rnd("x")))
	k2 := must(curve.GeneratePrivateKey(iotest.OneByteReader(rnd("x"))))
	if !bytes.Equal(k1.Bytes(), k2.Bytes()) {
		fail("a source that splits its reads gives another key: %x", k2.Bytes())
	}
}
''')

seed('C22-half-nonce', 'C22',
 'a random source that ends after half the bytes of a nonce',
 'a signature is made although the random source ended after 32 bytes',
 [('curve/curve25519/curve25519.go', '_, err := io.ReadFull(random, Z)', '_, err := io.ReadAtLeast(random, Z, randomSize/2)')],
'''package main

import "strings"

func main() {
	a := newParty("alice")
	if _, err := a.id.PrivateKey().Sign(strings.NewReader(strings.Repeat("r", 40)), []byte("m")); err == nil {
		fail("signs with 40 of 64 random bytes")
	}
}
''')

seed('C23-chain-key-logged', 'C23',
 'a message too far in the future',
 'the refusal of a message too far ahead logs the chain key',
 [('session/cipher.go', 'glog.Errorf("%v Exceeded future message limit: %d, index: %d, counter: %d", s.RemoteAddress, MaxJumps, chainIdx, counter)', 'glog.Errorf("%v Exceeded future message limit: %d, chain: %x, counter: %d", s.RemoteAddress, MaxJumps, chainKey, counter)')],
'''package main

import (
	"bytes"
	"encoding/hex"
	"flag"
	"os"

	"github.com/golang/glog"
)

func main() {
	flag.Set("logtostderr", "true")
	a, b := newParty("alice"), newParty("bob")
	a.connect(b, true)
	talk(a, b)
	b.gets(a, a.send(b, "in the new chain"), "in the new chain")
	for i := 0; i < 25010; i++ {
		a.send(b, "lost")
	}
	w := a.send(b, "far")
	m := must(parse(w))
	old := os.Stderr
	r, out, _ := os.Pipe()
	os.Stderr = out
	done := make(chan []byte)
	go func() {
		var buf bytes.Buffer
		buf.ReadFrom(r)
		done <- buf.Bytes()
	}()
	_, err := b.with(a).DecryptMessage(ctx, b.r, m)
	glog.Flush()
	os.Stderr = old
	out.Close()
	text := <-done
	if err == nil {
		fail("accepted")
	}
	type ratcheted interface{ SenderRatchetKey() interface{} }
	_ = ratcheted(nil)
	for _, key := range chainKeys(b.record(a).State().Bytes()) {
		if bytes.Contains(bytes.ToLower(text), []byte(hex.EncodeToString(key))) {
			fail("the log contains a chain key")
		}
	}
}
'''.replace('''	type ratcheted interface{ SenderRatchetKey() interface{} }
	_ = ratcheted(nil)
''', '').replace('''	"github.com/golang/glog"
)
''', '''	"github.com/golang/glog"
	"google.golang.org/protobuf/proto"

	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
)

func chainKeys(state []byte) (keys [][]byte) {
	var s v1.SessionStructure
	check(proto.Unmarshal(state, &s), "unmarshal")
	for _, c := range s.GetReceiverChains() {
		keys = append(keys, c.GetChainKey().GetKey())
	}
	return keys
}
'''))

seed('C23-plaintext-in-error', 'C23',
 'an authentic message whose padding is wrong',
 'the error about wrong padding shows the end of the decrypted plaintext',
 [('crypto/aes/aes.go', '''	if n < 1 || n > aes.BlockSize {
		return nil, errors.New("invalid padding")''', '''	if n < 1 || n > aes.BlockSize {
		return nil, fmt.Errorf("invalid padding: %q", plaintext[length-aes.BlockSize:])'''), ('crypto/aes/aes.go', '	"errors"\n', '	"errors"\n	"fmt"\n')],
'''package main

import (
	stdaes "crypto/aes"
	"crypto/cipher"
	"strings"

	"github.com/RTann/libsignal-go/protocol/crypto/aes"
)

func main() {
	key, iv := make([]byte, 32), make([]byte, 16)
	block := must(stdaes.NewCipher(key))
	ct := []byte("my secret diary!")
	cipher.NewCBCEncrypter(block, iv).CryptBlocks(ct, ct)
	_, err := aes.CBCDecrypt(key, iv, ct)
	if err == nil {
		fail("accepted")
	}
	if strings.Contains(err.Error(), "secret diary") {
		fail("the error shows the plaintext: %v", err)
	}
}
''')

seed('C24-group-key-without-device', 'C24',
 'two devices of one name with a sender key each in the same distribution',
 'group records are filed under name and distribution only, so the devices of a user share one record',
 [('session/store_inmem.go', '''type key struct {
	address address.Address
''', '''type key struct {
	address string
'''), ('session/store_inmem.go', '''	record, exists := i.senderKeys[key{
		address: sender,
''', '''	record, exists := i.senderKeys[key{
		address: sender.Name,
'''), ('session/store_inmem.go', '''	i.senderKeys[key{
		address: sender,
		id:      distributionID,
	}] = record''', '''	i.senderKeys[key{
		address: sender.Name,
		id:      distributionID,
	}] = record''')],
'''package main

import "github.com/RTann/libsignal-go/protocol/address"

func main() {
	a, b := newParty("alice"), newParty("bob")
	b.join(a, a.issue())
	_, ok, err := b.st.GroupStore().Load(ctx, address.Address{Name: "alice", DeviceID: 2}, group)
	check(err, "load")
	if ok {
		fail("a record is found for a device that has none")
	}
}
''')

seed('C24-clear-in-background', 'C24',
 'an identity stored right after the store was cleared',
 'clearing empties the live map in the background, so keys stored afterwards can disappear and cleared ones can still be seen',
 [('identity/store_inmem.go', '''	tmp := i.knownKeys
	i.knownKeys = make(map[address.Address]Key)

	go func() {
		for k := range tmp {
			delete(tmp, k)
		}
	}()
''', '''	tmp := make([]address.Address, 0, len(i.knownKeys))
	for k := range i.knownKeys {
		tmp = append(tmp, k)
	}

	go func() {
		for _, k := range tmp {
			delete(i.knownKeys, k)
		}
	}()
''')],
'''package main

import (
	"fmt"

	"github.com/RTann/libsignal-go/protocol/address"
)

func main() {
	a, b := newParty("alice"), newParty("bob")
	st := a.st.IdentityStore()
	for round := 0; round < 50; round++ {
		for i := 0; i < 200; i++ {
			must(st.Store(ctx, address.Address{Name: fmt.Sprint(i)}, b.id.IdentityKey()))
		}
		check(st.Clear(), "clear")
		if _, ok, _ := st.Load(ctx, address.Address{Name: "7"}); ok {
			fail("a key is still there after Clear")
		}
	}
}
''')

seed('C25-key-captured', 'C25',
 'a caller that reuses the buffer a public key was parsed from',
 'a public key keeps a reference to the bytes it was parsed from',
 [('curve/public.go', '''	publicKey := make([]byte, PublicKeySize)
	copy(publicKey, key[1:])
''', '''	publicKey := key[1 : 1+PublicKeySize]
''')],
'''package main

import (
	"bytes"

	"github.com/RTann/libsignal-go/protocol/curve"
)

func main() {
	a := newParty("alice")
	w := a.signed.PublicKey().Bytes()
	want := bytes.Clone(w)
	k := must(curve.NewPublicKey(w))
	for i := range w {
		w[i] = 0
	}
	if !bytes.Equal(k.Bytes(), want) {
		fail("the key changed with the buffer it was parsed from")
	}
}
''')

seed('C25-message-appended', 'C25',
 'a message passed in several parts, the first of which has spare capacity',
 'verification appends the later parts of a message to the first one in place, which overwrites the bytes behind it',
 [('curve/curve25519/curve25519.go', '''	var msg []byte
	for _, message := range messages {
		msg = append(msg, message...)
	}
''', '''	var msg []byte
	for i, message := range messages {
		if i == 0 {
			msg = message
			continue
		}
		msg = append(msg, message...)
	}
''')],
'''package main

import "bytes"

func main() {
	a := newParty("alice")
	buf := []byte("first part|kept by the caller")
	want := bytes.Clone(buf)
	s := must(a.id.PrivateKey().Sign(a.r, buf[:10], []byte("second")))
	must(a.id.PublicKey().VerifySignature(s, buf[:10], []byte("second")))
	if !bytes.Equal(buf, want) {
		fail("the caller's buffer became %q", buf)
	}
}
''')

seed('C26-chains-compacted', 'C26',
 'a session with several receiving chains is saved and restored, and a message of an older chain follows that was not skipped over',
 'serializing a session leaves out receiving chains without outstanding keys, except the newest',
 [('session/state.go', '''	b, _ := proto.Marshal(s.session)
	return b''', '''	compact := s.Clone().session
	chains := compact.GetReceiverChains()
	compact.ReceiverChains = nil
	for i, chain := range chains {
		if i == len(chains)-1 || len(chain.GetMessageKeys()) > 0 {
			compact.ReceiverChains = append(compact.ReceiverChains, chain)
		}
	}

	b, _ := proto.Marshal(compact)
	return b''')],
'''package main

import "github.com/RTann/libsignal-go/protocol/session"

func main() {
	a, b := newParty("alice"), newParty("bob")
	a.connect(b, true)
	talk(a, b)
	b.gets(a, a.send(b, "1"), "1")
	late := a.send(b, "late")
	a.gets(b, b.send(a, "turn"), "turn")
	b.gets(a, a.send(b, "2"), "2")
	rec := must(session.NewRecordBytes(b.record(a).State().Bytes()))
	check(b.st.SessionStore().Store(ctx, a.addr, rec), "store")
	b.gets(a, late, "late")
}
''')

seed('C27-primary-device-pinned', 'C27',
 'messages from a secondary device of a user whose identity is not the one pinned for the first device',
 'accepting an ordinary message from a secondary device also pins its identity for the user\'s first device',
 [('session/cipher.go', '''		return nil, perrors.ErrUntrustedIdentity(s.RemoteAddress)
	}

	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, theirIdentityKey)
	if err != nil {
		return nil, err
	}

	err = s.SessionStore.Store(ctx, s.RemoteAddress, record)
	if err != nil {
		return nil, err
	}

	return plaintext, nil
''', '''		return nil, perrors.ErrUntrustedIdentity(s.RemoteAddress)
	}

	// All devices of a user share one identity.
	for device := s.RemoteAddress.DeviceID; ; device = 1 {
		addr := s.RemoteAddress
		addr.DeviceID = device
		if _, err = s.IdentityKeyStore.Store(ctx, addr, theirIdentityKey); err != nil {
			return nil, err
		}
		if device == 1 {
			break
		}
	}

	err = s.SessionStore.Store(ctx, s.RemoteAddress, record)
	if err != nil {
		return nil, err
	}

	return plaintext, nil
''')],
'''package main

import "github.com/RTann/libsignal-go/protocol/address"

func main() {
	a, a2, b := newParty("alice"), newParty("alice, other identity"), newParty("bob")
	a2.addr = address.Address{Name: "alice", DeviceID: 2}
	a.connect(b, true)
	talk(a, b)
	a2.connect(b, true)
	talk(a2, b)
	b.gets(a2, a2.send(b, "hello"), "hello")
	key, ok, err := b.st.IdentityStore().Load(ctx, a.addr)
	check(err, "load identity")
	if !ok || !key.Equal(a.id.IdentityKey()) {
		fail("a message of alice's second device changed the identity pinned for the first")
	}
}
''')

seed('C27-detached-delete', 'C27',
 'a pre-key store which relies on the context of the call',
 'the consumed one-time pre-key is deleted with a background context instead of the caller\'s',
 [('session/cipher.go', 's.PreKeyStore.Delete(ctx, *preKeyID)', 's.PreKeyStore.Delete(context.Background(), *preKeyID)')],
'''package main

import (
	"context"

	"github.com/RTann/libsignal-go/protocol/prekey"
)

type tenant struct{}

type store = prekey.Store

type prekeys struct{ store }

func (p prekeys) Delete(ctx context.Context, id prekey.ID) error {
	if ctx.Value(tenant{}) != "b" {
		fail("a one-time pre-key is deleted outside of the caller's context")
	}
	return p.store.Delete(ctx, id)
}

func main() {
	a, b := newParty("alice"), newParty("bob")
	a.connect(b, true)
	s := b.with(a)
	s.PreKeyStore = prekeys{store: s.PreKeyStore}
	_, err := s.DecryptMessage(context.WithValue(ctx, tenant{}, "b"), b.r, must(parse(a.send(b, "1"))))
	check(err, "decrypt")
}
''')

seed('C28-own-initiation-preferred', 'C28',
 'a message of an archived session arrives while the current session is one the receiver initiated and which is not acknowledged yet',
 'an archived session is not taken up again while an initiation of one\'s own is outstanding, so the answer to the message travels in another session, with handshake',
 [('session/record.go', '''	r.previousSessions[idx] = nil
''', '''	if current := r.currentSession; current != nil && current.session.GetPendingPreKey() != nil {
		// Our own initiation is still outstanding.
		r.previousSessions[idx] = state.Bytes()
		return
	}
	r.previousSessions[idx] = nil
''')],
'''package main

import "github.com/RTann/libsignal-go/protocol/message"

func main() {
	a, b := newParty("alice"), newParty("bob")
	a.connect(b, true)
	talk(a, b)
	b.gets(a, a.send(b, "1"), "1")
	b.connect(a, true)
	b.send(a, "lost")
	b.gets(a, a.send(b, "2"), "2")
	w := b.send(a, "3")
	if _, ok := must(parse(w)).(*message.Signal); !ok {
		fail("the answer does not travel in the session of the accepted message")
	}
	a.gets(b, w, "3")
}
''')

seed('C28-delayed-keeps-current', 'C28',
 'a delayed message, overtaken by others of its session, is the one which is accepted after the session was archived',
 'a message decrypted with a skipped key of an archived session does not make that session the current one',
 [('session/cipher.go', '''		record.PromoteOldState(state.idx, state.state)
''', '''		if chain, exists, err := state.state.ReceiverChainKey(ciphertext.SenderRatchetKey()); err == nil && exists && chain.Index() > ciphertext.Counter()+1 {
			// A delayed message says nothing about the session the peer uses now.
			record.previousSessions[state.idx] = state.state.Bytes()
		} else {
			record.PromoteOldState(state.idx, state.state)
		}
''')],
'''package main

import "bytes"

func main() {
	a, b := newParty("alice"), newParty("bob")
	a.connect(b, true)
	talk(a, b)
	late := a.send(b, "late")
	b.gets(a, a.send(b, "next"), "next")
	base := bytes.Clone(b.record(a).State().AliceBaseKey())
	b.connect(a, true)
	b.gets(a, late, "late")
	if !bytes.Equal(b.record(a).State().AliceBaseKey(), base) {
		fail("the session of the accepted message is not the current one")
	}
}
''')

seed('C29-used-prekey-duplicate', 'C29',
 'a handshake message naming a one-time pre-key which is gone, for a session the receiver does not hold',
 'a new handshake which names a used pre-key is reported as a duplicate although its message was never received',
 [('session/session.go', '''			return nil, fmt.Errorf("pre-key %s not found", message.PreKeyID())''', '''			// One-time pre-keys are gone after their first use.
			return nil, perrors.ErrDuplicateMessage''')],
'''package main

import (
	"errors"

	"github.com/RTann/libsignal-go/protocol/perrors"
)

func main() {
	a, b, c := newParty("alice"), newParty("bob"), newParty("carol")
	bun := b.bundle(true)
	check(a.with(b).ProcessPreKeyBundle(ctx, a.r, bun), "process bundle")
	b.gets(a, a.send(b, "1"), "1")
	check(c.with(b).ProcessPreKeyBundle(ctx, c.r, bun), "process bundle")
	_, err := b.recv(c, c.send(b, "2"))
	if err == nil {
		fail("used pre-key accepted")
	}
	if errors.Is(err, perrors.ErrDuplicateMessage) {
		fail("a message never received is reported as a duplicate")
	}
}
''')

seed('C29-archived-duplicate-unnamed', 'C29',
 'a message of an archived session is delivered again',
 'a repeated message of a session which is not the current one is reported as an invalid message instead of a duplicate',
 [('session/cipher.go', '''				plaintext: plaintext,
			}
			break
		case errors.Is(err, perrors.ErrDuplicateMessage):
			return nil, err
		default:
''', '''				plaintext: plaintext,
			}
			break
		default:
			glog.V(2).Infof("session %d of %v: %v", i, s.RemoteAddress, err)
''')],
'''package main

import (
	"errors"

	"github.com/RTann/libsignal-go/protocol/perrors"
)

func main() {
	a, b := newParty("alice"), newParty("bob")
	a.connect(b, true)
	talk(a, b)
	w := a.send(b, "1")
	b.gets(a, w, "1")
	b.connect(a, true)
	_, err := b.recv(a, w)
	if !errors.Is(err, perrors.ErrDuplicateMessage) {
		fail("a repeated message is reported as %v", err)
	}
}
''')

seed('C11-own-record-unchecked', 'C11',
 'a forged group message is presented to the sender whose name it bears',
 'with a record that holds the private signing key the signature of a group message is not verified',
 [('session/group_cipher.go', '''	valid, err := ciphertext.VerifySignature(signingKey)
	if err != nil {
		return nil, err
	}
	if !valid {''', '''	valid, err := ciphertext.VerifySignature(signingKey)
	if err != nil {
		return nil, err
	}
	_, err = state.PrivateSigningKey()
	if ours := err == nil; !valid && !ours {''')],
'''package main

import "bytes"

func main() {
	a, b := newParty("alice"), newParty("bob")
	b.join(a, a.issue())
	w := a.say("hello")
	b.hears(a, w, "hello")
	f := bytes.Clone(w)
	f[len(f)-1] ^= 1
	if pt, err := b.hear(a, f); err == nil {
		fail("forgery opened: %q", pt)
	}
	w = a.say("once more")
	f = bytes.Clone(w)
	f[len(f)-2] ^= 1
	// a's own record: go back to the time before the message
	c := newParty("alice")
	skd := c.issue()
	b2 := newParty("bob")
	b2.join(c, skd)
	before := must2(c.st.GroupStore().Load(ctx, c.addr, group))
	w = c.say("mine")
	check(c.st.GroupStore().Store(ctx, c.addr, group, before), "store")
	f = bytes.Clone(w)
	f[len(f)-2] ^= 1
	if pt, err := c.hear(c, f); err == nil {
		fail("forgery opened by its alleged sender: %q", pt)
	}
}

func must2[A any](v A, ok bool, err error) A {
	check(err, "load")
	if !ok {
		fail("no record")
	}
	return v
}
''')

seed('C22-archived-session-source', 'C22',
 'the caller\'s source of randomness fails, or is a recorded one, while a message starts a new chain of an archived session',
 'the ratchet key made for an archived session which is taken up again does not come from the caller\'s source',
 [('session/cipher.go', '''		plaintext, err := s.decryptMessageSession(random, previous, ciphertext)''', '''		plaintext, err := s.decryptMessageSession(rand.Reader, previous, ciphertext)'''),
  ('session/cipher.go', '''	"context"
	"encoding/hex"''', '''	"context"
	"crypto/rand"
	"encoding/hex"''')],
'''package main

import "bytes"

func main() {
	run := func() []byte {
		a, b := newParty("alice"), newParty("bob")
		a.connect(b, true)
		talk(a, b)
		b.gets(a, a.send(b, "1"), "1")
		a.gets(b, b.send(a, "2"), "2") // a's next message is in a new chain
		w := a.send(b, "3")
		b.connect(a, true)
		b.r = rnd("the same")
		b.gets(a, w, "3")
		return must(b.record(a).State().SenderRatchetKey()).Bytes()
	}
	if x, y := run(), run(); !bytes.Equal(x, y) {
		fail("the new ratchet key does not come from the source: %x, %x", x, y)
	}
}
''')

seed('C08-initiator-keeps-base-key', 'C08',
 'the state of an initiator is read after its session was answered',
 'the initiator keeps the private base key of the handshake in its session, from which the first chains of the session can be derived',
 [('session/session.go', '''	session.SetAliceBaseKey(ourBaseKeyPair.PublicKey().Bytes())

	_, err = s.IdentityKeyStore''', '''	session.SetAliceBaseKey(ourBaseKeyPair.PublicKey().Bytes())
	session.session.ReceiverChains[0].SenderRatchetKeyPrivate = ourBaseKeyPair.PrivateKey().Bytes()

	_, err = s.IdentityKeyStore''')],
'''package main

import (
	"bytes"

	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/message"
)

func main() {
	a, b := newParty("alice"), newParty("bob")
	a.r = rnd("initiator")
	a.connect(b, true)
	w := a.send(b, "ping")
	base := must(parse(w)).(*message.PreKey).BaseKey().Bytes()
	r := rnd("initiator")
	kp := must(curve.GenerateKeyPair(r))
	for i := 0; !bytes.Equal(kp.PublicKey().Bytes(), base); i++ {
		if i > 20 {
			return // the source is used in another way
		}
		kp = must(curve.GenerateKeyPair(r))
	}
	b.gets(a, w, "ping")
	a.gets(b, b.send(a, "pong"), "pong")
	if bytes.Contains(a.record(b).State().Bytes(), kp.PrivateKey().Bytes()) {
		fail("the private base key of the handshake is still there")
	}
}
''')

seed('C30-signed-prekey-kept', 'C30',
 'a signed pre-key is replaced in the store under the same id while a session object which has used the old one lives on',
 'a session object keeps the signed pre-keys it loaded once and goes on using them after the store has changed',
 [('session/session.go', '''	IdentityKeyStore  identity.Store
}
''', '''	IdentityKeyStore  identity.Store

	signedPreKeys map[prekey.ID]*prekey.SignedPreKey // loaded before
}

func (s *Session) signedPreKey(ctx context.Context, id prekey.ID) (*prekey.SignedPreKey, bool, error) {
	if k, ok := s.signedPreKeys[id]; ok {
		return k, true, nil
	}
	k, ok, err := s.SignedPreKeyStore.Load(ctx, id)
	if ok && err == nil {
		if s.signedPreKeys == nil {
			s.signedPreKeys = make(map[prekey.ID]*prekey.SignedPreKey)
		}
		s.signedPreKeys[id] = k
	}
	return k, ok, err
}
'''),
  ('session/session.go', 's.SignedPreKeyStore.Load(ctx, message.SignedPreKeyID())', 's.signedPreKey(ctx, message.SignedPreKeyID())')],
'''package main

import (
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/prekey"
)

func main() {
	a, b := newParty("alice"), newParty("bob")
	kept := b.with(a)
	open := func(w []byte) error {
		_, err := kept.DecryptMessage(ctx, b.r, must(parse(w)))
		return err
	}
	a.connect(b, false)
	check(open(a.send(b, "1")), "decrypt")
	b.signed = must(curve.GenerateKeyPair(b.r))
	b.sig = must(b.id.PrivateKey().Sign(b.r, b.signed.PublicKey().Bytes()))
	check(b.st.SignedPreKeyStore().Store(ctx, 22, prekey.NewSigned(22, 1, b.signed, b.sig)), "store signed pre-key")
	a.connect(b, false)
	if err := open(a.send(b, "2")); err != nil {
		fail("a session object in use refuses a handshake with the signed pre-key in the store: %v", err)
	}
}
''')

seed('C30-duplicate-limit', 'C30',
 'one group session object is presented many repeated messages and then one which was overtaken',
 'a group session object which has seen a number of duplicates refuses late messages whose keys are kept',
 [('session/group_session.go', '''	SenderKeyStore GroupStore
}
''', '''	SenderKeyStore GroupStore

	duplicates int
}
'''),
  ('session/group_cipher.go', '''			glog.Warningf("SenderKey distribution %s Duplicate message for iteration: %d", distributionID, iteration)
''', '''			glog.Warningf("SenderKey distribution %s Duplicate message for iteration: %d", distributionID, iteration)
			g.duplicates++
'''),
  ('session/group_cipher.go', '''	if currentIteration > iteration {
''', '''	if currentIteration > iteration {
		if g.duplicates > 8 {
			// Do not look for a key again and again.
			return senderkey.MessageKey{}, perrors.ErrDuplicateMessage
		}
''')],
'''package main

import "github.com/RTann/libsignal-go/protocol/message"

func main() {
	a, b := newParty("alice"), newParty("bob")
	b.join(a, a.issue())
	late, next := a.say("late"), a.say("next")
	kept := b.in(a)
	open := func(w []byte) error {
		_, err := kept.DecryptMessage(ctx, must(message.NewSenderKeyFromBytes(append([]byte(nil), w...))))
		return err
	}
	check(open(next), "decrypt")
	for i := 0; i < 40; i++ {
		if open(next) == nil {
			fail("a repeated message is accepted")
		}
	}
	if err := open(late); err != nil {
		fail("a late message is refused after repeated ones: %v", err)
	}
}
''')

seed('C31-own-registration-twice', 'C31',
 'the stored session of a party which accepted a handshake is read by another implementation or tool',
 'the session names the own registration id in place of the peer\'s',
 [('session/session.go', '''	session.SetLocalRegistrationID(s.IdentityKeyStore.LocalRegistrationID(ctx))
	session.SetRemoteRegistrationID(message.RegistrationID())
''', '''	registrationID := s.IdentityKeyStore.LocalRegistrationID(ctx)
	session.SetLocalRegistrationID(registrationID)
	session.SetRemoteRegistrationID(registrationID)
''')],
'''package main

import (
	"google.golang.org/protobuf/proto"

	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/protocol"
)

func main() {
	a, b := newParty("alice"), newParty("bob")
	a.st = protocol.NewInMemStore(a.id, 1234)
	a.connect(b, true)
	b.gets(a, a.send(b, "1"), "1")
	read := func(p, q *party) *v1.SessionStructure {
		s := new(v1.SessionStructure)
		check(proto.Unmarshal(p.record(q).State().Bytes(), s), "read the stored session")
		return s
	}
	x, y := read(a, b), read(b, a)
	if x.GetLocalRegistrationId() != y.GetRemoteRegistrationId() || y.GetLocalRegistrationId() != x.GetRemoteRegistrationId() {
		fail("the parties store registration ids %d, %d and %d, %d", x.GetLocalRegistrationId(), x.GetRemoteRegistrationId(), y.GetLocalRegistrationId(), y.GetRemoteRegistrationId())
	}
}
''')

seed('C31-ratchet-key-not-stored', 'C31',
 'a stored session is continued by another implementation of the storage format',
 'the public ratchet key of the sending chain is left out of new chains and derived when it is needed',
 [('session/state.go', '''		SenderRatchetKey:        sender.PublicKey().Bytes(),
		SenderRatchetKeyPrivate: sender.PrivateKey().Bytes(),
''', '''		SenderRatchetKeyPrivate: sender.PrivateKey().Bytes(),
'''),
  ('session/state.go', '''	ratchetKey, err := curve.NewPublicKey(chain.GetSenderRatchetKey())
	if err != nil {
		return nil, err
	}

	return ratchetKey, nil
''', '''	if len(chain.GetSenderRatchetKey()) == 0 {
		privateKey, err := s.SenderRatchetPrivateKey()
		if err != nil {
			return nil, err
		}

		// The public key follows from the private one.
		return privateKey.PublicKey(), nil
	}

	ratchetKey, err := curve.NewPublicKey(chain.GetSenderRatchetKey())
	if err != nil {
		return nil, err
	}

	return ratchetKey, nil
''')],
'''package main

import (
	"bytes"

	"google.golang.org/protobuf/proto"

	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
)

func main() {
	a, b := newParty("alice"), newParty("bob")
	a.connect(b, true)
	b.gets(a, a.send(b, "1"), "1")
	a.gets(b, b.send(a, "2"), "2")
	st := a.record(b).State()
	s := new(v1.SessionStructure)
	check(proto.Unmarshal(st.Bytes(), s), "read the stored session")
	k, err := st.SenderRatchetKey()
	check(err, "SenderRatchetKey")
	if !bytes.Equal(s.GetSenderChain().GetSenderRatchetKey(), k.Bytes()) {
		fail("the stored ratchet key is %x, the session's is %x", s.GetSenderChain().GetSenderRatchetKey(), k.Bytes())
	}
}
''')

seed('C10-used-keys-blanked', 'C10',
 'message 0 of a chain arrives again after another message that had been skipped was read',
 'the key of a message read late is blanked in the list instead of removed, and a blank entry passes for the key of message 0',
 [('session/group_state.go', '''	s.state.SenderMessageKeys = append(s.state.GetSenderMessageKeys()[:idx], s.state.GetSenderMessageKeys()[idx+1:]...)
''', '')],
'''package main

import (
	"errors"

	"github.com/RTann/libsignal-go/protocol/perrors"
)

func main() {
	a, b := newParty("alice"), newParty("bob")
	b.join(a, a.issue())
	first := a.say("first")
	b.hears(a, first, "first")
	late := a.say("late")
	b.hears(a, a.say("now"), "now")
	b.hears(a, late, "late")
	if pt, err := b.hear(a, first); !errors.Is(err, perrors.ErrDuplicateMessage) {
		fail("the first message again: %q, %v", pt, err)
	}
}
''')

seed('C13-own-messages-kept', 'C13',
 'the stored group state of a sender is looked at after it sent a message',
 'a sender keeps the keys of the messages it sent (to be able to read its own)',
 [('session/group_cipher.go', '''	state.SetSenderChainKey(senderChainKey.Next())

	err = g.''', '''	state.AddMessageKey(messageKey)
	state.SetSenderChainKey(senderChainKey.Next())

	err = g.''')],
'''package main

func main() {
	a, b := newParty("alice"), newParty("bob")
	b.join(a, a.issue())
	m := a.say("sent")
	b.hears(a, m, "sent")
	if pt, err := a.hear(a, m); err == nil {
		fail("the sender still holds the key of the message it sent: %q", pt)
	}
}
''')

seed('C18-zero-padding', 'C18',
 'a ciphertext whose plaintext ends in a zero byte, that is, one without padding',
 'a last byte of zero is taken for "no padding" and the whole is returned',
 [('crypto/aes/aes.go', '''	if n < 1 || n > aes.BlockSize {''', '''	if n == 0 {
		// The sender had nothing to pad.
		return plaintext, nil
	}
	if n > aes.BlockSize {''')],
'''package main

import (
	stdaes "crypto/aes"
	"crypto/cipher"

	"github.com/RTann/libsignal-go/protocol/crypto/aes"
)

func main() {
	key, iv := make([]byte, 32), make([]byte, 16)
	block := must(stdaes.NewCipher(key))
	ct := []byte("0123456789abcde\\x00")
	cipher.NewCBCEncrypter(block, iv).CryptBlocks(ct, ct)
	if pt, err := aes.CBCDecrypt(key, iv, ct); err == nil {
		fail("a text without padding is accepted: %x", pt)
	}
}
''')

seed('C26-skipped-keys-trimmed', 'C26',
 'a session is saved and restored with more than 1,000 skipped messages outstanding in one chain',
 'serializing a session keeps only the newest 1,000 skipped message keys of a chain',
 [('session/state.go', '''	b, _ := proto.Marshal(s.session)
	return b''', '''	stored := s.session
	for i, chain := range stored.GetReceiverChains() {
		if extra := len(chain.GetMessageKeys()) - maxMessageKeys/2; extra > 0 {
			if stored == s.session {
				stored = s.Clone().session
			}
			stored.ReceiverChains[i].MessageKeys = chain.GetMessageKeys()[extra:]
		}
	}

	b, _ := proto.Marshal(stored)
	return b''')],
'''package main

import "github.com/RTann/libsignal-go/protocol/session"

func main() {
	a, b := newParty("alice"), newParty("bob")
	a.connect(b, true)
	talk(a, b)
	late := a.send(b, "late")
	for i := 0; i < 1500; i++ {
		a.send(b, "lost")
	}
	b.gets(a, a.send(b, "now"), "now")
	rec := must(session.NewRecordBytes(b.record(a).State().Bytes()))
	check(b.st.SessionStore().Store(ctx, a.addr, rec), "store")
	b.gets(a, late, "late")
}
''')

seed('C19-long-identifiers', 'C19',
 'identifiers of more than 4,096 bytes',
 'an identifier counts only up to its first 4,096 bytes, so users who differ after that are not told apart',
 [('fingerprint/fingerprint.go', '''	hash.Write(localID)
''', '''	if len(localID) > 1<<12 {
		localID = localID[:1<<12]
	}
	hash.Write(localID)
''')],
'''package main

import (
	"bytes"

	"github.com/RTann/libsignal-go/protocol/fingerprint"
)

func main() {
	a, b := newParty("alice"), newParty("bob")
	long := bytes.Repeat([]byte("x"), 5000)
	other := bytes.Clone(long)
	other[4999]++
	f := must(fingerprint.New(1, 10, long, a.id.IdentityKey(), []byte("b"), b.id.IdentityKey()))
	g := must(fingerprint.New(1, 10, other, a.id.IdentityKey(), []byte("b"), b.id.IdentityKey()))
	if f.String() == g.String() {
		fail("two identifiers have the same digits")
	}
}
''')

seed('C13-iteration-passed-over', 'C13',
 'a sender which sends more than 4,096 messages with one sender key',
 'the chain moves on by two at multiples of 4,096',
 [('session/group_cipher.go', '''	state.SetSenderChainKey(senderChainKey.Next())

	err = g.''', '''	next := senderChainKey.Next()
	if next.Iteration()%4096 == 0 {
		next = next.Next()
	}
	state.SetSenderChainKey(next)

	err = g.''')],
'''package main

import "github.com/RTann/libsignal-go/protocol/message"

func main() {
	a := newParty("alice")
	a.issue()
	for i := 0; i < 4200; i++ {
		m := must(message.NewSenderKeyFromBytes(a.say("x")))
		if n := m.Iteration(); n != uint32(i) {
			fail("message %d has iteration %d", i, n)
		}
	}
}
''')

seed('C09-large-messages-refused', 'C09',
 'a group message of more than a megabyte',
 'the parser refuses group messages longer than a megabyte, which the sender makes without complaint',
 [('message/senderkey.go', '''	if len(bytes) < 1+curve.SignatureSize {''', '''	if len(bytes) > 1<<20 {
		return nil, errors.New("message too long")
	}

	if len(bytes) < 1+curve.SignatureSize {''')],
'''package main

import "strings"

func main() {
	a, b := newParty("alice"), newParty("bob")
	b.join(a, a.issue())
	b.hears(a, a.say("hello"), "hello")
	text := strings.Repeat("long ", 300_000)
	pt, err := b.hear(a, a.say(text))
	if err != nil || string(pt) != text {
		fail("a message of %d bytes is read as %d bytes, %v", len(text), len(pt), err)
	}
}
''')

seed('C30-object-wears-out', 'C30',
 'one session object which is used to send more than 500 messages',
 'after 500 messages of one session object the chain is moved on twice, so the outcome depends on the object and not on what is stored',
 [('session/session.go', '''	IdentityKeyStore  identity.Store
''', '''	IdentityKeyStore  identity.Store

	sent int
'''), ('session/cipher.go', '''	state.SetSenderChainKey(chainKey.Next())
''', '''	if s.sent++; s.sent%500 == 0 {
		chainKey = chainKey.Next()
	}
	state.SetSenderChainKey(chainKey.Next())
''')],
'''package main

import (
	"bytes"

	"github.com/RTann/libsignal-go/protocol/message"
)

func main() {
	a, b := newParty("alice"), newParty("bob")
	a.connect(b, true)
	talk(a, b)
	s := a.with(b)
	for i := uint32(0); i < 1200; i++ {
		m, err := s.EncryptMessage(ctx, []byte("x"))
		check(err, "encrypt")
		sm := must(message.NewSignalFromBytes(bytes.Clone(m.Bytes()))).(*message.Signal)
		if sm.Counter() != i {
			fail("message %d is sent as number %d", i, sm.Counter())
		}
	}
}
''')
