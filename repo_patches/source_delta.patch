From 947eb131a81b087d335e5ddd9e3474cb763cec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:25 +0000
Subject: [PATCH 01/17] fix: advance the receiving chain past a decrypted
 message

The receiving chain key was stored at the index of the message just decrypted, so
the same message could be decrypted again, and its key was stored once more as a
skipped key when the next message arrived.
---
 protocol/session/cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index 3fd117a..6861e20 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -413,7 +413,7 @@ func (s *Session) messageKeys(state *State, theirEphemeral curve.PublicKey, chai
 		chainKey = chainKey.Next()
 	}
 
-	err := state.SetReceiverChainKey(theirEphemeral, chainKey)
+	err := state.SetReceiverChainKey(theirEphemeral, chainKey.Next())
 	if err != nil {
 		return ratchet.MessageKeys{}, err
 	}
-- 
2.43.0


From 98050b3e906fb0bb80cab8f094f3d4d0f9e2b48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:25 +0000
Subject: [PATCH 02/17] fix: report failed decryption of a signal message

The error was dropped, so forged and duplicate messages returned (nil, nil).
---
 protocol/session/cipher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index 6861e20..dfcd76b 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -180,6 +180,9 @@ func (s *Session) decryptSignal(ctx context.Context, random io.Reader, ciphertex
 	}
 
 	plaintext, err := s.decryptMessage(random, record, ciphertext.Type(), ciphertext)
+	if err != nil {
+		return nil, err
+	}
 
 	if record.State() == nil {
 		return nil, errors.New("successfully decrypted; must have a current state")
-- 
2.43.0


From 302da017e1de6154455acbd24e0beb18ce7d4f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:25 +0000
Subject: [PATCH 03/17] fix: refuse pre-key messages naming an unknown signed
 pre-key

The missing key was dereferenced, so a remote peer could crash the process.
---
 protocol/session/session.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/protocol/session/session.go b/protocol/session/session.go
index 727fe66..53e7330 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -6,6 +6,7 @@ import (
 	"bytes"
 	"context"
 	"errors"
+	"fmt"
 	"io"
 
 	"github.com/golang/glog"
@@ -69,16 +70,16 @@ func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *
 		return nil, nil
 	}
 
-	var ourSignedPreKeyPair *curve.KeyPair
 	ourSignedPreKeyRecord, exists, err := s.SignedPreKeyStore.Load(ctx, message.SignedPreKeyID())
 	if err != nil {
 		return nil, err
 	}
-	if exists {
-		ourSignedPreKeyPair, err = ourSignedPreKeyRecord.KeyPair()
-		if err != nil {
-			return nil, err
-		}
+	if !exists {
+		return nil, fmt.Errorf("signed pre-key %s not found", message.SignedPreKeyID())
+	}
+	ourSignedPreKeyPair, err := ourSignedPreKeyRecord.KeyPair()
+	if err != nil {
+		return nil, err
 	}
 
 	var ourOneTimePreKeyPair *curve.KeyPair
-- 
2.43.0


From afa54a9ed8ff75063d7a19e1408aae727094ad89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:25 +0000
Subject: [PATCH 04/17] fix: refuse pre-key messages naming an unknown one-time
 pre-key

A named but missing (for example already used) one-time pre-key was silently left
out of the key agreement, so a used id could serve further sessions.
---
 protocol/session/session.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/protocol/session/session.go b/protocol/session/session.go
index 53e7330..2c66ddb 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -92,11 +92,12 @@ func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *
 		if err != nil {
 			return nil, err
 		}
-		if exists {
-			ourOneTimePreKeyPair, err = ourOneTimePreKeyRecord.KeyPair()
-			if err != nil {
-				return nil, err
-			}
+		if !exists {
+			return nil, fmt.Errorf("pre-key %s not found", message.PreKeyID())
+		}
+		ourOneTimePreKeyPair, err = ourOneTimePreKeyRecord.KeyPair()
+		if err != nil {
+			return nil, err
 		}
 	}
 
-- 
2.43.0


From b4fb6125aa5cc6430315397883fc23d2ab2e3775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:25 +0000
Subject: [PATCH 05/17] fix: propagate key agreement errors when processing a
 pre-key message

A pre-key message with a low-order base or identity key made the key agreement
fail, and the nil session was dereferenced.
---
 protocol/session/session.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/protocol/session/session.go b/protocol/session/session.go
index 2c66ddb..a662968 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -109,6 +109,9 @@ func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *
 		TheirIdentityKey:     message.IdentityKey(),
 		TheirBaseKey:         message.BaseKey(),
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	session.SetLocalRegistrationID(s.IdentityKeyStore.LocalRegistrationID(ctx))
 	session.SetRemoteRegistrationID(message.RegistrationID())
@@ -309,6 +312,9 @@ func initializeBobSession(params *ratchet.BobParameters) (*State, error) {
 	}
 
 	rootKey, chainKey, err := ratchet.DeriveKeys(secrets.Bytes())
+	if err != nil {
+		return nil, err
+	}
 
 	session := NewState(&v1.SessionStructure{
 		SessionVersion:       message.CiphertextVersion,
-- 
2.43.0


From 40a255dce82da4c4b3118fac4395ddf32f521900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:25 +0000
Subject: [PATCH 06/17] fix: refuse signal messages too short to hold a MAC

Messages of 1 to 8 bytes made the slice expression panic.
---
 protocol/message/signal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/message/signal.go b/protocol/message/signal.go
index 69d64ba..732d945 100644
--- a/protocol/message/signal.go
+++ b/protocol/message/signal.go
@@ -73,7 +73,7 @@ func NewSignal(cfg SignalConfig) (Ciphertext, error) {
 }
 
 func NewSignalFromBytes(bytes []byte) (Ciphertext, error) {
-	if len(bytes) == 0 {
+	if len(bytes) < 1+macSize {
 		return nil, errors.New("message too short")
 	}
 
-- 
2.43.0


From 219299506aebf55792c406568f83c2946482e6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:25 +0000
Subject: [PATCH 07/17] fix: do not write padding into the caller's buffer

Appending to the plaintext overwrote the bytes behind it when the slice had spare
capacity.
---
 protocol/crypto/aes/aes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/protocol/crypto/aes/aes.go b/protocol/crypto/aes/aes.go
index 8c9438b..3295a39 100644
--- a/protocol/crypto/aes/aes.go
+++ b/protocol/crypto/aes/aes.go
@@ -66,7 +66,10 @@ func CBCDecrypt(key, iv, ciphertext []byte) ([]byte, error) {
 func pkcs7pad(plaintext []byte) []byte {
 	n := aes.BlockSize - (len(plaintext) % aes.BlockSize)
 
-	return append(plaintext, bytes.Repeat([]byte{byte(n)}, n)...)
+	padded := make([]byte, 0, len(plaintext)+n)
+	padded = append(padded, plaintext...)
+
+	return append(padded, bytes.Repeat([]byte{byte(n)}, n)...)
 }
 
 // pkcs7unpad unpads plaintext which adhered to PKS #7 padding rules.
-- 
2.43.0


From b4cc38205e4001ca683afbd58980977a58b2238d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:25 +0000
Subject: [PATCH 08/17] fix: check every padding byte when unpadding

Only the last byte was looked at, so malformed PKCS #7 padding was accepted.
---
 protocol/crypto/aes/aes.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/protocol/crypto/aes/aes.go b/protocol/crypto/aes/aes.go
index 3295a39..59e8abf 100644
--- a/protocol/crypto/aes/aes.go
+++ b/protocol/crypto/aes/aes.go
@@ -81,5 +81,11 @@ func pkcs7unpad(plaintext []byte) ([]byte, error) {
 		return nil, errors.New("invalid padding")
 	}
 
+	for _, b := range plaintext[length-n:] {
+		if int(b) != n {
+			return nil, errors.New("invalid padding")
+		}
+	}
+
 	return plaintext[:length-n], nil
 }
-- 
2.43.0


From de99612ec16ae286c0aafe0995e27319ee8c37c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:25 +0000
Subject: [PATCH 09/17] fix: compare identity keys by value in the in-memory
 store

Keys were compared by pointer, so storing the same identity key again was reported
as a change.
---
 protocol/identity/store_inmem.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/identity/store_inmem.go b/protocol/identity/store_inmem.go
index 1031134..1e86e18 100644
--- a/protocol/identity/store_inmem.go
+++ b/protocol/identity/store_inmem.go
@@ -42,7 +42,7 @@ func (i *inMemStore) Store(_ context.Context, address address.Address, identity
 	knownIdentity, exists := i.knownKeys[address]
 	i.knownKeys[address] = identity
 
-	return exists && identity != knownIdentity, nil
+	return exists && !identity.Equal(knownIdentity), nil
 }
 
 func (i *inMemStore) Clear() error {
-- 
2.43.0


From c8de464bbb246268a246927a70a6191846084c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:25 +0000
Subject: [PATCH 10/17] fix: check the signature length in
 curve25519.VerifySignature

Short signatures made it panic, and bytes after the 64th were ignored.
---
 protocol/curve/curve25519/curve25519.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/protocol/curve/curve25519/curve25519.go b/protocol/curve/curve25519/curve25519.go
index 694b9ae..41106f9 100644
--- a/protocol/curve/curve25519/curve25519.go
+++ b/protocol/curve/curve25519/curve25519.go
@@ -188,6 +188,10 @@ func (p *PrivateKey) Sign(random io.Reader, messages ...[]byte) ([]byte, error)
 //
 // It is expected the given public key is Montgomery u-point.
 func VerifySignature(publicKey []byte, signature []byte, messages ...[]byte) (bool, error) {
+	if len(signature) != SignatureSize {
+		return false, nil
+	}
+
 	y, err := utoy(publicKey, (signature[63]&0b1000_0000) == 0)
 	if err != nil {
 		return false, err
-- 
2.43.0


From 75c5c454457810502f3325be6fe23f9c6f010560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:25 +0000
Subject: [PATCH 11/17] fix: return the untrusted-identity error from
 ProcessPreKeyBundle

perrors.IsErrUntrustedIdentity did not recognize the error returned before.
---
 protocol/session/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/session/session.go b/protocol/session/session.go
index a662968..5e8f8c5 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -132,7 +132,7 @@ func (s *Session) ProcessPreKeyBundle(ctx context.Context, random io.Reader, bun
 		return err
 	}
 	if !trusted {
-		return errors.New("untrusted identity")
+		return perrors.ErrUntrustedIdentity(s.RemoteAddress)
 	}
 
 	ok, err := theirIdentityKey.PublicKey().VerifySignature(bundle.SignedPreKeySignature, bundle.SignedPreKeyPublic.Bytes())
-- 
2.43.0


From a65f075723079f7ef79ef8150c099a6f04193dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:25 +0000
Subject: [PATCH 12/17] fix: use the most recently added sender key state as
 the current one

States are appended and the oldest is evicted from the front, but the current state
was taken from the front as well, so after a key rotation the sender kept using the
old sender key.
---
 protocol/session/group_record.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/session/group_record.go b/protocol/session/group_record.go
index f07768d..5b82ffc 100644
--- a/protocol/session/group_record.go
+++ b/protocol/session/group_record.go
@@ -26,7 +26,7 @@ func (g *GroupRecord) State() (*GroupState, error) {
 		return nil, errors.New("empty sender key state")
 	}
 
-	return g.states[0], nil
+	return g.states[len(g.states)-1], nil
 }
 
 func (g *GroupRecord) StateForChainID(chainID uint32) *GroupState {
-- 
2.43.0


From 0f5a1e3f2fb0bc52e5398d944d666d58858629a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:09 +0000
Subject: [PATCH 13/17] fix: keep the in-memory session and group stores
 isolated from loaded records

Load returned the stored record itself, and the session code changes a loaded record
before it knows that a call succeeds. A forged pre-key message replaced the current
session, and a group message which failed to decrypt used up its message key, although
nothing was stored. The stores now copy records on the way in and out.
---
 protocol/session/group_record.go | 14 ++++++++++++++
 protocol/session/group_state.go  |  9 +++++++++
 protocol/session/record.go       | 19 +++++++++++++++++++
 protocol/session/store_inmem.go  |  8 ++++----
 4 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/protocol/session/group_record.go b/protocol/session/group_record.go
index 5b82ffc..2e2e984 100644
--- a/protocol/session/group_record.go
+++ b/protocol/session/group_record.go
@@ -21,6 +21,20 @@ func NewGroupRecord() *GroupRecord {
 	}
 }
 
+// clone returns a copy of the record which shares no mutable state with it.
+func (g *GroupRecord) clone() *GroupRecord {
+	if g == nil {
+		return nil
+	}
+
+	cloned := NewGroupRecord()
+	for _, state := range g.states {
+		cloned.states = append(cloned.states, state.clone())
+	}
+
+	return cloned
+}
+
 func (g *GroupRecord) State() (*GroupState, error) {
 	if len(g.states) == 0 {
 		return nil, errors.New("empty sender key state")
diff --git a/protocol/session/group_state.go b/protocol/session/group_state.go
index c7dcf2b..3fd3ffc 100644
--- a/protocol/session/group_state.go
+++ b/protocol/session/group_state.go
@@ -1,6 +1,8 @@
 package session
 
 import (
+	"google.golang.org/protobuf/proto"
+
 	"github.com/RTann/libsignal-go/protocol/curve"
 	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
 	"github.com/RTann/libsignal-go/protocol/senderkey"
@@ -45,6 +47,13 @@ func NewGroupState(cfg GroupStateConfig) *GroupState {
 	}
 }
 
+// clone returns a copy of the state which shares no mutable state with it.
+func (s *GroupState) clone() *GroupState {
+	return &GroupState{
+		state: proto.Clone(s.state).(*v1.SenderKeyStateStructure),
+	}
+}
+
 func (s *GroupState) Version() uint32 {
 	switch v := s.state.GetMessageVersion(); v {
 	case 0:
diff --git a/protocol/session/record.go b/protocol/session/record.go
index 88261b7..b03598e 100644
--- a/protocol/session/record.go
+++ b/protocol/session/record.go
@@ -40,6 +40,25 @@ func NewRecordBytes(bytes []byte) (*Record, error) {
 	}, nil
 }
 
+// clone returns a copy of the record which shares no mutable state with it.
+func (r *Record) clone() *Record {
+	if r == nil {
+		return nil
+	}
+
+	previousSessions := make([][]byte, len(r.previousSessions), maxArchivedStates)
+	copy(previousSessions, r.previousSessions)
+
+	cloned := &Record{
+		previousSessions: previousSessions,
+	}
+	if r.currentSession != nil {
+		cloned.currentSession = r.currentSession.Clone()
+	}
+
+	return cloned
+}
+
 func (r *Record) State() *State {
 	return r.currentSession
 }
diff --git a/protocol/session/store_inmem.go b/protocol/session/store_inmem.go
index 5203afe..cfb1b35 100644
--- a/protocol/session/store_inmem.go
+++ b/protocol/session/store_inmem.go
@@ -23,11 +23,11 @@ func NewInMemStore() Store {
 
 func (i *inMemStore) Load(_ context.Context, address address.Address) (*Record, bool, error) {
 	record, exists := i.sessions[address]
-	return record, exists, nil
+	return record.clone(), exists, nil
 }
 
 func (i *inMemStore) Store(_ context.Context, address address.Address, record *Record) error {
-	i.sessions[address] = record
+	i.sessions[address] = record.clone()
 	return nil
 }
 
@@ -51,13 +51,13 @@ func (i *inMemGroupStore) Load(_ context.Context, sender address.Address, distri
 		address: sender,
 		id:      distributionID,
 	}]
-	return record, exists, nil
+	return record.clone(), exists, nil
 }
 
 func (i *inMemGroupStore) Store(_ context.Context, sender address.Address, distributionID distribution.ID, record *GroupRecord) error {
 	i.senderKeys[key{
 		address: sender,
 		id:      distributionID,
-	}] = record
+	}] = record.clone()
 	return nil
 }
-- 
2.43.0


From a5686c468f9bca29af5dd070654364dc08db5a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:09 +0000
Subject: [PATCH 14/17] fix: trust a new identity key only after its pre-key
 message was decrypted

The identity key of a pre-key message was stored before the message was
authenticated, so a forged message pinned an arbitrary key for an unknown address,
and the real peer was refused as untrusted afterwards.
---
 protocol/session/cipher.go  |  7 ++++++-
 protocol/session/session.go | 23 ++++++++++++++---------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index dfcd76b..e25e8fd 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -145,7 +145,7 @@ func (s *Session) decryptPreKey(ctx context.Context, random io.Reader, ciphertex
 		record = NewRecord(nil)
 	}
 
-	preKeyID, err := s.ProcessPreKey(ctx, record, ciphertext)
+	preKeyID, err := s.processPreKey(ctx, record, ciphertext)
 	if err != nil {
 		return nil, err
 	}
@@ -155,6 +155,11 @@ func (s *Session) decryptPreKey(ctx context.Context, random io.Reader, ciphertex
 		return nil, err
 	}
 
+	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, ciphertext.IdentityKey())
+	if err != nil {
+		return nil, err
+	}
+
 	err = s.SessionStore.Store(ctx, s.RemoteAddress, record)
 	if err != nil {
 		return nil, err
diff --git a/protocol/session/session.go b/protocol/session/session.go
index 5e8f8c5..f49109a 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -37,27 +37,32 @@ type Session struct {
 // This method returns the one-time pre-key used by "Alice" when sending the initial message,
 // if one was used.
 func (s *Session) ProcessPreKey(ctx context.Context, record *Record, message *message.PreKey) (*prekey.ID, error) {
-	theirIdentityKey := message.IdentityKey()
-
-	trusted, err := s.IdentityKeyStore.IsTrustedIdentity(ctx, s.RemoteAddress, theirIdentityKey, direction.Receiving)
+	unsignedPreKeyID, err := s.processPreKey(ctx, record, message)
 	if err != nil {
 		return nil, err
 	}
-	if !trusted {
-		return nil, perrors.ErrUntrustedIdentity(s.RemoteAddress)
-	}
 
-	unsignedPreKeyID, err := s.processPreKeyV3(ctx, record, message)
+	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, message.IdentityKey())
 	if err != nil {
 		return nil, err
 	}
 
-	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, theirIdentityKey)
+	return unsignedPreKeyID, nil
+}
+
+// processPreKey does the same as ProcessPreKey, but does not store the sender's identity key.
+func (s *Session) processPreKey(ctx context.Context, record *Record, message *message.PreKey) (*prekey.ID, error) {
+	theirIdentityKey := message.IdentityKey()
+
+	trusted, err := s.IdentityKeyStore.IsTrustedIdentity(ctx, s.RemoteAddress, theirIdentityKey, direction.Receiving)
 	if err != nil {
 		return nil, err
 	}
+	if !trusted {
+		return nil, perrors.ErrUntrustedIdentity(s.RemoteAddress)
+	}
 
-	return unsignedPreKeyID, nil
+	return s.processPreKeyV3(ctx, record, message)
 }
 
 func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *message.PreKey) (*prekey.ID, error) {
-- 
2.43.0


From 7b7ffdd2c59f9860cdffcb74564cb9af17b30bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:09 +0000
Subject: [PATCH 15/17] fix: check the identity key of the session which
 decrypted a pre-key message

Only the key named in the pre-key message was checked for trust. The holder of an
old session (with an identity key which is no longer trusted) could wrap its messages
in a pre-key message naming the trusted key, and they were accepted.
---
 protocol/session/cipher.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index e25e8fd..e9ce34b 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -155,7 +155,16 @@ func (s *Session) decryptPreKey(ctx context.Context, random io.Reader, ciphertex
 		return nil, err
 	}
 
-	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, ciphertext.IdentityKey())
+	// The message may belong to a session which was established earlier, possibly with another identity key.
+	theirIdentityKey, exists, err := record.RemoteIdentityKey()
+	if err != nil {
+		return nil, err
+	}
+	if !exists || !theirIdentityKey.Equal(ciphertext.IdentityKey()) {
+		return nil, perrors.ErrUntrustedIdentity(s.RemoteAddress)
+	}
+
+	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, theirIdentityKey)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From d68f901bfbdfbfd7c73c79659d672f40c9c15e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:48 +0000
Subject: [PATCH 16/17] fix: accept a pre-key message only in the session which
 it establishes

The message inside a pre-key message was also tried with all archived sessions.
Wrapping someone's message to an existing session in a made-up pre-key message
therefore consumed any one-time pre-key and added bogus sessions to the record.
---
 protocol/session/cipher.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index e9ce34b..8275e4d 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -1,6 +1,7 @@
 package session
 
 import (
+	"bytes"
 	"context"
 	"encoding/hex"
 	"errors"
@@ -155,7 +156,12 @@ func (s *Session) decryptPreKey(ctx context.Context, random io.Reader, ciphertex
 		return nil, err
 	}
 
-	// The message may belong to a session which was established earlier, possibly with another identity key.
+	// The message must belong to the session named by the pre-key message, and not to any other known session.
+	if !bytes.Equal(record.State().AliceBaseKey(), ciphertext.BaseKey().Bytes()) {
+		return nil, errors.New("decryption failed: message does not belong to the pre-key message's session")
+	}
+
+	// That session may have been established earlier, possibly with another identity key.
 	theirIdentityKey, exists, err := record.RemoteIdentityKey()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 451857644c3ccad87e6510464e601eefbeb29d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:56 +0000
Subject: [PATCH 17/17] fix: use the system's random source for a nil reader in
 NewSenderKeyDistribution

---
 protocol/session/group_session.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/protocol/session/group_session.go b/protocol/session/group_session.go
index 7b746ba..68aa05e 100644
--- a/protocol/session/group_session.go
+++ b/protocol/session/group_session.go
@@ -58,6 +58,9 @@ func (g *GroupSession) ProcessSenderKeyDistribution(ctx context.Context, message
 }
 
 // NewSenderKeyDistribution constructs a sender-key distribution message for establishing a group session.
+//
+// It is recommended to use a cryptographic random reader.
+// If random is nil, then [crypto/rand.Reader] is used.
 func (g *GroupSession) NewSenderKeyDistribution(ctx context.Context, random io.Reader) (*message.SenderKeyDistribution, error) {
 	record, exists, err := g.SenderKeyStore.Load(ctx, g.SenderAddress, g.DistID)
 	if err != nil {
@@ -72,6 +75,10 @@ func (g *GroupSession) NewSenderKeyDistribution(ctx context.Context, random io.R
 		chainID >>= 1
 		glog.Infof("Creating SenderKey for distribution %s with chain ID %d", g.DistID, chainID)
 
+		if random == nil {
+			random = rand.Reader
+		}
+
 		senderKey := make([]byte, 32)
 		_, err = io.ReadFull(random, senderKey)
 		if err != nil {
-- 
2.43.0

