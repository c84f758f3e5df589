#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the property texts live)."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext),
        why_tests_cant=why,
        anchors=dict(
            files=["protocol/" + f for f in files],
            state=[dict(name=n, meaning=m, where="protocol/" + w) for n, m, w in state],
            mechanism=[dict(name=n, where="protocol/" + w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

SESS = ["session/cipher.go", "session/session.go", "session/record.go", "session/state.go"]
GRP = ["session/group_cipher.go", "session/group_session.go", "session/group_record.go", "session/group_state.go", "senderkey/keys.go"]

prop("C01", "One-to-one messages are delivered intact in any order",
 "Every message a party encrypts in a one-to-one session decrypts at its addressee to exactly the plaintext that was encrypted, whatever the delivery order, losses, changes of direction, simultaneous initiation by both sides, or re-establishment of the session in between. "
 "This holds as long as the message is within the retention limits: at most 25,000 messages ahead of its receiving chain (any distance in a session with one's own identity), among the 2,000 most recently skipped messages of its chain, in one of the five most recent receiving chains of its session, and in the current or one of the 40 most recently archived sessions.",
 ["histories", "inputs"], "all plaintexts (any length and content), all interleavings of sends, deliveries, losses and handshakes between two or more parties within the stated limits",
 "The tests run a few fixed conversations with one handshake each and never cross a window, chain or archive limit; the space of delivery histories is unbounded.",
 SESS + ["crypto/aes/aes.go", "ratchet/keys.go", "message/signal.go", "message/prekey.go"],
 [("DH ratchet and skipped-key store", "session/cipher.go (chainKey, messageKeys)"), ("archive of previous sessions and promotion", "session/record.go")],
 [("receiver chains / message keys", "keys kept for late messages", "session/state.go"), ("previous sessions", "archived session states", "session/record.go")],
 ["Session.EncryptMessage", "Session.DecryptMessage", "Session.ProcessPreKeyBundle"])

prop("C02", "No one-to-one message is accepted twice",
 "Once a party has decrypted a message, presenting the same message again - at once or later, after further ratchet steps, after a restart, after the session was re-established, or with its handshake wrapper removed or re-attached - never yields a plaintext again. "
 "While the receiver still retains the message's chain, the refusal is the duplicate-message error. "
 "This holds as long as the message's session has stayed the current or a retained archived one ever since, and without limit if the session was established with a one-time pre-key.",
 ["histories"], "all delivery histories that repeat any already accepted message at any later point",
 "No existing one-to-one test replays a message; the group tests replay one message once.",
 SESS, [("receiving chain advanced past the message and its key removed", "session/cipher.go (messageKeys)"), ("base-key lookup of known sessions", "session/record.go (HasSessionState)")],
 [("receiver chain index", "next expected message number", "session/state.go")],
 ["Session.DecryptMessage", "perrors.ErrDuplicateMessage"])

prop("C03", "Forged, altered or misdirected messages never decrypt",
 "A party outputs a plaintext only if the peer it is attributed to encrypted that plaintext for it; every other message - altered, truncated or extended in any byte of the authenticated message or its tag, made without the session's keys, moved to another position in the chain, reflected to its sender, or delivered in another party's session - is refused with a non-nil error and no plaintext. "
 "Message authentication binds both parties' identity keys and their roles: a tag never verifies under another key, another identity or with sender and receiver exchanged.",
 ["inputs", "histories"], "all messages, all positions of alteration, all session states they are presented in",
 "Only signed-pre-key signatures are bit-flipped by the tests; no message is ever altered, reflected or misrouted.",
 ["session/cipher.go", "message/mac.go", "message/signal.go", "message/prekey.go"],
 [("HMAC over version, body and both identities", "message/mac.go"), ("MAC verification before decryption", "session/cipher.go (decryptMessageSession)")],
 observe=["Session.DecryptMessage", "Signal.VerifyMAC"])

prop("C04", "A call that fails leaves sessions, groups and trust unchanged",
 "An encrypt, decrypt, handshake or distribution call that is refused (malformed, forged, duplicate, untrusted or failed input) leaves the stored session, group state, pre-keys and trusted identities exactly as they were before the call. "
 "When instead a store or the random source fails in the middle of a call, the call reports an error and returns no message or plaintext (or, where the failing read was not needed, completes exactly as without the fault), and once the fault is gone the same call, and all later traffic, succeed as if the failed call had not been made. "
 "(The one exception is a failing deletion of a used one-time pre-key, after which the session itself must be usable.)",
 ["fault_sequences", "crash_points", "inputs", "histories"], "every store operation and random read of every call as the failing one, and every kind of refused input, at any point of any history",
 "The tests never make a store or the random source fail and never compare stored state after a refused message.",
 SESS + GRP + ["session/store_inmem.go", "identity/store_inmem.go"],
 [("trial decryption on a copy of the state", "session/cipher.go (decryptMessage)"), ("in-memory stores hand out copies", "session/store_inmem.go"), ("state written only after success", "session/cipher.go, session/group_cipher.go")],
 observe=["session.Store", "session.GroupStore", "prekey.Store", "identity.Store"])

prop("C05", "Only trusted identity keys are ever spoken to or listened to",
 "No call emits a ciphertext for, outputs a plaintext from, or establishes a session with an identity key that the identity store does not trust for that address and direction; such a call returns the untrusted-identity error. "
 "The key that authenticates the accepted message is the key that was checked, and a successful call pins it for the address. "
 "The in-memory identity store trusts a key exactly when none is recorded or the recorded one has the same value, and reports a change exactly when a recorded key is replaced by one of different value.",
 ["histories", "inputs"], "all histories of identity changes, approvals and messages, all trust policies, both directions",
 "One test changes an identity once on the receiving side; sending, archived sessions and re-wrapped handshakes are not exercised.",
 ["session/cipher.go", "session/session.go", "identity/store_inmem.go", "identity/keys.go", "perrors/errors.go"],
 [("IsTrustedIdentity checks in encrypt, decrypt and handshake", "session/cipher.go, session/session.go"), ("value comparison of keys", "identity/keys.go")],
 observe=["identity.Store", "perrors.IsErrUntrustedIdentity"])

prop("C06", "Handshakes use only genuine pre-keys, and one-time pre-keys only once",
 "An outgoing session is established only if the bundle's signed pre-key carries a valid signature by the bundle's identity key, and an incoming one only from a message naming pre-keys the recipient holds; otherwise the call fails with an error and changes nothing. "
 "Until the first reply arrives every outgoing message carries the handshake naming exactly the bundle's pre-key ids and the sender's registration id, identity and base key, and afterwards none does. "
 "A one-time pre-key is deleted when the first message using it is accepted, at no other time, and never serves a second session.",
 ["histories", "inputs"], "all bundles (ids over the full 32-bit range, with and without one-time pre-key, forged in any field) and all orders of handshake and reply messages",
 "The tests flip signature bits on one bundle and otherwise use one id pair; deletion, reuse and unknown ids are never checked.",
 ["session/session.go", "session/cipher.go", "session/state.go", "prekey/bundle.go", "prekey/store_inmem.go"],
 [("signature verification of the bundle", "session/session.go (ProcessPreKeyBundle)"), ("pending pre-key marker", "session/state.go"), ("pre-key lookup and deletion", "session/session.go, session/cipher.go")],
 observe=["Session.ProcessPreKeyBundle", "Session.DecryptMessage", "prekey.Store"])

prop("C07", "One-to-one sessions conform to X3DH and the Double Ratchet",
 "A peer implemented independently from the published X3DH, XEdDSA and Double Ratchet specifications (version-3 messages) can establish a session with this library in either role, with or without a one-time pre-key, and exchange messages in any order (within the retention limits) in both directions. "
 "Every message the library emits has the version, ratchet key, message number, previous-chain counter (the number of the last message of the previous sending chain, 0 if there was none), ciphertext and tag which the specified key schedule prescribes.",
 ["histories", "inputs"], "all key material, all interleavings of sends and deliveries with an independent peer",
 "Self-interoperation tests accept any change made symmetrically to both ends; two fixed vectors pin one chain key each.",
 ["session/session.go", "session/cipher.go", "ratchet/keys.go", "ratchet/ratchet.go", "message/signal.go", "message/prekey.go", "message/mac.go"],
 [("X3DH secret", "session/session.go (initializeAliceSession, initializeBobSession)"), ("root, chain and message KDFs", "ratchet/keys.go, ratchet/ratchet.go")],
 observe=["wire bytes of Ciphertext.Bytes", "ratchet.ChainKey", "ratchet.RootKey"])

prop("C08", "Used keys are forgotten and session state stays bounded",
 "After a message has been encrypted or decrypted, neither party's stored session contains the message's key, any chain key it could be derived from or a one-time private key of its handshake, and after a party's ratchet step its previous ratchet private key and root key are gone from that session and a fresh ratchet key is used, never one used before. "
 "A session keeps at most 2,000 skipped message keys per chain and five receiving chains, a record at most 40 archived sessions, and a message more than 25,000 ahead of its chain is refused (unless the session is with one's own identity).",
 ["histories"], "all histories of sends, deliveries (any order, losses) and handshakes",
 "The tests look only at plaintexts; what remains in the stored state, and key freshness, are never inspected.",
 ["session/cipher.go", "session/state.go", "session/record.go", "ratchet/keys.go"],
 [("chain key replaced by its successor", "session/cipher.go"), ("message key removed on use, lists trimmed", "session/state.go"), ("archive trimmed", "session/record.go")],
 [("session structure", "root key, sender chain, receiver chains with skipped keys", "session/state.go")],
 ["Record.State().Bytes()", "Record.PreviousStates()"])

prop("C09", "Group messages reach every receiver intact in any order",
 "Every message a group sender encrypts decrypts to exactly the encrypted plaintext at every receiver that processed a distribution message issued for that sender key before the message was sent, whatever the delivery order and losses, and independently for each sender and distribution. "
 "This holds as long as the message is at most 25,000 ahead of the receiver's chain, among the 2,000 most recently skipped ones, and under one of the five most recently added sender keys of that sender and distribution.",
 ["histories", "inputs"], "all plaintexts, all per-receiver delivery orders, any number of senders, receivers, distributions and key rotations within the limits",
 "The group out-of-order test shuffles an empty list; the others deliver a handful of messages to one receiver.",
 GRP, [("sender-key chain and skipped keys", "session/group_cipher.go (messageKey)"), ("state lookup by chain id", "session/group_record.go")],
 observe=["GroupSession.EncryptMessage", "GroupSession.DecryptMessage", "GroupSession.ProcessSenderKeyDistribution"])

prop("C10", "No group message is accepted twice",
 "Once a receiver has decrypted a group message, presenting it again - at once, after any number of other messages in any order, or after the same or a later distribution message of the same sender key was processed again - is refused with the duplicate-message error and yields no plaintext, as long as that sender key has been retained since.",
 ["histories"], "all delivery histories that repeat an accepted group message or distribution message",
 "One test replays one message once, immediately.",
 GRP, [("chain advanced and skipped key removed on use", "session/group_cipher.go, session/group_state.go"), ("known sender key kept when redistributed", "session/group_record.go (AddState)")],
 observe=["GroupSession.DecryptMessage"])

prop("C11", "Only the holder of the sender key's signing key can speak in a group",
 "A receiver outputs a plaintext for a group message only if it was signed, bit for bit as received, by the signing key distributed for that sender, distribution and chain. "
 "A message altered in any byte, signed by anyone else (including a fellow member who knows the chain key), or attributed to another sender, distribution or chain is refused with an error and no plaintext.",
 ["inputs", "histories"], "all messages and positions of alteration, all forging members, all receiver states",
 "No existing test alters or forges a group message.",
 ["session/group_cipher.go", "message/senderkey.go", "session/store_inmem.go", "curve/curve25519/curve25519.go"],
 [("signature over version and body verified before use", "session/group_cipher.go, message/senderkey.go")],
 observe=["GroupSession.DecryptMessage", "SenderKey.VerifySignature"])

prop("C12", "Sender-key distribution never rewinds, leaks the past or mixes keys",
 "A distribution message opens only messages sent after it was issued, issuing one never changes an existing sender key, and processing one never moves a receiver's existing chain backwards or forwards. "
 "A record retains exactly the five most recently added sender keys, the most recently added one is the current one, and a new key under a reused chain id replaces the old one. Adding or removing one leaves the others as they are.",
 ["histories"], "all sequences of issuing, processing and re-processing distribution messages and adding sender keys, mixed with traffic",
 "The tests add at most six states to a record once and issue one distribution message per group.",
 ["session/group_record.go", "session/group_session.go", "session/group_state.go"],
 [("existing state re-used when chain id and signing key match", "session/group_record.go (AddState)"), ("distribution carries the current chain key and iteration", "session/group_session.go")],
 observe=["GroupSession.NewSenderKeyDistribution", "GroupSession.ProcessSenderKeyDistribution", "GroupRecord.State", "GroupRecord.StateForChainID"])

prop("C13", "Group ciphers conform to the sender-key scheme and forget used keys",
 "A group peer implemented independently from the sender-key scheme can read the library's distribution and group messages and produce ones the library accepts, in any order. "
 "Each message uses a fresh iteration, key and IV of the sender's chain, and once a message was encrypted or decrypted its key and the chain key it derives from are no longer in the stored group state, which never retains more than 2,000 skipped keys; messages over 25,000 ahead are refused.",
 ["histories", "inputs"], "all key material, all interleavings with an independent peer",
 "Self-interoperation tests accept any symmetric change; stored group state is never inspected after use.",
 GRP + ["message/senderkey.go"], [("chain and message KDFs", "senderkey/keys.go"), ("key trimming and removal", "session/group_state.go")],
 observe=["wire bytes", "GroupRecord state after each call"])

prop("C14", "Arbitrary bytes never crash the library",
 "For every byte string, parsing it as any kind of message, key, stored session, fingerprint or identifier, and passing whatever parses on to decryption, handshake, verification or comparison in any session state, ends with a result or an error and never with a panic or a hang (catching up with a far-ahead message number in a session with one's own identity, which is unlimited by design, is the one call that may take long). "
 "Messages of an unsupported version, public keys that are too short or of another type, and private and symmetric keys of wrong length are always refused.",
 ["inputs", "histories"], "all byte strings at every entry point that takes bytes from outside, in every session state",
 "The tests only parse what the library itself serialized.",
 ["message/signal.go", "message/prekey.go", "message/senderkey.go", "message/plaintext.go", "curve/public.go", "curve/private.go", "curve/curve25519/curve25519.go", "session/session.go", "session/record.go", "fingerprint/scannable.go", "distribution/id.go", "crypto/aes/aes.go"],
 [("length, version and type checks of the parsers", "message/*.go, curve/*.go"), ("errors of key agreement and lookups propagated", "session/session.go")],
 observe=["every New...FromBytes constructor", "Session.DecryptMessage", "GroupSession.DecryptMessage"])

prop("C15", "Serialization is faithful",
 "Every message, key and identifier the library builds parses back to one with identical contents, and every message it parses re-serializes to exactly the bytes received. "
 "Wire contents equal what the builder was given for every value of every field, including absent versus zero pre-key ids, extreme 32-bit numbers and empty or large ciphertexts, and each message's wire format is the published protobuf format behind its version byte.",
 ["inputs"], "all field values of all message, key and identifier types",
 "One fixed value per message type is round-tripped.",
 ["message/signal.go", "message/prekey.go", "message/senderkey.go", "message/plaintext.go", "curve/djb_public.go", "curve/djb_private.go", "distribution/id.go"],
 [("protobuf encoding with version prefix and trailer", "message/*.go")],
 observe=["Ciphertext.Bytes", "New...FromBytes", "getters"])

prop("C16", "Signatures verify exactly for the key and message that made them",
 "A signature made with a private key verifies under its public key for exactly the signed message (however the message is split into parts), is a valid Ed25519/XEdDSA signature for an independent verifier, and never verifies after any change to the message, the signature or the curve point that is the key, or when its length is wrong. "
 "Signature nonces never repeat for different messages or private keys, even if the random source repeats, nor for the same message when the random bytes differ.",
 ["inputs"], "all private keys, messages, part splits, random bytes and alterations",
 "One vector and 50 random keys with one alteration each; nonce behaviour is not tested.",
 ["curve/curve25519/curve25519.go", "curve/curve25519/util.go", "curve/djb_public.go", "curve/djb_private.go"],
 [("XEdDSA", "curve/curve25519/curve25519.go"), ("Montgomery to Edwards conversion with sign bit", "curve/curve25519/util.go")],
 observe=["PrivateKey.Sign", "PublicKey.VerifySignature", "curve25519.VerifySignature"])

prop("C17", "Key agreement and keys behave as X25519 prescribes",
 "For every pair of key pairs both sides compute the same shared secret, equal to X25519; a public key that would force an all-zero secret is refused. "
 "A private key's public key is its X25519 public key, keys keep their value through serialization, key equality is equality of value, and private keys of wrong length and public keys that are too short or of another type are refused.",
 ["inputs"], "all private keys (including unclamped and extreme ones) and all public-key encodings, including low-order and non-canonical points",
 "One vector and 50 random pairs; low-order points, equality and length checks are not covered.",
 ["curve/curve25519/curve25519.go", "curve/djb_private.go", "curve/djb_public.go", "curve/pair.go", "curve/private.go", "curve/public.go", "identity/keys.go"],
 [("crypto/ecdh with clamping", "curve/curve25519/curve25519.go"), ("type byte and length checks", "curve/public.go, curve/private.go")],
 observe=["PrivateKey.Agreement", "PrivateKey.PublicKey", "PublicKey.Equal"])

prop("C18", "AES-CBC encryption is exact and refuses malformed input",
 "For every key, IV and plaintext of any length, decryption of the encryption returns the plaintext, the ciphertext is standard AES-CBC with PKCS#7 padding and is longer than the plaintext by 1 to 16 bytes. "
 "Wrong key, IV or ciphertext lengths and any padding that is not PKCS#7 are refused with an error.",
 ["inputs"], "all keys, IVs, plaintexts and ciphertexts",
 "One vector and 17 short strings; multi-block data and malformed padding bytes are not covered.",
 ["crypto/aes/aes.go"], [("padding and unpadding", "crypto/aes/aes.go"), ("length checks", "crypto/aes/aes.go")],
 observe=["aes.CBCEncrypt", "aes.CBCDecrypt"])

prop("C19", "Fingerprints agree between honest parties and only between them",
 "Two parties that hold the same pair of identities and identity keys compute the same 60-digit displayable fingerprint, and their scannable codes match each other, for every version, identifier and allowed iteration count; the digits are the ones the published algorithm prescribes. "
 "If either identity key, either identifier or the iteration count differs, the displayed fingerprints and codes do not match; a malformed code, or one whose version or contents were altered, is never reported as a match; iteration counts outside 2 to 1,000,000 are refused.",
 ["inputs"], "all identities, keys, versions and iteration counts, all alterations of a scanned code",
 "Two fixed vectors and one mismatch of each kind.",
 ["fingerprint/fingerprint.go", "fingerprint/displayable.go", "fingerprint/scannable.go", "fingerprint/encode.go"],
 [("iterated SHA-512", "fingerprint/fingerprint.go"), ("ordered concatenation", "fingerprint/displayable.go"), ("crosswise constant-time comparison", "fingerprint/scannable.go")],
 observe=["fingerprint.New", "Scannable.Compare"])

prop("C20", "Alternate-identity signatures are bound to both identities",
 "An alternate-identity signature verifies exactly under the signing identity and for exactly the identity it was made for: never for another signer, another or exchanged identity, or after alteration. "
 "It is interchangeable with no other signature: an ordinary signature over the same key never verifies as an alternate-identity one, nor the other way round, and it conforms to the published signed format.",
 ["inputs"], "all identity key pairs and alterations", "One triple of keys is tested.",
 ["identity/keys.go"], [("domain-separating prefixes", "identity/keys.go")],
 observe=["KeyPair.SignAlternateIdentity", "Key.VerifyAlternateIdentity"])

prop("C21", "Independent sessions can run concurrently without interference",
 "Parties with separate stores can establish sessions, encrypt, decrypt, sign, verify and fingerprint from different goroutines, sharing identity keys, pre-key bundles and received message objects, without data races, and every result is the one a sequential execution gives.",
 ["schedules"], "all schedules of operations on separate stores, with shared immutable keys, bundles and messages",
 "The tests are single-threaded.",
 ["session/cipher.go", "session/group_cipher.go", "curve/curve25519/curve25519.go", "curve/djb_public.go", "message/mac.go", "ratchet/keys.go", "fingerprint/fingerprint.go", "identity/store_inmem.go"],
 [("no package-level mutable state; keys and messages immutable", "all packages")],
 observe=["Go race detector reports", "results of concurrent operations"])

prop("C22", "Secrets come in full from the random source, or the call fails",
 "Every generated key, ratchet step, sender key and signature nonce is drawn in full from the supplied random source, however the source splits its reads, and depends on all of its bytes; a nil source means the system's. "
 "If the source fails or ends early the call returns an error and produces no key, signature, message or stored session. Keys of different generations, sessions and ratchet steps are always different.",
 ["fault_sequences", "inputs"], "all random sources: failing at every read and byte position, returning short reads, repeating, nil",
 "The tests always use a working system source.",
 ["curve/curve25519/curve25519.go", "curve/djb_private.go", "curve/pair.go", "identity/keys.go", "session/session.go", "session/cipher.go", "session/group_session.go"],
 [("io.ReadFull with error propagation", "curve/curve25519/curve25519.go, session/group_session.go")],
 observe=["io.Reader passed by the caller"])

prop("C23", "Secrets never reach logs or error messages",
 "No log output, error text or other output of the library contains a plaintext, private key, root, chain or message key, or shared secret, in raw or printable form, whether calls succeed or fail.",
 ["histories", "inputs"], "all operations, successful, refused and failing, at any log verbosity",
 "No test reads the logs.",
 ["session/cipher.go", "session/session.go", "session/group_cipher.go", "session/group_session.go", "message/signal.go", "perrors/errors.go"],
 [("only addresses, counters and public values are logged", "session/*.go, message/signal.go")],
 observe=["glog files, stdout, stderr", "error strings"])

prop("C24", "In-memory stores are exact, isolated maps",
 "Each in-memory store returns exactly the last value stored under precisely the requested key - address name and device, pre-key id, or sender and distribution - and reports absence otherwise; storing, deleting or clearing affects nothing else, and the local identity and registration id never change. "
 "Changing a loaded session or group record without storing it back, or changing a record after it was stored, does not change the store.",
 ["histories", "inputs"], "all sequences of store operations over all keys",
 "The stores are exercised with one or two keys each.",
 ["session/store_inmem.go", "identity/store_inmem.go", "prekey/store_inmem.go", "protocol/store_inmem.go", "address/address.go", "distribution/id.go"],
 [("maps keyed by comparable structs", "*/store_inmem.go"), ("records copied on load and store", "session/store_inmem.go")],
 observe=["Load, Store, Delete, Clear"])

prop("C25", "Caller-owned memory is never touched or captured",
 "No call changes the bytes of a slice its caller passed in, including spare capacity behind it, nor the contents of a message, bundle or key object passed in. "
 "Overwriting an input slice after the call, or a slice returned by the library as key bytes or plaintext, does not change any public, private or identity key, stored session, pre-key or group state.",
 ["inputs", "histories"], "all calls taking or returning byte slices, with any length and spare capacity",
 "The tests never inspect buffers after a call.",
 ["crypto/aes/aes.go", "curve/public.go", "curve/djb_public.go", "curve/djb_private.go", "curve/curve25519/curve25519.go", "session/group_state.go", "session/cipher.go", "session/group_cipher.go", "prekey/prekey.go"],
 [("copies on the way in and out", "curve/*.go, session/group_state.go"), ("padding into a new buffer", "crypto/aes/aes.go")],
 observe=["buffers around each call"])

prop("C26", "A session survives being saved and restored at any point",
 "Serializing a session's current state after any call and continuing with the restored session behaves exactly like continuing with the original: the same messages are accepted with the same plaintexts, the same ones are refused, messages sent afterwards are accepted by the peer, and the restored state serializes to the same contents.",
 ["crash_points", "histories"], "every point of every history of a session as the save/restore point, on either side",
 "No test serializes a session.",
 ["session/record.go", "session/state.go"],
 [("state kept in one protobuf structure", "session/state.go (Bytes), session/record.go (NewRecordBytes)")],
 observe=["Record.State().Bytes()", "session.NewRecordBytes"])

prop("C27", "A call touches only its own session or group",
 "Every encrypt, decrypt, bundle-processing and sender-key call passes the caller's context to every store access, and writes only records of its own: the session and identity of its remote address, the one-time pre-key the message names, or the sender key of the sender and distribution it is for. "
 "All other sessions, groups, identities and pre-keys stay exactly as they were, however similar their names, device numbers or ids.",
 ["histories", "inputs"], "all histories of calls among parties, devices and distributions, however similar their names and ids",
 "The tests use two parties with one device and one distribution each, and a background context.",
 ["session/session.go", "session/cipher.go", "session/group_session.go", "session/group_cipher.go", "session/x3dh.go", "address/address.go"],
 [("stores addressed by the remote address and the named ids only", "session/*.go"), ("ctx handed through to the stores", "session/*.go")],
 observe=["every store access with its context and key", "contents of all stores before and after each call"])

prop("C28", "Both sides settle on one session",
 "An accepted one-to-one message makes its session the receiver's current one, in which everything it sends travels until a message of another session is accepted or a bundle is processed. "
 "Hence whatever happened before - simultaneous initiations, lost or late handshakes, repeated re-establishment - once one message and one reply to it have been delivered both parties send in the same session, without handshake, and each needs only that session to read the other.",
 ["histories", "schedules"], "all histories of initiations, re-establishments, losses and late deliveries, on both sides",
 "One test has simultaneous initiations in one fixed order.",
 ["session/cipher.go", "session/record.go", "session/session.go", "session/state.go"],
 [("PromoteOldState / ArchiveCurrentState / PromoteState", "session/record.go"), ("clearing of the unacknowledged pre-key message", "session/cipher.go")],
 observe=["current session of the stored record", "form and openability of the next messages"])

prop("C29", "A refusal tells the caller why",
 "A call that fails returns no plaintext and no message, and its error tells the distinguishable causes apart: "
 "untrusted identity, for the remote address, exactly when the trust decision refused it; session not found, for the remote address, exactly when no session with it is stored; "
 "duplicate exactly for a message whose position its chain has passed and whose key is not kept; no current session exactly for a record without one; and a failing store's own error. "
 "No other failure (forged, misaddressed, too far ahead, unknown pre-key) is reported as one of these; only a handshake naming an identity other than its session's may be called untrusted.",
 ["histories", "inputs", "fault_sequences"], "all histories of calls, trust decisions, altered, repeated and stray messages, and store failures",
 "The tests compare the error of one duplicate and a few untrusted cases on two-message histories.",
 ["perrors/errors.go", "session/cipher.go", "session/session.go", "session/group_cipher.go", "session/record.go"],
 [("errors of each kind", "perrors/errors.go"), ("order of trust, duplicate and MAC checks", "session/cipher.go, session/session.go")],
 observe=["returned values and error chain", "trust decisions given during the call", "stored record before the call"])

prop("C30", "No hidden state between calls",
 "What a call returns and stores depends only on the contents of the stores it is given, its arguments and the bytes its source of randomness yields. "
 "It makes no difference which session object makes it, how often or for whom that object was used before, whether the stores were set back or changed meanwhile or keep serialized sessions, what else the process did, or whether the process was restarted. "
 "The same holds for the key, signature, cipher, fingerprint and message functions, of their arguments alone. (Only the name of a new sender key is drawn from the system.)",
 ["histories", "schedules", "crash_points"], "all histories of calls by all objects, parties and processes, and all points at which a call is repeated",
 "The tests make every call once, with objects that live for a short conversation.",
 ["session/session.go", "session/cipher.go", "session/group_session.go", "session/group_cipher.go", "session/record.go", "fingerprint/fingerprint.go", "curve/pair.go", "message/signal.go"],
 [("session objects hold an address and stores only", "session/session.go, session/group_session.go"), ("no package-level mutable state", "whole repository")],
 observe=["results and store contents of repeated calls", "transcripts of histories in separate processes"])

prop("C31", "A stored session is the whole session, in the published format",
 "At any point a party's serialized session has the published storage format and is all there is to the session: an independent implementation which is given it reads every message still due within the retention limits, refuses those already read, and is understood by the peer; and the library goes on likewise with a session stored by an independent implementation. "
 "It names version 3, both identities and both registration ids, the base key (the same on both sides) and, exactly until the first reply was read, the pending handshake's pre-key ids and base key. What the accessors of a record and its state tell is what is stored.",
 ["histories", "crash_points"], "all histories of messages in both directions, and all points at which a session is moved between implementations",
 "The tests restore no session from bytes which the library did not write itself, and read few of its contents.",
 ["session/state.go", "session/record.go", "session/session.go", "session/cipher.go", "proto/v1/storage.proto"],
 [("stored structure and its accessors", "session/state.go"), ("registration ids and base key set at establishment", "session/session.go")],
 observe=["State.Bytes and NewRecordBytes", "Record and State accessors", "traffic after the move"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
