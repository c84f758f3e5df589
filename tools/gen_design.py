import json,os,glob
HEAD='''# Runtime monitoring of RTann/libsignal-go — design

Technique family: runtime monitoring and sanitizers. Every check runs the real library, compiled from `/repo`'s
working tree, under generated workloads, while monitors observe what it does and oracles judge the observations.
Nothing is proved; a check that exits 0 says that no execution it produced broke the property. The evidence files
say which executions those were.

## 1. What is observed, and where

The library (Go module `/repo/protocol`: sessions, ratchet, sender keys, messages, keys, fingerprints, stores) has no I/O and no
goroutines of its own. Everything it does passes one of these boundaries, and each has a monitor. No hooks in /repo
were needed (MANIFEST: guard "none"), so the checks do not depend on how the code is written:

| boundary | monitor |
|---|---|
| API results and errors | every call of a simulation passes `begin`/`done` (`sim.go`, `gsim.go`); judged by oracles |
| `session.Store`, `session.GroupStore`, `prekey.Store`, `identity.Store` | `Party` (`lib.go`) implements all of them around the library's in-memory stores: logs every access with key and context, can make any access fail, decides trust by policy, takes snapshots, forks (a byte-exact copy of all a party stores) |
| random source | scripted readers: counted, splitting, failing at a byte, repeating, one byte changed, exchanged for nil |
| wire bytes | independent codec (`ref/wire.go`) |
| stored sessions and sender keys | serialized and read by the independent codec (`structOf`), and searched by reflection for secret bytes (`watch.go`), including unexported fields |
| standard output/error, log output, files | file-descriptor capture (C23) |
| memory accesses between goroutines | Go race detector (C21) |
| process fate | every workload runs in a child process; a supervisor (`sup.go`) turns a fatal error, a stack overflow, an out-of-memory end or a call that makes no progress into a verdict of C14 (or a violation of the property whose call did it) |

Three oracles:
1. **Delivery model** (`model.go`): knows no cryptography. It follows, per party and peer, sessions (current, archived),
   receiving chains, indices and skipped positions, and predicts accept / duplicate / refuse with the reason (how the
   message is found). `gsim.go` has the same for sender keys. Used by C01–C06, C08–C13, C23, C25–C30.
2. **Reference peer** (`ref/`): X25519/Ed25519/XEdDSA (math/big and Go's crypto), HKDF, X3DH, Double Ratchet, sender
   keys, fingerprints, protobuf codec, written from the specifications; checked by `ref_test.go` against RFC vectors.
   Forges, interoperates, and recomputes every key so that "what must be gone" is known.
3. **Twins**: a second execution which must not differ: unfaulted (C04), never-restored (C26), sequential and solitary
   (C21), new objects / other process (C30).

Execution frame (`frame.go`): a check is a fixed list of cases, each with a random generator derived from
(VERIF_SEED, tier, case name, number). No oracle uses time, so a check is a function of the code and the seed. Every check has
`Require` thresholds: if the events that it exists for were not observed often enough it does not pass ("INCONCLUSIVE",
exit 2), which protects against workloads that silently stop reaching anything. Thresholds are at most two thirds of
what is observed, so behaviour-preserving edits cannot trip them. Violations are written with the events
of the case to `/verif/replays/<ID>-<seed>-<n>.json`; `./check.sh C01 -case 'sim#12'` runs one case again.
Evidence counts events, states seen (`distinct_nontrivial` by the key given in "rule") and samples of real traces.

## 2. Properties

All 31 are decided with this family; `not_applicable` is empty. "Cost" is the time of the quick tier on 8 idle cores;
thorough runs the same generators 10–60 times longer with other seeds. For what the existing tests do, "61 tests"
means: fixed vectors, one scripted conversation of each kind, and parsers on well-formed input.

'''
P={
'C01':('random schedules (2–3 parties, reordering, loss, late arrival, restarts, simultaneous initiation, re-establishment, messages to oneself), plus directed runs to the exact limits: 25,000 ahead, 2,000 skipped, 5 chains, 40 archived sessions, message numbers of tens of thousands and crossing 2^16/2^32 edges, late messages a power of two apart, losses filled in after later losses',
 'delivery model: "accept" means the plaintext must come out','26 s','a retention bug shows only after dozens of ratchet steps and particular gaps; tests have at most one gap'),
'C02':('the same schedules; each accepted message is presented again at once, at random later points, unwrapped, re-wrapped, after restart and re-establishment, and in whole-history sweeps; in chains of 2^17 messages next to outstanding messages a power of two away',
 'no second plaintext; duplicate error while the model says the chain is retained','30 s','whether a key survives depends on what else is outstanding'),
'C03':('messages in flight altered in every byte, cut, extended, spliced, renumbered, reflected, misdirected, forged from partial knowledge, presented to forks of receivers in random states; MAC verification function called with exchanged roles and identities',
 'book of everything sent: output must be a genuine authenticated message of the attributed peer','10 s','tests alter one byte of one message'),
'C04':('(a) refused inputs of all kinds at random points of histories, whole store compared byte for byte; (b) fault enumeration: for calls of each kind at random points, every store operation and every byte of randomness fails in turn, and random pairs; then retry and further traffic',
 'snapshot equality; unfaulted twin','20 s','tests use stores which never fail'),
'C05':('reinstalling users, approvals and disapprovals, archived sessions of old identities, random policies per (address, key, direction), and the in-memory trust store',
 'policy evaluated on the key which owns the session, against what was asked, pinned, emitted and accepted','5 s','tests trust everybody'),
'C06':('forged bundles (each bit of signature, each byte of keys, other signers), ids over 32 bits, unknown / spent / re-issued pre-keys, bundles shared by several initiators, retransmitted handshakes',
 'pre-key inventory model and wire parser','5–11 s','tests have one valid bundle'),
'C07':('conversations of the library with the reference peer in both roles, reordered, to the windows\' limits; KDFs compared directly',
 'reference peer: each wire field and tag','4 s','library-to-library tests pass when both sides are wrong alike'),
'C08':('conversations; before each call the reference key schedule derives from the stored state all keys that the call spends; afterwards everything reachable from stored records (current, archived, initiator\'s handshake keys) is searched for every key ever spent',
 'membership of spent keys; size bounds; freshness of ratchet keys','5 s','what is left over is invisible in results'),
'C09':('several senders, receivers, distributions; lost and reordered messages, late joiners, repeated distribution, rotation with and without reused chain ids; messages up to 17 MB; gaps and far distances as in C01; limits',
 'group delivery model','15 s','as C01'),
'C10':('every accepted group message again: at once, later, after redistribution, at the end','group delivery model: duplicate','5 s','as C02'),
'C11':('an outsider and fellow members knowing all chain keys present altered, re-signed, spliced, renumbered, misattributed messages (also to the sender itself, and for iterations to come); each byte of message and signature altered',
 'bit-for-bit book of genuine messages','7 s','tests have no hostile member'),
'C12':('rotations, reused chain ids, re-processed old and new distribution messages, senders processing their own; random AddState sequences','record model after each call; distribution messages searched for spent keys','5 s','tests never rotate five times'),
'C13':('library senders with reference receivers and the reverse; windows of 2,000 and 25,000; a chain of 17,000 sent messages','reference sender keys; search of stored state','14 s','as C07/C08'),
'C14':('structure-aware and byte-wise mutation of messages, keys, stored sessions, codes, ids from running conversations, re-authenticated with known keys so that they get deep; parsed values go on to every consumer in many session states',
 'panic / fatal error / no progress; refusals of malformed keys and versions','35 s','tests parse well-formed data'),
'C15':('built, foreign-encoded (order, unknown fields, long varints) and mutated messages','independent codec, getter by getter','4 s','edge values and absent fields are not in the tests'),
'C16':('parts split in many ways, ordinary and extreme keys, every bit flipped, order added, repeating random sources; messages up to 17 MB changed at the end','independent XEdDSA; nonces recomputed from signatures','6 s','fixed vectors only in the tests'),
'C17':('random and extreme scalars, low-order / twist / non-canonical points, every constructor','independent X25519','10 s','same'),
'C18':('all lengths to 300, up to megabytes, every padding','standard library CBC, independent PKCS#7','2 s','same'),
'C19':('identifiers of all kinds and up to a megabyte, iteration counts with their edges and high ones, one part changed on one side, codes altered per byte and field','independent digits and independent reader of codes','11 s','same'),
'C20':('sets of identities incl. equal and one bit apart, exchanged roles, ordinary signatures over parts of the format','independent verifier of the published format','12 s','same'),
'C21':('8–16 parties per world sharing keys, bundles, message objects, from a common start with injected yields; each child starts with concurrent first use; race-instrumented build',
 'race detector (a deliberate race checks that it works), and equality with sequential and solitary executions','22 s','the tests are sequential'),
'C22':('every call that takes randomness, with sources that fail at every byte, split reads, differ in one byte, are nil; also ratchet steps of archived sessions',
 'error and no output; result depends on each byte; keys never repeat','6 s','tests use crypto/rand'),
'C23':('failing calls of all kinds at full verbosity; all output, errors, emitted messages and files',
 'secret membership in some 20 encodings of every 8-byte window of every secret; leak controls in each run','139 s (serial, it owns the process\' output)','tests do not look at logs'),
'C24':('random operations on two instances of each store over colliding keys; records changed after load or store; stores with thousands of entries','reference maps','4 s','tests have two keys'),
'C25':('all inputs in canary-filled arrays with spare capacity; inputs and outputs overwritten afterwards','canaries, accessors, stored state, continued traffic','4 s','aliasing is invisible unless buffers are reused'),
'C26':('twin executions, one with sessions serialized and restored at arbitrary points; generated states with extreme fields; sessions of the largest size','equality of acceptance, plaintext, error kind, contents','9–17 s','tests restore one fresh session'),
'C27':('parties with nearly equal names, devices, distributions; every store access logged with key and context','allowed accesses per call; all stores of all parties compared','5 s','tests have two parties with unlike names'),
'C28':('many simultaneous and repeated handshakes, losses; at many points traffic is dropped and one message and one reply exchanged','current session = session of the last accepted message; copies which hold only that session read the rest','15 s','needs histories with several live sessions'),
'C29':('conversations under changing trust, replays, alterations, strays, missing sessions, failing stores','the reported error kind against what the monitor saw happen','19 s','tests check errors for nil only, mostly'),
'C30':('each call of random histories made again: new objects, kept objects on rolled-back / changed / serialized stores, other process; one object used for thousands of calls next to new ones; pure functions in other orders','equality of results, error kinds, stored contents','13 s','hidden state needs a history to show'),
'C31':('conversations in which sessions move between the library and the reference implementation through their stored form, at random points and with full windows','reference codec of storage.proto; contents, accessors, continued traffic','9 s','the tests restore nothing they did not just write'),
}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
seeds={}
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json')); seeds.setdefault(m['property'],[]).append((os.path.basename(d[:-1]),m['needs']))
b=[HEAD]
for p in props:
    w,o,c,y=P[p['id']]
    b.append(f"**{p['id']} {p['title']}.** Workload: {w}. Oracle: {o}. Cost: {c}. Beyond the tests: {y}.\n\n")
TAIL=open('/verif/tools/design_tail.md').read()
b.append(TAIL)
b.append("\n## 6. Planted bugs and the checks that catch them\n\nEach compiles, passes the 61 tests, has a demonstration which passes without it, and was confirmed by `tools/mkseeds.py`\n(sources in `tools/seeds/`). `tools/campaign.py own` runs the check of the bug's own property; all are caught by it (exit 1,\nVIOLATION line). Some are also caught by others; only the own one is listed.\n\n| planted bug | caught by | needs |\n|---|---|---|\n")
for k in sorted(seeds):
    for s,n in seeds[k]: b.append(f"| {s} | {k} | {n} |\n")
open('/verif/DESIGN.md','w').write("".join(b))
