#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = "".join(open(os.path.join(root, "harness/vmon", f)).read() for f in sorted(os.listdir(os.path.join(root, "harness/vmon"))) if re.match(r"c\d\d\.go$", f))
have = set(re.findall(r'ID:\s*"(C\d\d)"', src))
T = {
"C01": ("online delivery monitor over randomized reordering, loss, restart and re-establishment", "every send/deliver is recorded; an online model of the retention rules decides which messages must decrypt and to what"),
"C02": ("online at-most-once monitor with replay injection", "each accepted message is replayed in many later states and forms; any second plaintext or wrong refusal is flagged"),
"C03": ("hostile-message injection with authenticity oracle", "messages altered per field/byte, cross-wired or forged with a reference implementation; any plaintext not sent by the attributed peer is flagged"),
"C04": ("fault injection at every store call and random-source read, with state snapshots", "every fault point reached by each scripted call is enumerated; snapshots before/after and a fault-free twin are compared"),
"C05": ("identity-store trace monitor under hostile trust policies", "records what was asked, pinned and emitted under every trust policy and checks it against the policy"),
"C06": ("handshake trace monitor with pre-key accounting", "tracks pre-keys held, named, consumed and reused; injects forged bundles and replayed or re-wrapped handshakes"),
"C07": ("differential execution against an independent Double Ratchet implementation", "an independently written X3DH/Double Ratchet peer talks to the library in both roles and checks every wire field and tag"),
"C08": ("state inspection monitor with shadow key schedule", "a shadow key schedule computes the keys which must be gone; the stored record is scanned after every call"),
"C09": ("online group delivery monitor over randomized orders, losses and rotations", "a model of group retention decides which messages must decrypt"),
"C10": ("online group at-most-once monitor with replay injection", "each accepted group message is replayed in later states"),
"C11": ("hostile group-message injection with authenticity oracle", "altered, re-signed and misattributed group messages; any plaintext is flagged"),
"C12": ("sender-key record monitor over randomized distribution histories", "a model of the five-entry record is compared with the stored record after every call"),
"C13": ("differential execution against an independent sender-key implementation", "an independent sender-key peer in both roles, and scans of the stored state for used keys"),
"C14": ("crash, panic and hang monitor over structure-aware mutated input", "every parser and every consumer of parsed values, in many session states; panics, fatal errors and hangs are flagged"),
"C15": ("round-trip and wire-contents monitor against an independent codec", "boundary and random field values compared with an independently written protobuf codec"),
"C16": ("signature monitor against an independent XEdDSA/Ed25519 verifier", "random, boundary and mutated signatures; a nonce-reuse detector under repeating random sources"),
"C17": ("differential monitor against an independent X25519", "random and special points and scalars"),
"C18": ("differential monitor against standard-library AES-CBC", "all lengths up to a bound and all paddings"),
"C19": ("differential fingerprint monitor and pairwise comparison oracle", "independently computed digits; mutated codes"),
"C20": ("alternate-identity signature monitor against an independent verifier", "all role exchanges and mutations"),
"C21": ("race detector and sequential-equivalence monitor under concurrent stress", "race-instrumented build; the concurrent results are compared with those of a sequential execution"),
"C22": ("random-source monitor with fault and short-read injection", "every read size and failure position of every operation is enumerated"),
"C23": ("secret-taint scan of captured logs, errors and output", "all secrets of the run, in many encodings, searched for in everything printed at full verbosity"),
"C24": ("store monitor against a reference map with aliasing probes", "random operation histories over colliding keys"),
"C25": ("canary-buffer monitor for caller memory", "inputs with guarded spare capacity; inputs and outputs overwritten after the call"),
"C26": ("lock-step twin monitor across save and restore", "a restored twin runs the same traffic as the original"),
"C27": ("store-access trace monitor with per-call contexts, and whole-store comparison", "every store access of every call is recorded with key and context; the stores of all parties are compared before and after each call"),
"C28": ("convergence monitor over randomized histories with copies holding one session only", "after every accepted message the receiver's current session is compared with the message's, and copies holding that session only must read what follows"),
"C29": ("error monitor over randomized histories with trust changes, altered messages and store faults", "what each call reports is compared with the trust decisions, stored sessions and chain positions the monitor saw"),
"C30": ("differential re-execution of every call of randomized histories (new and long-lived objects, rolled-back, changed and serialized stores, separate processes)", "results, error kinds and store contents of re-executions are compared with the original call"),
"C31": ("differential continuation of stored sessions by an independent implementation, in both directions", "stored sessions are read, compared with the conversation, continued and written by independently written code"),
}
level = {"C04": "fault_enumeration", "C22": "fault_enumeration"}
checks, na = [], []
for p in sorted(T):
    if p in have:
        tech, note = T[p]
        checks.append({
            "property": p,
            "quick_cmd": f"./check.sh {p}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
            "technique": "runtime monitoring: " + tech,
            "level": level.get(p, "exploration"),
            "level_note": "Observes real executions only: " + note + ". Trusts the Go toolchain and the harness's reference code; says nothing about executions it did not run.",
        })
    else:
        na.append({"property": p, "reason": "no check built yet"})
m = {"version": 1,
     "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the monitors use the public API, store and random-source interfaces and reflection", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "known findings and repaired defects: known-findings.txt"}
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
