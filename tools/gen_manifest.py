#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below (run by hand after a change)."""
import json, os
T = {
 "C01": ("exhaustive exploration of attacker action sequences (Dolev-Yao network, three sessions) on the real code, with an oracle that judges every delivered CONNECT/ACK and the completion", "model_checking", "All sequences of up to 3 actions from the full attacker list and up to 4 (thorough 6) from the core list, man-in-the-middle histories, every single-byte alteration of CONNECT and ACK incl. messages with much custom data, both modes, with and without pinned key."),
 "C02": ("exhaustive exploration: every listed alteration or splice of user messages at every stage of the session, against a ledger of what the peer wrote and the reference model", "model_checking", "Every single bit, every truncation, splices between messages and sessions, at every stage."),
 "C03": ("exhaustive exploration of delivery sequences with repetition in lock step with a reference receive window", "model_checking", "All sequences with repetition over small sets of message numbers incl. the extremes of 64 bits with completion at any point; streams of up to 66,000 messages in every listed order with three replay policies; windows of up to 10,000 held-ahead messages replayed completely."),
 "C04": ("exhaustive exploration of arrival orders with duplicates and completion at any point in lock step with a reference receive window, including the exact 10,000-message boundary", "model_checking", "All permutations of small sets with duplicates, all subsets of delayed messages, several fill patterns of the window to exactly 10,000 and one more, streams of 66,000."),
 "C05": ("explicit exploration of all interleavings of two real endpoints over a network that delivers each message once in any order", "model_checking", "All interleavings, all pin combinations, both orders of ephemeral keys, both modes, up to the stated number of user messages in each direction."),
 "C06": ("explicit exploration of all sequences of local calls and incoming messages in lock step with a reference status automaton", "model_checking", "All sequences up to the stated depth, nothing merged: every sequence is executed on fresh endpoints."),
 "C07": ("exhaustive enumeration of failure points times follow-up operations", "fault_enumeration", "Every failure cause at every stage, every follow-up operation sequence of the stated depth."),
 "C08": ("exhaustive insertion of rejected messages at every point of every honest order, in lock step with a reference model that ignores them", "model_checking", "Every honest order with up to the stated number of insertions, with and without pinned key."),
 "C09": ("exhaustive enumeration of hostile inputs (all truncations, single-byte values, length fields) at every stage of the negotiation", "exploration", "Every listed input at every stage; panics, overflow, hangs and huge allocations are detected."),
 "C10": ("exhaustive exploration of negotiation orders, sizes and key pairs against an independent reference implementation", "model_checking", "Every emission parsed, verified and decrypted by an implementation that shares no code with the library except the primitives of ring for signatures."),
 "C11": ("exhaustive output fault injection: every plan of faults by write call, buffer capacity, message kind and size", "fault_enumeration", "All single and double fault plans within the bounds."),
 "C12": ("exhaustive enumeration of configurations, sizes, contents and configuration-change sequences between two real endpoints", "exploration", "Full product of the listed values; all change sequences of the stated depth."),
 "C13": ("exhaustive exploration of operation sequences over two handles of a cloned session at every clone point, in lock step with a reference model", "model_checking", "All interleavings of the two handles up to the stated depth."),
 "C14": ("exploration of all histories with every emission scanned for secrets and checked for keystream distinctness", "model_checking", "All histories of the stated depth; every seed byte shown to influence the keys."),
 "C15": ("exploration of all histories with a monitored allocator that scans every released heap block for key material", "model_checking", "Heap only; registers and stack are out of scope."),
 "C16": ("exhaustive enumeration of single-field deviations of genuinely signed, hashed and encrypted messages", "exploration", "All 65536 message types, every byte value of magic, version and algorithm, length deviations, both encryption states."),
 "C17": ("exhaustive enumeration of formats, receiver configurations, values, tags and malformed typed payloads", "exploration", "Full product of the listed values, each followed by a genuine message on the same connection."),
 "C18": ("exhaustive interleaving of several session scripts in one process, each endpoint in lock step with its own reference model", "model_checking", "All interleavings of the scripts at the granularity of calls, and placements of operations in other threads; operations are atomic here; C22 preempts them."),
 "C19": ("exhaustive insertion of refused local calls at every point of every honest order, in lock step with a reference model", "model_checking", "Every honest order with up to the stated number of insertions."),
 "C20": ("exhaustive enumeration of configurations and of all placements of configuration changes in a session, every emission decrypted and its compression and format judged", "exploration", "Full product of levels, thresholds around the size, sizes and messages; all sessions with up to the stated number of changes."),
 "C21": ("exhaustive enumeration of cycles of steps in every stage, repeated under a metering allocator", "exploration", "All cycles up to the stated length; growth is judged over 128 repetitions."),
 "C22": ("exhaustive exploration of all preemptions of one operation by another at machine-instruction granularity on the real binary (one process copy per preemption point and alternative), for writing operations all pairs of preemptions", "exploration", "All pairs of the listed operations; preemption points are the instructions that touch memory visible to other threads (thorough: all instructions of the library); the allocator and the dependencies are not preempted; sequentially consistent memory."),
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
done = [f[:-3].upper() for f in sorted(os.listdir(here + "/mc/src/checks")) if f[0] == "c" and f != "common.rs"]
props = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
m = {
  "version": 1,
  "setup_cmd": "bash check.sh build",
  "checks": [
    {"property": p,
     "quick_cmd": "bash check.sh run %s quick" % p,
     "thorough_cmd": "bash check.sh run %s thorough" % p,
     "technique": T[p][0], "level": T[p][1],
     "level_note": T[p][2] + " Trusted: ring, flate2, serde back ends, the reference implementation in mc/src/refp.rs and the reference model in mc/src/model.rs. The real code in /repo is what is executed."}
    for p in props if p in done],
  "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in done],
  "notes": "No hooks in /repo are needed: everything goes through the public API; randomness and the allocator are owned by the harness binary.",
}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
