#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = " Trusts the simulator, its seams and its reference model; explores by seeded search, so absence of a violation is evidence and not proof."
NOTE = {
 "C01": "Seeded simulation of output streams with short, interrupted, zero and failing writes at every position; each encode is compared byte for byte with an independent encoder.",
 "C02": "Seeded simulation of a sender and receiver over a byte pipe that cuts, delays, coalesces and stops at any byte, with an exact frame model.",
 "C03": "Two-node simulation, library against an independent codec, in both directions over a fragmenting, interrupting stream.",
 "C04": "Seeded corruption, truncation, duplication, splicing and hostile length fields applied to traffic in flight; independent decoder as oracle, counting allocator for the memory bound, every panic, abort or hang is a violation.",
 "C05": "Seeded call and message sequences against sessions and connections, with a turn/length model and a completion probe by the genuine peer afterwards.",
 "C06": "Network adversary over several concurrent sessions with an independent Noise implementation able to forge with keys it does not own; the history of who processed what decides every completion.",
 "C07": "Liveness of the fault-free core after arbitrary earlier refused calls, delays and abandoned sessions, at every message size class.",
 "C08": "Two ends over a network that loses, duplicates, reorders, replays, reflects, truncates, extends, modifies and mixes sessions; a per-direction sequence model decides every receive.",
 "C09": "Every encryption in a run is recorded with the keystream it exposed; counters are warped to the exhaustion boundary through the guarded hook, message counts below it are executed for real.",
 "C10": "Authorities, tearing/altering network and a simulated clock; the record of what was signed decides every verification.",
 "C11": "Rekeys and clears at arbitrary points of in-flight traffic in both directions; model of rekey counts per side and direction.",
 "C12": "The real queue runs on real threads single-stepped by the trap flag under a seeded scheduler that owns every futex; linearizability of the history against a FIFO model. Sequentially consistent interleavings only.",
 "C13": "Hostile peers in both roles supply every known low-order point, in all encodings, at both key positions, and near-miss ordinary keys.",
 "C14": "Two-node simulation against an independent Noise implementation (own BLAKE2s, HKDF, ChaCha20-Poly1305, handshake) in both roles, with loss, duplication, reordering and rekeys.",
 "C15": "OS entropy and clock behind interposed system calls, simulated restarts as real fresh processes, threads, and failed calls; distinctness over the history and dependence on entropy by twin runs.",
 "C16": "Memory images of the live session (stack value and every heap block it owns) at arbitrary moments, searched for secrets the simulator knows.",
 "C17": "Whole-deployment discrete-event simulation: pools, miners, impostors, authority, disks, clocks and TCP-like links with crashes, partitions, resets, tampering, skew and torn writes; safety over the whole history and progress within a bound once faults stop.",
 "C18": "2-4 threads each with its own sessions, connection, queue, certificate checks and encoders, sharing only read-only keys and certificates, preempted at single machine instructions by the seeded scheduler; every result must equal that of the same program run alone, keys and ids must be distinct, and no deadlock may arise.",
 "C19": "Long-lived sessions, connections and a queue repeat a random program of traffic, refused input, rekeys, handshakes completed and abandoned, certificates, codec calls on junk and failing streams, with fresh contents each time, under a counting allocator: no growth after settling, all memory back after the drop, peak in proportion to the input.",
 "C20": "A simulated application offers allowed and forbidden values to every constructor and conversion; success exactly when the reference rules allow it, and what was built crosses a faulty stream to a library and a reference peer that read the same values.",
 "C21": "Nodes store private, public, shared and authority keys as text on a disk that tears, cuts, extends, mixes and flips it, crash and restart from what is left; reference hexadecimal and base58 readers decide what the text may stand for, and the restored identity is confirmed by a handshake or certificate check.",
 "C22": "A node's logger follows every error the library returns - text, debug form, chain of causes - while streams, peers, disks, clocks and callers misbehave; chains must end, texts must be present, no private key may show, and stream failures, message types and channel bits must be the ones that occurred.",
 "C23": "A node repeats a random program of calls - traffic, refused and tampered input, rekeys, handshakes, certificates, codec calls, failing streams, draining - up to thousands of times; machine instructions of each call counted by single-stepping, young against old, and at n, 8n and 64n bytes. Third-party primitives count as one charge per call. ",
 "C24": "Sessions and connections go through handshakes and traffic under message faults, out-of-turn calls, rekeys, clears and exhausted message numbers; after every step everything each of them reports is compared with a count of the calls that succeeded and with what it reported on completion, and buffers of refused calls with what was handed in. ",
 "C25": "Key pairs, private and public keys are made from bytes, text, entropy and each other, copied, configured, compared, used in handshakes, wiped and dropped in a random order; a table of the bytes each was made from and a reference X25519 say at every step what each must be, with neighbours differing in one bit among them.",
 "C26": "The same random program of calls, and runs of eighteen other properties, are executed twice with the same entropy in two made-up surroundings (clock, environment variables, process number, contents of fresh memory); everything returned must be equal, certificates follow the clock, and writes, files, sockets, threads, signals and settings are watched at the libc seam.",
 "C27": "Nodes are configured, and threads open, copy, look up, list and close channels on several managers and connections under a scheduler that preempts them at chosen instructions and synchronisation points; the history is checked against a table of what each was opened with and when, and configurations and their copies against what they were given.",
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
ready = set(sys.argv[1:]) or {p["id"] for p in props}
checks = []
for p in props:
    i = p["id"]
    if i not in ready: continue
    checks.append({"property": i, "quick_cmd": "bash check.sh " + i,
      "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
      "evidence_file": "evidence/%s.json" % i,
      "technique": "deterministic simulation with fault injection, seeded search" ,
      "level": "exploration", "level_note": NOTE[i] + TRUST})
m = {"version": 1, "setup_cmd": "bash check.sh build",
 "hooks": {"guard": "cfg(verif_sim)", "enable": "RUSTFLAGS=\"--cfg verif_sim\" (check.sh sets it)",
           "source_commits": ["6cb10c7b67d31eee3a8b1c03a5c48da6968eb209", "4ffae933e3604180ed823c844f53b40c26f0bdfc"]},
 "checks": checks,
 "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in ready],
 "notes": "Design, bounds, findings and the detection table are in DESIGN.md; repaired defects in known_findings.txt."}
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
