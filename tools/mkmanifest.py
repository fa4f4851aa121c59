"""Writes MANIFEST.json from the property list."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    props[p["id"]] = p
NA = {
    "C13": "A single compression is a pure function of chaining value and block: no schedule, clock, I/O, fault or other party takes part, so there is nothing for a simulator to decide. (Its consequences for streams are part of C01, C07 and C09.)",
    "C14": "A fact about exported declarations, settled when a client is compiled; no execution, schedule or fault is involved. DESIGN.md records that CalculateDvMask differs between the two builds.",
    "C15": "A probability bound of 2^-90 over uniformly random messages: no number of simulated runs can observe or refute it, and no schedule or fault influences it.",
}
NOTE = {
    "C01": "seeded runs over streams x delivery schedules x reader faults x engines, every observation compared with an independent reference; plus deliveries beyond 4 GiB compared with the standard library's SHA-1",
    "C02": "seeded histories of writes, saves, disk faults, crashes and restores, also across engines and architectures (states saved by one build restored by another); every later observation and every saved state compared with the reference",
    "C03": "seeded stored-state faults (torn, over-long, bit-flipped, foreign, garbage) at arbitrary points of a history; error, unchanged state and later behaviour compared with the reference",
    "C04": "seeded interleavings of observations with writes at every block offset, on attack and innocent streams, compared with the reference",
    "C05": "seeded histories, including faulted ones and pooled reuse, before and after resets, compared with a new reference",
    "C06": "real library code run under a seeded scheduler that switches goroutines between any two Go statements and any two C basic blocks; every instance compared with a reference that is alone",
    "C07": "seeded streams with real published collision blocks, synthetic attack blocks for all 32 vectors (block built to meet a vector's bit conditions; the vector's message difference in the shared list replaced so that the block is an attack), near misses, attacks in the padded block and in-transit bit flips, on every engine",
    "C08": "buffers on guard pages, read-only during the call, scribbled or unmapped after it; destinations with canaries; returned values held and compared until the end of the run",
    "C09": "same oracle on seven builds and three instruction sets, engine switched between calls, states carried between architectures, caller-saved registers filled with junk before every assembly call",
    "C10": "return values and panics on all histories; step bound per call; stall schedules in which every other goroutine is parked mid-call while one runs alone",
    "C11": "several goroutines observe one instance under seeded statement-level interleavings, each answer compared with the lone reference",
    "C16": "concurrent histories, warm and as the first thing a process does, under a seeded scheduler whose own hand-overs are hidden from the race detector: only synchronisation of the library and of legitimate hand-overs orders accesses; Go code is watched by the Go race detector, C code by access recording of our own",
    "C12": "screening calls on crafted blocks (each condition of each vector met or broken alone) and list reads, interleaved with hashing of attack streams at statement level; compared with an independently derived table",
}
checks = []
for i, p in props.items():
    if i in NA:
        continue
    checks.append(dict(
        property=i,
        quick_cmd="python3 run.py check %s --tier quick" % i,
        thorough_cmd="python3 run.py check %s --tier thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique="deterministic simulation with fault injection: seeded schedules and faults over the real library, checked against an executable reference model",
        level="exploration",
        level_note="Seeded search, not proof: " + NOTE[i] + ". Trusts the reference model in sim/ref and, for arm, arm64 (and s390x, 386 in the thorough tier), qemu-user."))
m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks,
         not_applicable=[dict(property=i, reason=NA[i]) for i in props if i in NA],
         notes="No hooks are committed in /repo: instrumentation is generated at check time from the working tree and put in place with go build -overlay. /repo has three fix: commits (KNOWN_FINDINGS.txt).")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
