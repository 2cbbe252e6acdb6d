#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json
notes = {
 "C01": "put/delete/lookup against a symbolic map model",
 "C02": "inserts and updates: found flag, fetched value, resulting contents",
 "C03": "deletes down to the empty tree and refills",
 "C04": "full iteration against the model, up to three batches",
 "C05": "prefix scans for symbolic prefixes",
 "C06": "MinKey/MaxKey for symbolic prefixes and after deletes",
 "C07": "Len through every allocator and across counter flushes, sequential and concurrent",
 "C08": "symbolic 64-bit values",
 "C09": "stored prefixes of symbolic bytes around every length boundary",
 "C10": "nodes growing to and shrinking from the 256-way form",
 "C11": "Abort at every point leaves no trace",
 "C12": "locks, reservations and pool inspected after every kind of call",
 "C13": "two and three writers under symbolic schedules, all interleavings within the preemption bound: linearizability of their results",
 "C14": "readers and scans against writers under symbolic schedules",
 "C15": "writers on one key under symbolic schedules",
 "C16": "recycled nodes against reservations: arbitrary epochs, and readers under symbolic schedules at epoch changes",
 "C17": "extents of all nodes and free lists disjoint, small blocks",
 "C18": "every slot accounted for after every operation; cycles stop consuming memory",
 "C19": "lock words: arbitrary sequences and symbolic schedules",
 "C20": "pool operations under symbolic schedules",
 "C21": "save and restore round trips",
 "C22": "states cut off anywhere, symbolic bytes in every header line",
 "C23": "every write of WriteState failing",
 "C24": "iterations interrupted by symbolic modifications",
 "C25": "symbolic arguments on new, emptied, filled and restored trees",
 "C26": "every command; symbolic node ids",
 "C27": "two trees with interleaved operations",
 "C28": "nodes, leaves and statistics of a Counter against the path-compressed tree of symbolic keys, also after writers under symbolic schedules",
}
checks = []
for l in open("/verif/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    conc = i in ("C07","C12","C13","C14","C15","C16","C17","C18","C19","C20","C24","C28")
    checks.append({
        "property": i,
        "quick_cmd": "./check " + i,
        "thorough_cmd": "./check %s -tier thorough" % i,
        "technique": "SMT-based symbolic execution of the real Go code (SSA of /repo's current source, z3 bit-vectors)" + (", schedules as symbolic variables" if conc else "") + ": " + notes[i],
        "level": "model_checking",
        "level_note": "Bounded: holds for every value of the symbolic inputs" + (" and every schedule up to the stated number of preemptions (sequentially consistent memory)" if conc else "") + " within the shapes, sizes and numbers of operations listed in the evidence file; nothing is claimed outside them. Counterexamples are reported only after the real code, compiled natively, fails the same way. Trusted: the engine's model of Go SSA (sampled paths are re-executed natively on every run and must agree), z3, the stubs listed in DESIGN.md. Paths the engine cannot decide are listed in the evidence and make a run non-exhaustive.",
    })
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: harnesses and instrumentation are laid over /repo's current source at load time (go/packages and go test overlays)", "source_commits": []},
    "checks": checks,
    "not_applicable": [],
    "notes": "known_findings.json lists the defects repaired in /repo (fix: commits) and the one recorded as known. See DESIGN.md.",
}, open("/verif/MANIFEST.json", "w"), indent=1)
