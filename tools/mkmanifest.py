"""Writes MANIFEST.json."""
import json, os
NOTE = {
 "C01": "Seeded search: every acknowledged save of every simulated history is reloaded from the raw bytes and compared with a reference model. Trusts the reference model, praatio's reader (the library's own loading path) and the in-process disk.",
 "C02": "Seeded fault enumeration over open/write-offset/close errors, crashes after k bytes, interrupts and memory exhaustion at source lines. The old content of the target is not promised (the file is written in place).",
 "C03": "Seeded fault enumeration over loads; oracle is the generated specification, written to disk by an independent TextGrid writer.",
 "C04": "Seeded search over source-line interleavings of 2-3 simulated threads; oracle is each thread's own run alone in a fresh process. Switches inside C code and inside one source line are not explored.",
 "C05": "As C04, for readers of one shared grid; oracle is each reader's answers alone in a fresh process.",
 "C06": "Seeded search over edit histories with faults; the invariant is evaluated after every step on everything reachable.",
 "C07": "Seeded search over edit histories with faults; the invariant is evaluated after every step on everything reachable.",
 "C08": "Seeded search over edit histories with faults; refinement against a small executable reference model after every step.",
 "C09": "Seeded fault enumeration: 25 kinds of refused edits inside histories; full before/after comparison and comparison with the history without them.",
 "C10": "Seeded search over checkpoint/restart points; a sample of runs restores in a really new interpreter.",
 "C11": "Seeded search over histories rich in level changes; refinement against the reference model plus class-chain and named-access invariants.",
 "C12": "Seeded search over histories; every view is recomputed entry by entry after every step.",
 "C14": "Seeded search over ill-fitting tiers, their loads under faults and interleavings, and histories that make them fit badly again; the oracle compares the tiers before and after relating (labels, order, extents, parents, tightness) and the link invariants. Mismatches below 0.1 ms and, for three or more levels with gaps and mismatches together, the choice of parent are not judged.",
 "C15": "Seeded search over histories and interleavings of PoLaR grids; oracle recomputes every value from labels and times.",
 "C16": "Seeded search over histories and line-level interleavings of class generation, cloning and loading; oracle is the request itself.",
 "C17": "Seeded search over histories and interleavings of calls on lists, tiers and trees outside grids; oracle is a small list model compared after every step. Entries of equal start or equal content in one list are not judged.",
 "C13": "Seeded search over assembly orders and interleavings of producers with duplicate deliveries; oracle is the specification.",
}
TECH = {
 "C01": "deterministic simulation: seeded histories, simulated disk, reference-model comparison of durable bytes",
 "C02": "deterministic simulation with I/O fault, crash and interrupt injection into saves",
 "C03": "deterministic simulation with I/O fault and interrupt injection into loads",
 "C04": "deterministic simulation: seeded line-level thread scheduler, solo-run oracle, kill injection",
 "C05": "deterministic simulation: seeded line-level thread scheduler, solo-reader oracle, kill injection",
 "C06": "deterministic simulation: seeded histories with faults and restarts, link invariant after every step",
 "C07": "deterministic simulation: seeded histories with faults and restarts, hierarchy invariant after every step",
 "C08": "deterministic simulation: seeded histories with faults and restarts, refinement of a reference model",
 "C09": "deterministic simulation with injected refusals and failing callbacks, no-trace comparison",
 "C10": "deterministic simulation of checkpoint, crash and restart at seeded points, model comparison",
 "C11": "deterministic simulation: seeded level-change histories with faults and restarts, refinement of a reference model",
 "C12": "deterministic simulation: seeded histories with faults and restarts, view-versus-entries invariant",
 "C14": "deterministic simulation: seeded histories, interleaved and faulty loads of ill-fitting tiers, before/after relation oracle",
 "C15": "deterministic simulation: seeded histories, restarts, faults and interleaved loads, values recomputed from labels",
 "C16": "deterministic simulation: seeded histories and line-level interleavings of class generation with kills, independence check",
 "C17": "deterministic simulation: seeded histories, duplicates, cut-off calls and line-level interleavings, list model after every step",
 "C13": "deterministic simulation: seeded delivery order and duplication from several producers, convergence check",
}
LEVEL = {"C02": "fault_enumeration", "C03": "fault_enumeration", "C09": "fault_enumeration"}
doc = {
 "version": 1,
 "setup_cmd": "/opt/venv/bin/python -B -c \"import sys; sys.path.insert(0, '/repo/src'); import aligned_textgrid\"",
 "checks": [{"property": p, "quick_cmd": "python3 run.py %s --tier quick" % p, "thorough_cmd": "python3 run.py %s --tier thorough" % p,
             "evidence_file": "evidence/%s.json" % p, "technique": TECH[p], "level": LEVEL.get(p, "exploration"), "level_note": NOTE[p]}
            for p in sorted(NOTE)],
 "not_applicable": [],
 "notes": "No hooks in /repo: every seam (open, rename, locks, line tracing, set order, gc) is outside the library. One command replays a finding: python3 run.py Cxx --replay FILE.",
}
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json")
with open(out, "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
