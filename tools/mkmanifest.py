#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py (claimed) and properties.jsonl (all)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS
NA = {
    "N01": "a pure function of its operands: no schedule, time, I/O, memory pressure or history for a simulator to decide; gradient formulas belong to numeric differentiation or symbolic checking (the stateful parts of gradients are S03)",
    "N02": "a pure function of its operands: nothing a simulated schedule, clock, disk or fault could change (aliasing and histories of tensors are S02, threads P02)",
    "N03": "a pure function of its operands and shapes: no nondeterminism, time, I/O or history (stale caches of these layers are S01, their threads P02)",
    "N04": "text generation from a graph: sequential, pure, no I/O faults or history to simulate",
    "N05": "CUDA and BLAS back ends are not built here and there is no device in the sandbox; comparing back ends is differential numeric testing, not simulation",
    "N06": "pure arithmetic on values: nothing for a simulator to decide",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        m["checks"].append({
            "property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "env VERIF_TIER=thorough python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "deterministic simulation with fault injection: seeded search over schedules, faults and histories"),
            "level": "exploration",
            "level_note": c.get("note", "Seeded search, not a proof: the property held on every simulated run (counts in the evidence file). " + c["rule"] + " Trusted: the simulator's seams, g++'s access instrumentation, the oracle in the harness."),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
m["hooks"] = {"guard": "CERAS_SIM_LZW_DMS", "enable": "the harness binaries ckpt_small_dict and io_dict* are compiled with -DCERAS_SIM_LZW_DMS=<entries>, a smaller dictionary for the compressor; undefined, the shipped size is used", "source_commits": ["4974437"]}
m["notes"] = "One guarded hook in /repo (dictionary size of the compressor); every other seam is taken at link time or by compiling the headers with instrumentation; all other commits in /repo are fix: commits. Replay a reported violation with: python3 check.py --replay replays/<file>. VERIF_SECONDS overrides the search time."
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
