#!/usr/bin/env python3
"""Writes MANIFEST.json: every property that has a tagged scenario is claimed."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
V = check.VERIF
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = set()
for f, (_, sc) in check.scenario_files().items():
    for p in sc.values():
        have |= p
NOTE = ("Seeded search over schedules and faults: the unmodified library, compiled from the working tree, runs with every thread, lock, wait, atomic operation, clock, "
        "allocation and user callback under a deterministic scheduler; a clean batch is evidence over the runs reported in the evidence file, not proof. Trusted: the simulator's model "
        "of pthreads, clocks, heap and C++ atomics (acquire/release with bounded stale reads), clang's instrumentation, and the oracle in the workloads.")
m = {"version": 1, "setup_cmd": "python3 check.py --build",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                 "technique": "deterministic simulation with fault injection (seeded schedule and fault search, minimised replay)", "level": "exploration", "level_note": NOTE}
                for p in props if p["id"] in have],
     "not_applicable": [{"property": p["id"], "reason": "workload not built yet"} for p in props if p["id"] not in have],
     "notes": "No hooks in /repo: the seams are clang's -fsanitize=thread instrumentation calls and interposed pthread/clock/heap symbols, linked against /verif/sim instead of the TSan runtime. VERIF_SECS and VERIF_RUNS bound a search; --replay FILE replays a violation."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed;", [n["property"] for n in m["not_applicable"]])
