#!/usr/bin/env python3
"""Shows that one seed is one execution: the same range of runs, split over 1, 3 and 8 worker processes
(so that every run has a different predecessor in its process), must give the same sum of history hashes."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
n = int(sys.argv[1]) if len(sys.argv) > 1 else 2000
sc = check.scenario_files()
bad = 0
for std, b in check.build(sorted(sc)).items():
    for f, (s, scen) in sc.items():
        if s != std.replace("gcc-", ""): continue
        for name in scen:
            r = set()
            for j in (1, 3, 8):
                _, o = check.run_json([b, "search", "--seed", "77", "--scen", name, "--runs", str(n), "--secs", "600", "--jobs", str(j), "--recheck", "0"])
                r.add((o["hash_sum"], o["runs"], "violation" in o))
            if len(r) != 1: bad += 1; print("NOT DETERMINISTIC", name, r)
print("%d scenarios differ" % bad)
sys.exit(bad != 0)
