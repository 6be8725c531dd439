#!/usr/bin/env python3
"""Deterministic-simulation check of one property of portable_concurrency.

  check.py C07                   quick or thorough (VERIF_TIER), seed from VERIF_SEED
  check.py C07 --replay FILE     replays a violation recorded by an earlier run (exit 1 if it still fails)
  check.py --build               only builds everything (setup_cmd)

Exit 0: the property held on every simulated run. Exit 1: VIOLATION line. Exit 2: error of the check itself.
"""
import concurrent.futures, glob, hashlib, json, os, re, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = max(1, min(8, len(os.sched_getaffinity(0))))
CXX = "clang++"
WARN = ["-Wno-deprecated-declarations", "-Wno-unused-result", "-Wno-unused-value"]
INSTR = ["-O1", "-mllvm", "-inline-threshold=0", "-g1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"]
# The same workloads and library also as the other compiler sees them (order of evaluation, overload resolution, inlining differ).
GCC = "g++"
GCC_INSTR = ["-O1", "-fno-inline", "-g0", "-fsanitize=thread", "-Wno-tsan", "-Wno-attributes"]
GCC_SHARE = 0.3  # of the search time


def fail(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        h.update(read(p) + b"\0")
    return h.hexdigest()


def repo_files():
    out = []
    for d, sub, files in os.walk(os.path.join(REPO, "portable_concurrency")):
        sub.sort()
        for f in sorted(files):
            out.append(os.path.join(d, f))
    return sorted(out)


def scenario_files():
    """{file: (std, {scenario: set(props)})}"""
    res = {}
    for f in sorted(glob.glob(os.path.join(VERIF, "scenarios", "s_*.cpp"))):
        t = read(f).decode()
        std = "c++20" if t.startswith("// std=c++20") else "c++17"
        sc = {m.group(1): set(m.group(2).split(",")) for m in re.finditer(r'^SCENARIO(?:_W)?\((\w+),\s*"([^"]*)"', t, re.M)}
        res[f] = (std, sc)
    return res


def compile_one(src, obj, flags, cxx):
    if os.path.exists(obj):
        return None
    tmp = obj + ".%d.tmp" % os.getpid()
    p = subprocess.run([cxx] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        return "compiling %s failed:\n%s" % (src, p.stdout[-4000:])
    os.replace(tmp, obj)
    return None


left_out = {}  # flavour -> workloads that do not compile against this tree


def build(files, only=None):
    """Builds one binary per language standard and compiler out of the given scenario files; returns {flavour: binary}."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    rfiles = repo_files()
    rh = tree_hash(rfiles)
    simfiles = sorted(glob.glob(os.path.join(VERIF, "sim", "*")))
    simh = tree_hash(simfiles)
    hh = tree_hash(sorted(glob.glob(os.path.join(VERIF, "scenarios", "*.h"))))
    jobs, bins = {}, {}
    sc = scenario_files()
    for flavour in sorted(p + sc[f][0] for f in files for p in ("", "gcc-")):
        if flavour in bins or (only and flavour not in only):
            continue
        gcc, std = flavour.startswith("gcc-"), flavour.replace("gcc-", "")
        base = ["-std=" + std] + (GCC_INSTR if gcc else INSTR) + WARN
        inc = ["-I" + REPO, "-I" + os.path.join(VERIF, "sim"), "-I" + os.path.join(VERIF, "scenarios")]
        objs = []

        def add(src, flags, key, cxx=GCC if gcc else CXX):
            flags = flags if cxx == CXX else flags + ["-w"]
            k = hashlib.sha256(("\0".join([src, key] + flags)).encode() + read(src)).hexdigest()[:24]
            o = os.path.join(BUILD, "obj", os.path.basename(src).replace(".cpp", "") + "-" + k + ".o")
            jobs[o] = (src, flags, cxx)
            objs.append(o)

        for f in files:
            if sc[f][0] == std:
                add(f, base + inc, rh + simh + hh)
        for f in rfiles:
            if f.endswith(".cpp"):
                add(f, base + inc, rh)
        add(os.path.join(VERIF, "sim", "sim.cpp"), ["-std=c++17", "-O2", "-g1"], simh, CXX)
        bins[flavour] = objs
    def weight(src):  # longest compilations first
        t = read(src).decode()
        return len(t) + sum(4 * len(read(os.path.join(VERIF, "scenarios", h))) for h in re.findall(r'^#include "(\w+\.h)"', t, re.M) if h in ("when.h", "unwrap.h", "shapes.h", "deliver.h", "shared.h"))

    bad = {}
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        order = sorted(jobs.items(), key=lambda kv: -weight(kv[1][0]))
        for (obj, (src, _, _)), err in zip(order, ex.map(lambda kv: compile_one(kv[1][0], kv[0], kv[1][1], kv[1][2]), order)):
            if err:
                if src not in sc:
                    fail(err)
                bad[obj] = err
    if bad:
        # a workload that does not compile against this tree cannot say anything about it; the others still can
        if all(2 * sum(1 for o in objs if o in bad) > sum(1 for o in objs if jobs[o][0] in sc) for objs in bins.values()):
            fail(next(iter(bad.values())))
        for o, err in sorted(bad.items()):
            print("NOTE: workload left out, it does not compile: %s\n%s" % (jobs[o][0], err[-600:]), flush=True)
        for fl in list(bins):
            left_out[fl] = sorted({jobs[o][0] for o in bins[fl] if o in bad})
            bins[fl] = [o for o in bins[fl] if o not in bad]
            if not any(jobs[o][0] in sc for o in bins[fl]):
                del bins[fl]
    out = {}
    for std, objs in bins.items():
        b = os.path.join(BUILD, "sim-%s-%s" % (std, hashlib.sha256("".join(objs).encode()).hexdigest()[:24]))
        if not os.path.exists(b):
            tmp = b + ".%d.tmp" % os.getpid()
            p = subprocess.run([CXX, "-no-pie"] + objs + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                fail("link failed:\n" + p.stdout[-4000:])
            os.replace(tmp, b)
        out[std] = b
    # keep the cache small
    old = sorted(glob.glob(os.path.join(BUILD, "obj", "*.o")) + glob.glob(os.path.join(BUILD, "sim-*")), key=os.path.getmtime)
    used = set(jobs) | set(out.values())
    size = sum(os.path.getsize(p) for p in old)
    for p in old:
        if size < 600 << 20:
            break
        if p not in used:
            size -= os.path.getsize(p)
            os.unlink(p)
    return out


def run_json(cmd, timeout=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace")
    lines = [l for l in p.stdout.splitlines() if l.startswith("{")]
    if not lines:
        fail("%s: no answer (exit %d) %s" % (" ".join(cmd[:4]), p.returncode, (p.stdout + p.stderr)[-500:]))
    return p.returncode, json.loads(lines[-1])


def replay_choices(binary, scen, choices, trace=0):
    with tempfile.NamedTemporaryFile("w", suffix=".choices", delete=False) as f:
        f.write(choices + "\n")
    try:
        return run_json([binary, "replay", "--scen", scen, "--choices-file", f.name, "--trace", str(trace)], 120)
    finally:
        os.unlink(f.name)


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        elif isinstance(v, (int, float)):
            a[k] = a.get(k, 0) + v
    return a


def main():
    args = sys.argv[1:]
    if args == ["--build"]:
        build(sorted(scenario_files()))
        return 0
    if not args:
        fail(__doc__)
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--replay" in args:
        r = json.load(open(args[args.index("--replay") + 1]))
        f = next(f for f, (_, sc) in scenario_files().items() if r["scenario"] in sc)
        b = build([f], [r["std"]])[r["std"]]
        rc, out = replay_choices(b, r["scenario"], r["choices"], 1) if not r.get("by_seed") else run_json([b, "run", "--scen", r["scenario"], "--run-seed", str(r["run_seed"]), "--trace", "1"], 120)
        print(out.get("trace", ""))
        print(json.dumps(out["result"]))
        same = out["result"]["class"] == r["class"] and (r.get("by_seed") or out["result"]["hash"] == r["hash"])
        print("reproduced exactly" if rc == 1 and same else "violation, but a different one" if rc == 1 else "no violation")
        return rc
    t0 = time.time()
    allsc = scenario_files()
    files = sorted(f for f, (_, sc) in allsc.items() if any(prop in p for p in sc.values()))
    if not files:
        fail("no scenario for " + prop)
    bins = build(files)
    t_build = time.time() - t0
    secs = float(os.environ.get("VERIF_SECS", "50" if tier == "quick" else "900"))
    cap = int(os.environ.get("VERIF_RUNS", "3000000" if tier == "quick" else "1000000000"))
    kf = [(k, re.compile(k["message"])) for k in known_findings(prop)]
    tot, samples, violation, skipped = {}, [], None, 0
    shown = set()
    def in_flavour(s):
        return [f for f in files if allsc[f][0] == s.replace("gcc-", "") and f not in left_out.get(s, [])]

    weights = {s: len(in_flavour(s)) * (GCC_SHARE if s.startswith("gcc-") else 1 - GCC_SHARE) for s in bins}
    for std, b in sorted(bins.items()):
        share = secs * weights[std] / sum(weights.values())
        frm, deadline = 0, time.time() + share
        while True:
            left = deadline - time.time()
            if left < 0.5 and frm:
                break
            _, s = run_json([b, "search", "--seed", str(seed), "--prop", prop, "--runs", str(cap - frm), "--from", str(frm), "--secs", "%.1f" % max(left, 0.5), "--jobs", str(JOBS)], secs + 300)
            if "error" in s:
                fail(s["error"])
            v = s.pop("violation", None)
            if s["mismatches"]:
                fail("simulation is not deterministic: run index %d gave two different histories" % s["mismatch_index"])
            for k in ("seed", "jobs", "mismatch_index"):
                s.pop(k, None)
            merge(tot, s)
            if not v:
                break
            r = v["result"]
            known = next((k for k, rx in kf if k["scenario"] == r["scenario"] and k["class"] == r["class"] and rx.search(r["message"])), None)
            if known:
                if known["id"] not in shown:
                    shown.add(known["id"])
                    print("KNOWN-FINDING: property=%s %s" % (prop, known["what"]), flush=True)
                frm = v["index"] + 1
                continue
            # gate: the same seed must give the same violation twice, and the minimised trace must reproduce in a fresh process
            rc, m = run_json([b, "minimise", "--scen", r["scenario"], "--run-seed", str(v["run_seed"]), "--secs", "20", "--budget", "6000"], 200)
            if rc == 3 or "error" in m:
                if r["class"] == "stuck" and skipped < 5:  # real-time limit hit on an overloaded machine
                    skipped += 1
                    frm = v["index"] + 1
                    continue
                fail("violation does not reproduce: %s" % json.dumps(v))
            mr = m["result"]
            by_seed = m.get("by_seed")
            if by_seed:
                rc, again = run_json([b, "run", "--scen", r["scenario"], "--run-seed", str(by_seed)], 120)
            else:
                rc, again = replay_choices(b, r["scenario"], m["choices"])
            if rc != 1 or again["result"]["class"] != mr["class"] or (not by_seed and again["result"]["hash"] != mr["hash"]):
                fail("minimised violation does not replay in a fresh process: %s" % json.dumps(mr))
            violation = {"property": prop, "scenario": r["scenario"], "std": std, "class": mr["class"], "message": mr["message"], "seed": seed, "index": v["index"], "run_seed": v["run_seed"],
                         "by_seed": bool(by_seed), "hash": mr["hash"], "choices": m["choices"], "original_choices": m.get("original_choices"), "minimised_choices": m.get("minimised_choices"), "trace": m.get("trace", "").splitlines()}
            break
        # samples: actual runs of this search
        if not violation:
            for i in range(2):
                names = sorted(n for f in in_flavour(std) for n, p in allsc[f][1].items() if prop in p)
                n = names[(seed + i * 7) % len(names)]
                rs = (seed * 1000003 + i * 7919 + 1) & 0x7fffffff
                _, o = run_json([b, "run", "--scen", n, "--run-seed", str(rs), "--trace", "1"], 60)
                q = o["result"]
                samples.append({"scenario": n, "run_seed": rs, "status": q["status"], "history_hash": q["hash"], "scheduling_points": q["steps"], "context_switches": q["switches"], "threads": q["threads"], "simulated_ns": q["sim_ns"], "choices": o["choices"][:400], "last_events": o.get("trace", "").splitlines()[-6:]})
        else:
            samples.append({"scenario": violation["scenario"], "run_seed": violation["run_seed"], "choices": violation["choices"], "class": violation["class"], "message": violation["message"]})
            break
    wall = time.time() - t0
    search_s = tot.get("wall_s", 0) or 1e-9
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": int(tot.get("runs", 0)), "distinct_nontrivial": int(tot.get("distinct", 0)),
              "rule": "One evaluation is one simulated run of a workload with the real library code: the seed decides workload parameters, the thread interleaving at every atomic operation, lock, wait, clock read and thread operation, and all faults. A run counts as non-trivial if it had at least two threads and at least one preemption, or at least one injected fault; distinct means a different hash of the complete event history (scheduling points in order with thread, operation, object and result).",
              "samples": samples,
              "runs_per_hour": int(tot.get("runs", 0) / search_s * 3600), "seeds": "every run has its own seed, derived from VERIF_SEED and its index",
              "simulated_time_s": tot.get("sim_ns", 0) / 1e9, "scheduling_points": int(tot.get("steps", 0)), "context_switches": int(tot.get("switches", 0)), "preemptions": int(tot.get("preemptions", 0)), "simulated_threads": int(tot.get("threads", 0)),
              "faults": tot.get("faults", {}), "probes": tot.get("probes", {}), "search_strategies": tot.get("strategies", {}), "runs_per_scenario": tot.get("scenarios", {}),
              "determinism_rechecks": int(tot.get("rechecked", 0)), "determinism_mismatches": int(tot.get("mismatches", 0)),
              "components": {"real": ["all of /repo/portable_concurrency, unmodified, compiled from the working tree", "libstdc++ shared_ptr, mutex, condition_variable, thread, exception_ptr, containers"],
                             "simulated": ["pthread threads, mutexes, condition variables and TLS keys", "clocks, sleeps and timed waits", "weak-memory loads (bounded staleness) and happens-before", "heap (operator new/delete)", "user executors, allocators, cancel actions and values (workload)"]},
              "workloads_left_out": sorted({fl + ": " + os.path.basename(f) for fl, l in left_out.items() for f in l}), "compilers": {"clang++": 1 - GCC_SHARE, "g++": GCC_SHARE}, "build_s": round(t_build, 2)},
          "assumptions": ["loads and stores of non-atomic memory are sequentially consistent inside a run; races on them are reported as violations instead", "atomics: acquire/release/relaxed modelled with vector clocks and bounded stale reads, compare_exchange_weak fails spuriously in the gcc build only (clang's instrumentation does not tell weak from strong)", "exploration is sampling: a clean batch is evidence, not proof"],
          "wall_s": round(wall, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if violation:
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%s.json" % (prop, violation["scenario"], violation["class"]))
        json.dump(violation, open(path, "w"), indent=1)
        print("%s in %s: %s (run seed %d, minimised to %s choices, replay: check.py %s --replay %s)" % (violation["class"], violation["scenario"], violation["message"], violation["run_seed"], violation["minimised_choices"], prop, path))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    print("OK property=%s runs=%d distinct=%d wall=%.1fs (build %.1fs)" % (prop, tot["runs"], tot["distinct"], wall, t_build))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception as e:  # never mistaken for a violation
        import traceback
        traceback.print_exc()
        fail("%s: %s" % (type(e).__name__, e))
    sys.exit(rc)
