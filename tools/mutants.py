#!/usr/bin/env python3
"""Mutation lab: applies each entry of mutants_list.py to a scratch copy, runs the repository's tests and the checks.
  mutants.py [-notest] [id...]"""
import sys, os, subprocess, shutil, json, re, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutants_list
W = "/tmp/mut%d" % os.getpid()
args = sys.argv[1:]; notest = "-notest" in args; args = [a for a in args if not a.startswith("-")]
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
secs = os.environ.get("VERIF_SECS", "25")
for id, props, edits in mutants_list.M:
    if args and id not in args: continue
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W + "/repo")
    subprocess.run("cd ${PC_REPO:-/repo} && tar c --exclude=_build --exclude=.git . | tar x -C %s/repo" % W, shell=True, check=True)
    ok = True
    for f, old, new in edits:
        p = W + "/repo/portable_concurrency/bits/" + f
        s = open(p).read()
        if old not in s: print(id, "EDIT DOES NOT APPLY:", old[:60].replace("\n", "|")); ok = False; break
        open(p, "w").write(s.replace(old, new, 1))
    if not ok: continue
    t = "-"
    if not notest:
        for n in ("build.sh", "test.sh"):
            open(W + "/" + n, "w").write(open("/opt/vp/" + n).read().replace("/repo", W + "/repo").replace("/opt/vp/build.sh", W + "/build.sh"))
        try:
            subprocess.run(["bash", W + "/test.sh", W + "/out.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
            ps = set(json.load(open(W + "/out.json"))["passed"]); t = "tests ok" if base <= ps else "tests MISS %d" % len(base - ps)
        except Exception as e: t = "tests FAIL " + type(e).__name__
    res = []
    for p in props.split():
        t0 = time.time()
        r = subprocess.run(["python3", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "check.py"), p], env=dict(os.environ, PC_REPO=W + "/repo", VERIF_SECS=secs, VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        o = r.stdout.strip().splitlines()
        first = o[0] if o else ""
        res.append("%s=%s" % (p, "CAUGHT %.0fs %s" % (time.time() - t0, first.split(" (run seed")[0][:90]) if r.returncode == 1 else "missed" if r.returncode == 0 else "ERROR " + " ".join(o)[-300:]))
    print("%-28s %-14s %s" % (id, t, " | ".join(res)), flush=True)
shutil.rmtree(W, ignore_errors=True)
