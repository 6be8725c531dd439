#!/usr/bin/env python3
"""Automatic mutants: every single-line statement deletion, negated condition and a few operator swaps in the library.
A mutant that compiles and passes the repository's tests is given to all workloads at once; survivors are listed.
  automut.py [start [step]]     results on standard output, one line per mutant"""
import sys, os, re, glob, subprocess, shutil, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
W = "/tmp/automut%d" % os.getpid()
os.environ["PC_REPO"] = W + "/repo"
import check
start, step = (int(sys.argv[1]) if len(sys.argv) > 1 else 0), (int(sys.argv[2]) if len(sys.argv) > 2 else 1)
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
shutil.rmtree(W, ignore_errors=True); os.makedirs(W + "/repo")
subprocess.run("cd /repo && git archive HEAD | tar x -C %s/repo" % W, shell=True, check=True)
for n in ("build.sh", "test.sh"):
    open(W + "/" + n, "w").write(open("/opt/vp/" + n).read().replace("/repo", W + "/repo").replace("/opt/vp/build.sh", W + "/build.sh"))
swaps = [(r"notify_one\(", "notify_all("), (r"notify_all\(", "notify_one("), (r"memory_order_(acquire|acq_rel|release)", "memory_order_relaxed"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
         (r" && ", " || "), (r" \|\| ", " && "), (r"--(\w)", r"++\1"), (r"\+\+(\w)", r"--\1"), (r" == ", " != "), (r" != ", " == "), (r" > ", " >= "), (r"std::exchange\((\w+), nullptr\)", r"std::move(\1)"), (r"std::exchange\((\w+), \{\}\)", r"\1"), (r"std::weak_ptr<(\w+)>\(self\)", r"std::shared_ptr<\1>(self)")]
muts = []
for p in sorted(glob.glob("/repo/portable_concurrency/bits/*")):
    rel = p[len("/repo/"):]
    lines = open(p).read().split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "*", "/*", "#", "template", "using", "static_assert", "namespace", "friend")): continue
        if re.match(r"^\s{2,}", l) and s.endswith(";") and not s.startswith(("return ", "struct", "class", "const ", "assert", "}", "virtual")) and re.match(r"^[\w:>\-.*&<()]+[\w.>\-:<]*(\(|\s*=[^=]|;)|^(\+\+|--|throw)", s) and not re.match(r"^[\w:<>]+ [\w&*]+(\(.*\))?( (const|noexcept|override|final))*( = (default|delete|0))?;$", s):
            muts.append((rel, i, l, re.match(r"^\s*", l).group(0) + ";", "delete"))
        m = re.match(r"^(.*\bif \()(.*)(\)( \{)?)$", l)
        if m: muts.append((rel, i, l, m.group(1) + "!(" + m.group(2) + ")" + m.group(3), "negate"))
        for a, b in swaps:
            n = re.sub(a, b, l, count=1)
            if n != l: muts.append((rel, i, l, n, "swap"))
print(len(muts), "mutants", flush=True)
def sh(cmd, t):
    try: return subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=t).returncode
    except subprocess.TimeoutExpired: return -1
for k in range(start, len(muts), step):
    rel, i, old, new, kind = muts[k]
    p = W + "/repo/" + rel
    src = open(p).read(); L = src.split("\n"); assert L[i] == old; L[i] = new
    open(p, "w").write("\n".join(L))
    t0 = time.time(); res = ""
    try:
        b = subprocess.run(["bash", W + "/build.sh", "pc_unit_tests"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
        if b.returncode: res = "does not compile"
        else:
            subprocess.run(["bash", W + "/test.sh", W + "/out.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            ps = set(json.load(open(W + "/out.json"))["passed"])
            if not base <= ps: res = "killed by tests"
    except subprocess.TimeoutExpired: res = "killed by tests (timeout)"
    subprocess.run("pkill -9 -f %s/repo/_build/test" % W, shell=True)
    t1 = time.time()
    if not res:
        try:
            bins = check.build(list(check.scenario_files()))
            for std, x in sorted(bins.items()):
                q = subprocess.run([x, "search", "--seed", "1", "--runs", "100000000", "--secs", {"c++17": "40", "c++20": "10", "gcc-c++17": "15"}.get(std, "5"), "--jobs", "8"], capture_output=True, text=True)
                o = json.loads(q.stdout.splitlines()[-1])
                v = o.get("violation")
                if v: res = "caught: %s %s %s" % (v["result"]["scenario"], v["result"]["class"], v["result"]["message"][:80]); break
            else: res = "SURVIVED"
        except BaseException as e: res = "ERROR %r" % e
    print("%d %s:%d %s [%s] %s  (%.0f+%.0fs)" % (k, os.path.basename(rel), i + 1, kind, new.strip()[:70] if kind != "delete" else old.strip()[:70], res, t1 - t0, time.time() - t1), flush=True)
    open(p, "w").write(src)
shutil.rmtree(W, ignore_errors=True)
