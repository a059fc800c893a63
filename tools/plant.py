#!/usr/bin/env python3
"""Development tool: turns bug definitions into /verif/seeded/<id>/ and tries the checks on them, in copies of /repo.

  plant.py make DEFS.py [id ...]     patch, tests, demo in a copy; writes /verif/seeded/<id>/ if the bug counts
  plant.py check [id ...] [-- P..]   runs the check of the bug's property (or the named ones) on a patched copy
DEFS.py defines BUGS, a list of dict(id, property, file, edits=[(old, new)], demo, backend, needs, breaks [, cxx]).
No check uses this file.
"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, "seeded")
BASE = "78344d4"
LIBS = {"internal": ("-DLALIB_INTERNAL_BACKEND", ""), "blas": ("-DLALIB_BLAS_BACKEND", "-lopenblas"), "lapack": ("-DLALIB_BLAS_BACKEND -DLALIB_LAPACK_BACKEND", "-llapacke -lopenblas")}
SH = """#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export OMP_NUM_THREADS=4 OPENBLAS_NUM_THREADS=1 ASAN_OPTIONS=detect_leaks=0
g++ -std=gnu++20 -w %s %s -I include "$d/demo.cc" -o "$t/demo" %s -lpthread || exit 2
timeout 120 "$t/demo"
"""


def run(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, errors="replace", **k)


def copy(i):
    d = "/tmp/pl/" + i
    shutil.rmtree(d, ignore_errors=True); os.makedirs("/tmp/pl", exist_ok=True)
    run(["cp", "-a", "/repo", d])
    run(["git", "-C", d, "checkout", "--", "."])
    return d


def make(b):
    i = b["id"]; d = copy(i); out = os.path.join(SEED, i)
    files = b["file"] if isinstance(b["file"], list) else [b["file"]] * len(b["edits"])
    for f, (old, new) in zip(files, b["edits"]):
        p = os.path.join(d, "include/lalib", f); s = open(p).read()
        if s.count(old) != 1: return "edit matches %d times: %s" % (s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    patch = run(["git", "-C", d, "diff"]).stdout
    base = {}
    removed = [l[1:] for l in patch.splitlines() if l.startswith("-") and not l.startswith("---")]
    alltext = set()
    for f in set(files): alltext |= set(run(["git", "-C", "/repo", "show", BASE + ":include/lalib/" + f]).stdout.splitlines())
    orig = [l for l in removed if l in alltext and l.strip()]
    if not orig: return "no original line is changed"
    r = run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && bash /opt/vp/test.sh /tmp/pl/%s.json" % (d, i)], cwd="/")
    try: res = json.load(open("/tmp/pl/%s.json" % i))
    except Exception: return "no test result: " + (r.stdout + r.stderr)[-1500:]
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    miss = stable - set(res["passed"])
    if miss: return "tests fail: " + ", ".join(sorted(miss))[:400]
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    fl, li = LIBS[b.get("backend", "internal")]
    open(os.path.join(out, "patch.diff"), "w").write(patch)
    open(os.path.join(out, "demo.cc"), "w").write(b["demo"].strip() + "\n")
    open(os.path.join(out, "demo.sh"), "w").write(SH % (b.get("cxx", "-O2 -fopenmp"), fl, li)); os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
    a = run(["bash", out + "/demo.sh"], cwd="/repo"); c = run(["bash", out + "/demo.sh"], cwd=d)
    if a.returncode != 0 or c.returncode in (0, 2):
        shutil.rmtree(out)
        return "demo: clean %d %s patched %d %s" % (a.returncode, (a.stdout + a.stderr)[-600:], c.returncode, (c.stdout + c.stderr)[-300:])
    shutil.rmtree(d); return None


def check(i, props):
    d = copy("c-" + i); r = run(["git", "-C", d, "apply", os.path.join(SEED, i, "patch.diff")])
    if r.returncode: return [(i, "-", "does not apply", 0, "")]
    res = []
    for p in props or [json.load(open(os.path.join(SEED, i, "meta.json")))["property"]]:
        t = time.time()
        r = run([sys.executable, os.path.join(V, "check.py"), p], env=dict(os.environ, VP_REPO=d, VERIF_SEED=os.environ.get("VERIF_SEED", "1")), cwd=V)
        caught = r.returncode == 1 and ("VIOLATION property=%s " % p) in r.stdout
        res.append((i, p, "caught" if caught else "MISSED" if r.returncode == 0 else "rc=%d" % r.returncode, time.time() - t, "\n".join(r.stdout.splitlines()[:3]) + r.stderr[-300:]))
    shutil.rmtree(d)
    return res


if __name__ == "__main__":
    a = sys.argv[2:]
    if sys.argv[1] == "make":
        ns = {}; exec(open(a[0]).read(), ns)
        for b in ns["BUGS"]:
            if a[1:] and b["id"] not in a[1:]: continue
            e = make(b); print(b["id"], b["property"], e or "ok", flush=True)
    else:
        props = a[a.index("--") + 1:] if "--" in a else []
        ids = a[:a.index("--")] if "--" in a else a
        for i in ids or sorted(os.listdir(SEED)):
            for x in check(i, props): print("%-28s %s %s %.0fs\n   %s" % (x[0], x[1], x[2], x[3], x[4].replace("\n", "\n   ")[:500]), flush=True)
