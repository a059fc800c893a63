#!/usr/bin/env python3
"""Builds the monitoring units against /repo's working tree, runs them, judges what the monitors observed.

  check.py P01 [--tier quick|thorough] [--seed N]     one property
  check.py --replay FILE                              the run that a violation names
  check.py --setup                                    checks that the tools needed are there
"""
import concurrent.futures as cf
import glob, hashlib, itertools, json, os, re, resource, shutil, struct, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")
JOBS = 8

# ---------------------------------------------------------------- configurations
BASE = ["-std=gnu++20", "-w", "-I", os.path.join(REPO, "include"), "-I", HARNESS]
BACK = {
    "internal": (["-DLALIB_INTERNAL_BACKEND"], []),
    "blas": (["-DLALIB_BLAS_BACKEND"], ["-lopenblas"]),
    "lapack": (["-DLALIB_BLAS_BACKEND", "-DLALIB_LAPACK_BACKEND"], ["-llapacke", "-lopenblas"]),
}
def wrap_of(back):
    """The link options and sources of the monitor of BLAS / LAPACK calls."""
    srcs = [] if back == "internal" else ["wrap_blas.cpp"] if back == "blas" else ["wrap_blas.cpp", "wrap_lapack.cpp"]
    names = []
    for s in srcs:
        t = read(os.path.join(HARNESS, s)).decode()
        pre = "cblas_" if "blas" in s else "LAPACKE_"
        names += [pre + n for n in re.findall(r"^(?:GEMM|GEMV|AXPY|SCAL|DOT|NRM|GTSV|POTRF|POTRS)\b.*", t, re.M) for n in re.findall(r"\b[A-Z]+\((\w+),", n)]
    return srcs, ["-Wl," + ",".join("--wrap=" + n for n in names)] if names else []


ASAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
        "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR", "-ftrivial-auto-var-init=pattern"]


def config(name):
    """name = kind-backend -> (compiler, compile flags, extra sources, link flags)"""
    kind, back = name.split("-")
    d, l = BACK[back]
    wsrc, wrap = wrap_of(back)
    if kind == "opt":
        return "g++", BASE + d + ["-O2", "-DNDEBUG", "-fopenmp"], ["alloc.cpp"] + wsrc, wrap + l
    if kind == "o3":
        return "g++", BASE + d + ["-O3", "-march=native", "-DNDEBUG", "-fopenmp"], ["alloc.cpp"] + wsrc, wrap + l
    if kind == "clang":
        return "clang++", BASE + d + ["-O2", "-DNDEBUG"], ["alloc.cpp"] + wsrc, wrap + l
    if kind == "dbg":
        return "g++", BASE + d + ["-O0", "-fopenmp", "-D_GLIBCXX_ASSERTIONS"], ["alloc.cpp"] + wsrc, wrap + l
    if kind == "asan":
        return "g++", BASE + d + ASAN + ["-fopenmp"], wsrc, wrap + l
    if kind == "casan":
        return "clang++", BASE + d + [f for f in ASAN if f != "-g1"] + ["-gline-tables-only", "-fsanitize=float-cast-overflow"], wsrc, wrap + l
    if kind == "msan":
        return "clang++", BASE + d + ["-O1", "-gline-tables-only", "-fsanitize=memory", "-fsanitize-memory-track-origins=1", "-fno-omit-frame-pointer",
                                      "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DVP_MSAN"], ["msan_std.cpp"], l
    if kind == "tsan":   # the parallel regions run on our own, instrumented, OpenMP runtime
        return "g++", BASE + d + ["-O1", "-g1", "-fsanitize=thread", "-fopenmp"], ["gomp_shim.cpp"], ["NO_OPENMP_LINK"] + l
    raise SystemExit("unknown configuration " + name)


ALL_UNITS = ["elem", "dot", "cross", "alias", "size", "mv", "mm", "mat", "struct", "spmap", "spadd", "spmv", "tri", "chol",
             "sing", "ilu", "gmres", "cgs", "bsub", "val", "init", "reuse"]
OPT3 = ["opt-internal", "opt-blas", "opt-lapack"]
DEEP = ["o3-internal", "o3-lapack", "clang-internal", "casan-internal", "dbg-internal"]
Q_BACK = OPT3 + ["asan-internal", "asan-lapack"]      # code that depends on the back end
Q_PLAIN = ["opt-internal", "opt-lapack", "asan-internal"]


def prop(units, quick, deep=(), how="check", tech="", note="", only=None):
    return dict(units=units, quick=quick, deep=list(quick) + [d for d in deep if d not in quick], how=how, tech=tech, note=note, only=only)


PROPS = {
    "P01": prop(["elem"], Q_BACK, DEEP),
    "P02": prop(["dot"], Q_BACK, DEEP),
    "P03": prop(["cross"], Q_PLAIN, DEEP),
    "P04": prop(["alias"], Q_BACK, DEEP),
    "P05": prop(["size"], Q_PLAIN, DEEP),
    "P06": prop(["mv"], Q_BACK, DEEP),
    "P07": prop(["mm"], Q_BACK, DEEP),
    "P08": prop(["mat"], Q_BACK, DEEP),
    "P09": prop(["elem", "dot", "mv", "mm", "mat", "spmv", "tri", "chol", "sing", "alias", "reuse", "cgs", "gmres"], OPT3, ["o3-internal", "o3-lapack", "clang-internal"], how="log"),
    "P10": prop(["struct"], Q_PLAIN, DEEP),
    "P11": prop(["spmap"], Q_PLAIN, DEEP),
    "P12": prop(["spadd"], Q_PLAIN, DEEP),
    "P13": prop(["spmv"], Q_PLAIN, DEEP),
    "P14": prop(["tri"], Q_BACK, DEEP),
    "P15": prop(["chol"], Q_BACK, DEEP),
    "P16": prop(["sing"], Q_BACK, DEEP),
    "P17": prop(["ilu"], Q_PLAIN, DEEP),
    "P18": prop(["gmres"], Q_PLAIN, DEEP),
    "P19": prop(["cgs"], Q_PLAIN, DEEP),
    "P20": prop(["bsub"], Q_PLAIN, DEEP),
    "P21": prop(["thr"], ["tsan-internal", "opt-internal", "opt-lapack"], ["o3-internal", "o3-lapack"]),
    "P22": prop(ALL_UNITS, ["asan-internal", "asan-lapack", "msan-internal"], ["opt-internal", "opt-lapack", "casan-internal", "asan-blas", "casan-lapack", "dbg-internal", "dbg-lapack"], how="san"),
    "P23": prop(["val"], Q_PLAIN, DEEP),
    "P24": prop(["init"], Q_PLAIN, DEEP),
    "P25": prop(["reuse"], Q_BACK, DEEP),
}
# units whose code does not depend on the back end: one back end is enough under P22
PLAIN_UNITS = {"cross", "size", "struct", "spmap", "spadd", "val", "init", "bsub", "ilu", "gmres"}
# units that take far longer to compile than to run: not optimised under the sanitizers
COMPILE_BOUND = {"asan": {"alias", "val", "init", "struct", "chol", "mat", "reuse", "mm", "cross", "mv"}, "msan": {"alias", "val", "struct", "init"}}
EMBED = {}


class HarnessError(Exception):
    pass


# ---------------------------------------------------------------- building
def read(p):
    with open(p, "rb") as f:
        return f.read()


_tree = None


def tree_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for root in (os.path.join(REPO, "include"), HARNESS):
            for d, ds, fs in os.walk(root):
                ds.sort()
                for f in sorted(fs):
                    p = os.path.join(d, f)
                    if root == HARNESS and f.endswith(".cc"):
                        continue
                    h.update(os.path.relpath(p, root).encode()); h.update(read(p))
        _tree = h.hexdigest()
    return _tree


def sh(cmd, timeout=600, **kw):
    try:
        return subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        raise HarnessError("time limit exceeded: " + " ".join(cmd)[:200])


_locks, _locks_guard, _serial = {}, threading.Lock(), itertools.count()


def lock_of(path):
    with _locks_guard:
        return _locks.setdefault(path, threading.Lock())


def tmp_of(path):
    return "%s.%d.%d.tmp" % (path, os.getpid(), next(_serial))


def obj(cc, flags, src, uses_repo):
    key = hashlib.sha256(json.dumps([cc, flags, tree_hash() if uses_repo else hashlib.sha256(read(src)).hexdigest()]).encode() + read(src)).hexdigest()[:24]
    o = os.path.join(BUILD, key + ".o")
    if os.path.exists(o):
        os.utime(o)
        return o, None
    tmp = tmp_of(o)
    with lock_of(o):
        if os.path.exists(o):   # another thread was faster
            return o, None
        r = sh([cc] + flags + ["-c", src, "-o", tmp])
        if r.returncode:
            return None, r.stderr[-6000:]
        os.rename(tmp, o)
    return o, None


def helper_flags(cc, flags):
    return [f for f in flags if not f.startswith("-DLALIB")]


def build(unit, cfg):
    """-> (path, None) or (None, compiler messages)"""
    cc, flags, extra, link = config(cfg)
    src = os.path.join(HARNESS, unit + ".cc")
    hflags = flags
    if unit in COMPILE_BOUND.get(cfg.split("-")[0], ()):
        flags = ["-O0" if f == "-O1" else f for f in flags]
    o, err = obj(cc, flags, src, True)
    if not o:
        return None, err
    objs = [o]
    for e in extra:
        eo, eerr = obj(cc, helper_flags(cc, hflags), os.path.join(HARNESS, e), False)
        if not eo:
            raise HarnessError("helper %s does not compile:\n%s" % (e, eerr))
        objs.append(eo)
    exe = os.path.join(BUILD, hashlib.sha256(" ".join(objs + link + [cfg]).encode()).hexdigest()[:24] + "." + unit + "." + cfg)
    if not os.path.exists(exe):
        tmp = tmp_of(exe)
        lf = [f for f in flags if f.startswith("-f") or f.startswith("-O")]
        if "NO_OPENMP_LINK" in link:
            lf = [f for f in lf if f != "-fopenmp"]
        r = sh([cc] + lf + objs + [x for x in link if x != "NO_OPENMP_LINK"] + ["-lpthread", "-o", tmp])
        if r.returncode:
            if cfg.startswith("tsan") and re.search(r"undefined reference to `(GOMP_|omp_)", r.stderr):
                return None, "skip: the race-detecting OpenMP runtime lacks " + ", ".join(sorted(set(re.findall(r"undefined reference to `(\w+)", r.stderr))))
            return None, "link: " + r.stderr[-6000:]
        os.rename(tmp, exe)
    else:
        os.utime(exe)
    return exe, None


def control_compiles():
    """The repository's headers and the toolchain work: a unit that fails to compile is then the tree's doing."""
    src = os.path.join(HARNESS, "control.cc")
    o, err = obj("g++", BASE + BACK["internal"][0] + ["-O0"], src, True)
    if not o:
        src2 = os.path.join(HARNESS, "toolchain.cc")
        o2, err2 = obj("g++", BASE + ["-O0"], src2, False)
        if not o2:
            raise HarnessError("the compiler does not work:\n" + err2)
        return err
    return None


def sweep_build():
    os.makedirs(BUILD, exist_ok=True)
    files = sorted(((os.path.getmtime(p), os.path.getsize(p), p) for p in glob.glob(os.path.join(BUILD, "*")) if os.path.isfile(p)), reverse=True)
    total = 0
    for m, s, p in files:
        total += s
        if total > 4 << 30 or (p.endswith(".tmp") and time.time() - m > 3600):
            try: os.remove(p)
            except OSError: pass


# ---------------------------------------------------------------- running
def env_for(cfg, unit):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("OMP_", "OPENBLAS_", "ASAN_", "UBSAN_", "TSAN_", "MSAN_", "GOMP_")):
            del e[k]
    e.update(OMP_NUM_THREADS="4", OPENBLAS_NUM_THREADS="4", OMP_WAIT_POLICY="passive", OMP_DYNAMIC="false", MALLOC_PERTURB_="90",
             ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1:strict_string_checks=1:max_malloc_fill_size=1073741824:malloc_fill_byte=255:free_fill_byte=238:max_free_fill_size=65536:quarantine_size_mb=64:allocator_may_return_null=0:hard_rss_limit_mb=6000:detect_odr_violation=0",
             UBSAN_OPTIONS="print_stacktrace=1:abort_on_error=1", MSAN_OPTIONS="abort_on_error=1:poison_in_dtor=1:hard_rss_limit_mb=6000",
             TSAN_OPTIONS="halt_on_error=0:exitcode=0:report_signal_unsafe=0:history_size=4:second_deadlock_stack=1")
    if cfg.startswith(("msan", "clang", "casan")):
        e["OPENBLAS_NUM_THREADS"] = "1"
    return e


SAN_RE = re.compile(r"(ERROR: AddressSanitizer:? [^\n]*|runtime error: [^\n]*|WARNING: MemorySanitizer: [^\n]*|Assertion [^\n]* failed|terminate called[^\n]*|heap-guard: [^\n]*|hard rss limit exhausted[^\n]*)")
# a sanitizer that cannot lay out its shadow memory; a machine out of threads
STARTUP_RE = re.compile(r"FATAL: (?:Thread|Memory|Address)Sanitizer|unexpected memory mapping|Shadow memory range interleaves|failed to (?:mmap|intercept)|can not mmap|ReserveShadowMemoryRange failed")
RESOURCE_RE = re.compile(r"Thread creation failed|Resource temporarily unavailable|pthread_create failed|blas_thread_init")
FRAME_RE = re.compile(r"#\d+ 0x[0-9a-f]+ (?:in )?([^\n]*?(?:/include/lalib/[^\s:]+)(?::\d+)?)")


UNIT_SCALE = {"spmap": 0.5, "spadd": 0.6, "init": 0.5, "thr": 0, "alias": 0.5,
              "sing": 4, "gmres": 4, "ilu": 4, "bsub": 4, "reuse": 4, "val": 2, "cgs": 3, "struct": 3, "size": 2, "cross": 3, "dot": 2, "tri": 3, "chol": 3}   # and fast ones


def boost_of(unit, cfg, mode):
    """How much larger than the basic one the quick workload is."""
    if mode == "log": return 1
    b = 2 if mode == "san" else 6 if cfg.startswith("opt") else 3
    return max(1, round(b * UNIT_SCALE.get(unit, 1), 1))


def limit_memory():   # runaway growth ends in bad_alloc, not in the machine's memory
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def run_once(exe, unit, cfg, seed, tier, mode, workdir, limit, log=None, prefix=()):
    tag = "%s.%s" % (unit, cfg)
    out, crash, err = (os.path.join(workdir, tag + x) for x in (".json", ".crash", ".err"))
    for p in (out, crash, err):
        if os.path.exists(p): os.remove(p)
    cmd = list(prefix) + [exe, "--seed", str(seed), "--tier", tier, "--cfg", cfg, "--mode", mode, "--boost", str(boost_of(unit, cfg, mode)), "--crash", crash, "--out", out]
    if log: cmd += ["--log", log]
    t0 = time.time()
    timed_out = False
    with open(err, "wb") as ef:
        p = subprocess.Popen(cmd, stdout=ef, stderr=ef, stdin=subprocess.DEVNULL, env=env_for(cfg, unit), start_new_session=True, cwd=workdir,
                             preexec_fn=None if cfg.startswith(("asan", "casan", "msan", "tsan")) else limit_memory)
        try:
            rc = p.wait(limit)
        except subprocess.TimeoutExpired:
            timed_out = True
            try: os.killpg(p.pid, 9)
            except OSError: pass
            rc = p.wait()
    res = dict(unit=unit, cfg=cfg, rc=rc, wall=time.time() - t0, timed_out=timed_out, data=None, cmd=cmd)
    with open(err, "rb") as f:
        f.seek(0, 2); size = f.tell(); f.seek(0)
        res["err"] = f.read(400000).decode(errors="replace")
    slot = ""
    if os.path.exists(crash):
        slot = read(crash).split(b"\0")[0].decode(errors="replace")
    res["slot"] = slot
    if rc == 0 and os.path.exists(out):
        try: res["data"] = json.loads(read(out).decode(errors="replace"))
        except ValueError as e: raise HarnessError("%s: unreadable result: %s" % (tag, e))
    elif rc == 3:
        raise HarnessError("%s: %s" % (tag, res["err"][-500:]))
    return res


def races(text):
    """ThreadSanitizer reports, deduplicated by the outermost library frames."""
    out = {}
    for block in re.split(r"={18,}\n", text):
        if "WARNING: ThreadSanitizer" not in block: continue
        kind = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", block).group(1).strip()
        fr = [re.sub(r".*?((?:include/)?lalib/[^\s:]+).*", r"\1", f) for f in re.findall(r"#\d+ ([^\n]*)", block) if "lalib/" in f and "/include/" in f]
        key = kind + " " + (fr[0] if fr else "outside the library")
        out.setdefault(key.replace(" ", "-"), block[:1500])
    return out


def judge(res):
    """-> list of failures (dicts with key, what, desc) of one run"""
    fails = []
    u = res["unit"]
    if res["timed_out"]:
        op = (res["slot"].split("|") + [""])[0]
        fails.append(dict(key="%s/%s:hang" % (u, op), what="no progress within the time limit, twice", desc=res["slot"], count=1, case=0))
    elif res["data"] is None:
        parts = res["slot"].split("|", 2)
        m = SAN_RE.search(res["err"])
        frame = FRAME_RE.search(res["err"])
        what = (m.group(1)[:300] if m else "the process ended with status %d" % res["rc"]) + (" at " + frame.group(1)[-200:] if frame else "")
        fails.append(dict(key="%s/%s:crash" % (u, parts[0]), what=what, desc=parts[-1] if len(parts) == 3 else res["slot"], count=1, case=int(parts[1]) if len(parts) == 3 and parts[1].isdigit() else 0,
                          report=res["err"][:4000]))
    else:
        for f in res["data"]["fails"]:
            f["key"] = u + "/" + f["key"]
            fails.append(f)
    if res["cfg"].startswith("tsan"):
        for k, b in races(res["err"]).items():
            fails.append(dict(key="%s/race:%s" % (u, k), what="ThreadSanitizer: " + k, desc="", report=b, count=1, case=0))
    for f in fails:
        f["cfg"] = res["cfg"]; f["unit"] = u; f["cmd"] = res["cmd"]
    return fails


# ---------------------------------------------------------------- comparison of event logs (P09)
def log_events(path):
    b = read(path)
    i, n = 0, len(b)
    while i < n:
        t = b[i:i + 1]
        if t == b"b":
            if i + 6 > n: return
            yield ("b", struct.unpack_from("<I", b, i + 2)[0], b[i + 1]); i += 6
        elif t == b"v":
            k, m = struct.unpack_from("<II", b, i + 1)
            if i + 9 + 16 * m > n: return
            yield ("v", k, struct.unpack_from("<%dd" % (2 * m), b, i + 9)); i += 9 + 16 * m
        elif t == b"o":
            l = struct.unpack_from("<H", b, i + 1)[0]
            yield ("o", b[i + 3:i + 3 + l].decode(errors="replace"), None); i += 3 + l
        else:
            raise HarnessError("damaged log " + path)


def compare_logs(unit, pa, pb, ca, cb):
    op, desc, fails, nval, nevt = "?", "", {}, 0, 0
    A, B = log_events(pa), log_events(pb)
    while True:
        a, b = next(A, None), next(B, None)
        if a is None and b is None: break
        if a is None or b is None or a[0] != b[0] or (a[0] != "o" and a[1] != b[1]) or (a[0] == "o" and a[1] != b[1]) or (a[0] == "v" and len(a[2]) != len(b[2])):
            fails.setdefault("%s/%s:diverged" % (unit, op), dict(what="the histories of observations diverge between %s and %s" % (ca, cb), desc=desc, count=1, case=0))
            break
        nevt += 1
        if a[0] == "o":
            op, _, desc = a[1].partition("|")
        elif a[0] == "b":
            if a[2] != b[2]:
                k = "%s/%s:outcome" % (unit, op)
                f = fails.setdefault(k, dict(what="an observation holds with one back end and not with the other (%s: %d, %s: %d)" % (ca, a[2], cb, b[2]), desc=desc, count=0, case=0)); f["count"] += 1
        else:
            x, y = a[2], b[2]
            nval += len(x) // 2
            for i in range(0, len(x), 2):
                d = abs(x[i] - y[i])
                if not d <= (x[i + 1] + y[i + 1]) and not (x[i] == y[i]):
                    if x[i] != x[i] and y[i] != y[i]: continue
                    k = "%s/%s:value" % (unit, op)
                    f = fails.setdefault(k, dict(what="element %d of %d is %.17g with %s and %.17g with %s (allowed difference %.3g)" % (i // 2, len(x) // 2, x[i], ca, y[i], cb, x[i + 1] + y[i + 1]), desc=desc, count=0, case=0)); f["count"] += 1
                    break
    for k, f in fails.items():
        f.update(key=k, cfg=ca + "/" + cb, unit=unit)
    return list(fails.values()), nval, nevt


# ---------------------------------------------------------------- known findings
def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid: out[m.group(2)] = m.group(3).strip()
    return out


# ---------------------------------------------------------------- one property
def run_property(pid, tier, seed):
    t0 = time.time()
    P = PROPS[pid]
    sweep_build()
    work = os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        return _run_property(pid, P, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _run_property(pid, P, tier, seed, work, t0):
    cfgs = P["quick"] if tier == "quick" else P["deep"]
    how = P["how"]
    jobs = []
    for c in cfgs:
        for u in P["units"]:
            if how == "san" and u in PLAIN_UNITS and not c.endswith("internal"): continue
            jobs.append((u, c))
    weight = {"struct": 9, "spmap": 8, "alias": 8, "chol": 7, "mat": 7, "elem": 7, "reuse": 7, "val": 7, "tri": 6}
    jobs.sort(key=lambda j: (not j[1].startswith(("asan", "casan", "msan")), -weight.get(j[0], 1)))
    fails, results = [], []
    limit = 150 if tier == "quick" else 1500
    mode = {"check": "check", "log": "log", "san": "san"}[how]

    def one(u, c):
        exe, err = build(u, c)
        if exe is None:
            return ("skip" if err.startswith("skip: ") else "compile", u, c, err)
        lg = os.path.join(work, "%s.%s.log" % (u, c)) if how == "log" else None
        r = run_once(exe, u, c, seed, tier, mode, work, limit, lg)
        r["log"] = lg
        return ("run", u, c, r)

    with cf.ThreadPoolExecutor(JOBS) as ex:
        done = list(ex.map(lambda j: one(*j), jobs))
    compile_errs = [d for d in done if d[0] == "compile"]
    if compile_errs:
        cerr = control_compiles()
        for _, u, c, err in compile_errs:
            m = re.search(r"[^\n]*(?:error|undefined reference)[^\n]*", err)
            fails.append(dict(key="%s/compile" % u, what="a public operation does not compile: " + (m.group(0) if m else err)[:300], desc="configuration " + c, report=err[:4000], cfg=c, unit=u, count=1, case=0))
        if cerr:
            fails[-1]["report"] += "\nThe headers alone do not compile either:\n" + cerr[:2000]
    hung = False
    skipped = {"%s.%s" % (d[1], d[2]): d[3] for d in done if d[0] == "skip"}
    for d in done:
        if d[0] != "run": continue
        r = d[3]
        # inconclusive endings: once more, alone
        fixed_layout = bool(STARTUP_RE.search(r["err"])) and r["data"] is None
        if r["timed_out"] and hung:     # one confirmed hang is enough
            results.append(r)
            continue
        if r["timed_out"] or fixed_layout or RESOURCE_RE.search(r["err"]) or r["rc"] == -9:
            exe, _ = build(r["unit"], r["cfg"])
            lg = r["log"]
            r = run_once(exe, r["unit"], r["cfg"], seed, tier, mode, work, limit, lg, ["setarch", "-R"] if fixed_layout else [])
            r["log"] = lg
            if r["data"] is None:
                if STARTUP_RE.search(r["err"]) or "setarch" in r["err"]:
                    skipped["%s.%s" % (r["unit"], r["cfg"])] = "the sanitizer run-time did not start"
                    continue
                if r["rc"] == -9 and not r["timed_out"]:
                    raise HarnessError("%s.%s was killed twice (memory?)" % (r["unit"], r["cfg"]))
                if RESOURCE_RE.search(r["err"]):
                    raise HarnessError("%s.%s: no threads or memory left: %s" % (r["unit"], r["cfg"], r["err"][:300]))
        hung = hung or r["timed_out"]
        results.append(r)
        fails += judge(r)

    compared = events = 0
    pairs = []
    if how == "log":
        byu = {}
        for r in results:
            if r["data"] is not None: byu.setdefault(r["unit"], {})[r["cfg"]] = r["log"]
        for u, m in byu.items():
            base = "opt-internal" if "opt-internal" in m else sorted(m)[0]
            pairs += [(u, m[base], m[c], base, c) for c in m if c != base]
        with cf.ProcessPoolExecutor(JOBS) as ex:
            for fl, nv, ne in ex.map(_cmp, pairs):
                fails += fl; compared += nv; events += ne

    # ---- what was observed
    ok = [r for r in results if r["data"] is not None]
    evals = sum(r["data"]["evals"] for r in ok)
    obs = sum(r["data"]["observations"] for r in ok)
    distinct, ops, counters, samples = {}, {}, {}, []
    for r in ok:
        d = r["data"]
        distinct[r["unit"]] = max(distinct.get(r["unit"], 0), d["distinct"])
        for k, v in d["ops"].items():
            ops[r["unit"] + "/" + k] = ops.get(r["unit"] + "/" + k, 0) + v
        for k, v in d["counters"].items():
            if k.startswith("worst_"): counters[k] = max(counters.get(k, 0), v)
            else: counters[k] = counters.get(k, 0) + v
        if not any(s.startswith(r["unit"] + "/") for s in samples):
            samples += [r["unit"] + "/" + s for s in d["samples"][:(12 if len(P["units"]) < 3 else 2)]]
    nd = sum(distinct.values())
    kf = known_findings(pid)
    # one report per key; the same key in several configurations is one violation
    by = {}
    for f in fails: by.setdefault(f["key"], []).append(f)
    known = {k: v for k, v in by.items() if k in kf}
    new = {k: v for k, v in by.items() if k not in kf}
    if not new and (nd < 20 or obs < 100 or (how == "log" and compared < 100)):
        raise HarnessError("too little was observed: %d distinct cases, %d observations" % (nd, obs))
    cov = dict(evaluations=evals, distinct_nontrivial=nd,
               rule=META[pid]["rule"],
               samples=samples[:20] or ["none"], observations=obs, operations=ops, counters=counters,
               configurations={c: sum(1 for r in ok if r["cfg"] == c) for c in cfgs}, runs=len(results),
               runs_incomplete=len(results) - len(ok), configurations_skipped=skipped, exhaustive=False)
    if how == "log": cov.update(values_compared=compared, events_compared=events, log_pairs=len(pairs))
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=META[pid].get("assumptions", []) + ["finite data of moderate magnitude; gcc/clang on x86-64; OpenBLAS and LAPACKE as installed"],
              wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", pid + ".json.tmp")
    with open(tmp, "w") as f: json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))

    for k, v in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, kf[k]))
    if new:
        rd = os.path.join(VERIF, "replay"); os.makedirs(rd, exist_ok=True)
        for n, (k, v) in enumerate(sorted(new.items())):
            if n >= 12:
                print("  ... and %d further keys" % (len(new) - 12)); break
            path = os.path.join(rd, "%s-%s.json" % (pid, re.sub(r"[^A-Za-z0-9.]+", "_", k)[:80]))
            f = v[0]
            with open(path, "w") as fh:
                json.dump(dict(property=pid, key=k, unit=f["unit"], configurations=sorted({x["cfg"] for x in v}), seed=seed, tier=tier, mode=mode, what=f["what"], case=f["desc"],
                               case_number=f.get("case"), occurrences=sum(x.get("count", 1) for x in v), report=f.get("report", "")), fh, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  %s [%s]: %s\n    case: %s" % (k, ", ".join(sorted({x["cfg"] for x in v})), f["what"], f["desc"][:300]))
        return 1
    print("%s: held on %d evaluations (%d distinct non-trivial cases, %d observations, %d runs in %s), %.1f s" % (pid, evals, nd, obs, len(results), ", ".join(cfgs), time.time() - t0))
    return 0


def _cmp(a):
    return compare_logs(*a)


META = json.loads(read(os.path.join(VERIF, "meta.json"))) if os.path.exists(os.path.join(VERIF, "meta.json")) else {}


def replay(path):
    d = json.loads(read(path))
    sweep_build()
    rc = 0
    for cfg in d["configurations"]:
        for c in cfg.split("/"):
            exe, err = build(d["unit"], c)
            if exe is None:
                print(err); rc = 1; continue
            work = os.path.join(BUILD, "replay-%d" % os.getpid()); os.makedirs(work, exist_ok=True)
            r = run_once(exe, d["unit"], c, d["seed"], d["tier"], d["mode"], work, 600, os.path.join(work, "log") if d["mode"] == "log" else None)
            for f in judge(r):
                print("%s [%s]: %s\n  case %s: %s\n%s" % (f["key"], c, f["what"], f.get("case"), f["desc"], f.get("report", ""))); rc = 1
            shutil.rmtree(work, ignore_errors=True)
    return rc


def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        for t in ("g++", "clang++"):
            if not shutil.which(t): print("missing: " + t); return 2
        sweep_build()
        control_compiles()
        return 0
    if a[:1] == ["--replay"]: return replay(a[1])
    if a[:1] == ["--list"]: print("\n".join(PROPS)); return 0
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    for i, x in enumerate(a):
        if x == "--tier": tier = a[i + 1]
        if x == "--seed": seed = a[i + 1]
    try: seed = int(seed)
    except ValueError: seed = int(hashlib.sha256(seed.encode()).hexdigest()[:8], 16)
    if tier not in ("quick", "thorough"): tier = "quick"
    return run_property(pid, tier, seed)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except HarnessError as e:
        print("ERROR: " + str(e)); sys.exit(2)
