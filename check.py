#!/usr/bin/env python3
"""check.py Cxx  — build the simulator from /repo's working tree, search seeds for a violation of
property Cxx, confirm / minimise / report it.  See DESIGN.md.

env: VERIF_SEED (default 1), VERIF_TIER (quick|thorough), REPO (default /repo)
exit: 0 property held, 1 VIOLATION (replay file written), 2 error of the check itself.
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
BUILD = os.path.join(HERE, "build")
NPROC = min(8, os.cpu_count() or 8)
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks_table import CHECKS, FLAVORS   # noqa: E402


class CheckError(Exception):
    pass


# ---------------------------------------------------------------- build
def core_sources():
    """the library's sources: everything in src/ but the R and Python bindings"""
    res = []
    for f in sorted(glob.glob(REPO + "/src/*.cpp")):
        t = read(f)
        if b"cpp11" not in t and b"pybind11" not in t:
            res.append(f)
    return res


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def json_shim():
    """The system's json.hpp with one change: allocations made while a json value is destroyed, or for
    the node of a json value itself, never fail.  (nlohmann's destructor allocates and is noexcept, and operator[] leaves
    an invalid value behind, so a refusal there ends the process; that is outside the library.)"""
    src = read("/usr/include/nlohmann/json.hpp").decode()
    new = src.replace("void destroy(value_t t)\n        {", "void destroy(value_t t)\n        { struct SimNoFail { SimNoFail() { ++sim::g_nofail; } ~SimNoFail() { --sim::g_nofail; } } sim_nofail;", 1)
    new = new.replace("static T* create(Args&& ... args)\n    {", "static T* create(Args&& ... args)\n    { struct SimNoFail { SimNoFail() { ++sim::g_nofail; } ~SimNoFail() { --sim::g_nofail; } } sim_nofail;", 1)
    new = "namespace sim { extern int g_nofail; }\n" + new
    d = os.path.join(BUILD, "jsonshim", "nlohmann")
    p = os.path.join(d, "json.hpp")
    if not (os.path.exists(p) and read(p).decode() == new):
        os.makedirs(d, exist_ok=True)
        tmp = p + ".%d.tmp" % os.getpid()
        with open(tmp, "w") as f:
            f.write(new)
        os.replace(tmp, p)


def eigen_shim():
    """The system's Eigen (as symbolic links) with one change: the allocation made when a matrix that holds memory
    changes its size never fails.  (Eigen 3.4 frees the old block first and keeps the dangling pointer, so a refusal
    there ends in a double free inside Eigen, whatever the library does.)"""
    base, top = os.path.join(BUILD, "eigenshim", "Eigen"), "/usr/include/eigen3/Eigen"
    target = os.path.join(base, "src", "Core", "DenseStorage.h")
    text = read(top + "/src/Core/DenseStorage.h").decode()
    guard = "struct SimNoFail { SimNoFail() { ++sim::g_nofail; } ~SimNoFail() { --sim::g_nofail; } } sim_nofail;"
    new = re.sub(r"(void resize\(Index size[^)]*\)\s*\{)", r"\1 " + guard, text)
    new = "namespace sim { extern int g_nofail; }\n" + new
    if os.path.exists(target) and read(target).decode() == new:
        return
    tmp = os.path.join(BUILD, "eigenshim.%d.tmp" % os.getpid())
    shutil.rmtree(tmp, ignore_errors=True)
    for d, skip in (("", "src"), ("src", "Core"), ("src/Core", "DenseStorage.h")):
        os.makedirs(os.path.join(tmp, "Eigen", d))
        for x in os.listdir(os.path.join(top, d)):
            if x != skip:
                os.symlink(os.path.join(top, d, x), os.path.join(tmp, "Eigen", d, x))
    with open(os.path.join(tmp, "Eigen", "src", "Core", "DenseStorage.h"), "w") as f:
        f.write(new)
    shutil.rmtree(os.path.join(BUILD, "eigenshim"), ignore_errors=True)
    os.replace(tmp, os.path.join(BUILD, "eigenshim"))


def headers_hash():
    fs = sorted(glob.glob(REPO + "/include/**/*.h", recursive=True) + glob.glob(REPO + "/src/*.h") +
                glob.glob(HERE + "/sim/*.h") + glob.glob(HERE + "/shim/*.h") +
                glob.glob(BUILD + "/jsonshim/nlohmann/*.hpp") + [BUILD + "/eigenshim/Eigen/src/Core/DenseStorage.h"])
    return sha(*[x for f in fs for x in (f, read(f))])


def run_cmd(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def compile_units(units):
    """units: list of (src, flags) -> list of object files; content addressed."""
    hh = headers_hash()
    objs, jobs, seen = [], [], set()
    for src, flags in units:
        fl = [f.replace("{REPO}", REPO).replace("{HERE}", HERE) for f in flags]
        key = sha(hh, src, read(src), " ".join(fl))
        obj = os.path.join(BUILD, "obj", key + ".o")
        objs.append(obj)
        if not os.path.exists(obj) and obj not in seen:
            seen.add(obj)
            jobs.append((os.path.getsize(src), ["g++"] + fl + ["-c", src, "-o"], obj))
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    jobs.sort(key=lambda j: -j[0])

    def one(j):
        tmp = j[2] + ".%d.tmp" % os.getpid()
        r = run_cmd(j[1] + [tmp])
        if r.returncode == 0:
            os.replace(tmp, j[2])
        return r, j

    with cf.ThreadPoolExecutor(NPROC) as ex:
        for r, j in ex.map(one, jobs):
            if r.returncode:
                raise CheckError("compile failed: %s\n%s" % (" ".join(j[1]), r.stdout[-6000:]))
    return objs


def link(objs, flags, out):
    key = sha(*objs, " ".join(flags))
    path = os.path.join(BUILD, out + "-" + key)
    if not os.path.exists(path):
        tmp = path + ".%d.tmp" % os.getpid()
        r = run_cmd(["g++"] + objs + flags + ["-o", tmp])
        if r.returncode:
            raise CheckError("link failed\n" + r.stdout[-6000:])
        os.replace(tmp, path)
    return path


def build_many(specs):
    """specs: {key: (flavor, [harness sources])}; all units compiled in one parallel batch."""
    units, spans = [], {}
    json_shim()
    eigen_shim()
    for key, (flavor, srcs) in specs.items():
        f = FLAVORS[flavor]
        u = [(c, f["cflags"]) for c in core_sources()] + \
            [(HERE + "/sim/" + s + ".cpp", f["cflags"]) for s in ["main"] + srcs]
        spans[key] = (len(units), len(u))
        units += u
    objs = compile_units(units)
    return {k: link(objs[a:a + n], FLAVORS[specs[k][0]]["ldflags"], "sim-" + specs[k][0]) for k, (a, n) in spans.items()}


def build_python():
    """the real Python package of the working tree (its extension built here) plus the simulator in pysim/, as one executable"""
    venv = "/opt/vp/venv"
    srcs = [f for f in sorted(glob.glob(REPO + "/src/*.cpp")) if b"cpp11" not in read(f)]
    fl = FLAVORS["python"]
    objs = compile_units([(f, fl["cflags"]) for f in srcs])
    so = link(objs, fl["ldflags"], "stochtree_cpp")
    pys = sorted(glob.glob(REPO + "/stochtree/**/*.py", recursive=True))
    sim = sorted(glob.glob(HERE + "/pysim/*.py"))
    d = os.path.join(BUILD, "py-" + sha(so, *[x for f in pys + sim for x in (os.path.relpath(f, REPO), read(f))]))
    if not os.path.exists(d):
        tmp = d + ".%d.tmp" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        for f in pys:
            to = os.path.join(tmp, os.path.relpath(f, REPO))
            os.makedirs(os.path.dirname(to), exist_ok=True)
            shutil.copy(f, to)
        shutil.copy(so, tmp + "/stochtree_cpp.so")
        with open(tmp + "/sim", "w") as f:
            f.write("#!/bin/sh\nexport PYTHONPATH=%s OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore\n"
                    "exec %s/bin/python %s/pysim/main.py \"$@\"\n" % (d, venv, HERE))
        os.chmod(tmp + "/sim", 0o755)
        try:
            os.replace(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return d + "/sim"


def build_r():
    """the real R package of the working tree (its library built here) plus the simulator in rsim/, as one executable"""
    srcs = [f for f in sorted(glob.glob(REPO + "/src/*.cpp")) if "py_stochtree" not in f]
    fl = FLAVORS["r"]
    so = link(compile_units([(f, fl["cflags"]) for f in srcs]), fl["ldflags"], "stochtree_r")
    rs = sorted(glob.glob(REPO + "/R/*.R"))
    sim = sorted(glob.glob(HERE + "/rsim/*"))
    d = os.path.join(BUILD, "r-" + sha(so, *[x for f in rs + sim for x in (os.path.basename(f), read(f))]))
    if not os.path.exists(d):
        tmp = d + ".%d.tmp" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp + "/R")
        for f in rs:
            shutil.copy(f, tmp + "/R/")
        shutil.copy(so, tmp + "/stochtree.so")
        r = run_cmd(["gcc", "-O1", "-shared", "-fPIC", HERE + "/rsim/rfault.c", "-o", tmp + "/rfault.so", "-ldl"])
        if r.returncode:
            raise CheckError("building rfault failed\n" + r.stdout)
        with open(tmp + "/sim", "w") as f:
            # descriptor 9 carries the protocol; whatever the library prints goes to stderr
            f.write("#!/bin/bash\nexport RSIM_PKG=%s OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 LC_ALL=C.UTF-8 R_ENABLE_JIT=3 LD_PRELOAD=%s/rfault.so\n"
                    "if [ \"$1\" = gen ]; then exec Rscript --vanilla %s/rsim/main.R \"$@\"; fi\n"
                    "exec Rscript --vanilla %s/rsim/main.R \"$@\" 9>&1 1>&2\n" % (d, d, HERE, HERE))
        os.chmod(tmp + "/sim", 0o755)
        try:
            os.replace(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return d + "/sim"


BUILDERS = {"python": build_python, "r": build_r}


# ---------------------------------------------------------------- running
def sim_env(extra=None):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=4000"
    e["LC_ALL"] = "C"
    for k in ("MALLOC_PERTURB_", "MALLOC_ARENA_MAX"):
        e.pop(k, None)
    e.update(extra or {})
    return e


def crash_class(rc, err):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err) or re.search(r"ERROR: LeakSanitizer: ([\w-]+)", err)
    if m:
        return "asan-" + m.group(1)
    if rc == -signal.SIGALRM:
        return "hang"
    if rc < 0:
        return "signal-%d" % -rc
    if "terminate called" in err:
        return "terminate"
    return "exit-%d" % rc


def crash_msg(err):
    m = re.search(r"SUMMARY: .*", err)
    if m:
        return re.sub(r"/\S*/(src|include)/", r"\1/", m.group(0))
    for line in err.splitlines():
        if "terminate" in line or "what()" in line:
            return line.strip()
    return err.strip().splitlines()[-1] if err.strip() else ""


class Failing:
    def __init__(self, world, seed, cls, msg, plan=None):
        self.world, self.seed, self.cls, self.msg, self.plan = world, seed, cls, msg, plan


def parse_batch(world, rc, out, err):
    """-> (hashes {seed:(hash,steps)}, failures [Failing], J or None)"""
    H, F, J, last = {}, [], None, None
    for line in out.splitlines():
        if line.startswith("S "):
            last = int(line.split()[1])
        elif line.startswith("H "):
            a = line.split()
            H[int(a[1])] = (a[2], int(a[3]))
        elif line.startswith("F "):
            a = line.split(" ", 4)
            F.append(Failing(world, int(a[1]), a[3], a[4] if len(a) > 4 else ""))
        elif line.startswith("J "):
            J = json.loads(line[2:])
    if J is None:
        if rc == 3:
            raise CheckError("simulator error: " + err[-2000:])
        if last is None:
            raise CheckError("simulator died before its first run (rc %d): %s" % (rc, err[-2000:]))
        F.append(Failing(world, last, crash_class(rc, err), crash_msg(err)))
    return H, F, J


class Sim:
    """One simulator executable plus how to run it."""

    def __init__(self, exe, prop, env=None, limit=120):
        self.exe, self.prop, self.env, self.limit = exe, prop, env or {}, limit

    def cmd_batch(self, world, start, stride, secs, maxn=None, thorough=False):
        c = [self.exe, "batch", "--world", world, "--prop", self.prop, "--start", str(start), "--stride", str(stride),
             "--time", str(secs), "--limit", str(self.limit)]
        if maxn is not None:
            c += ["--max", str(maxn)]
        if thorough:
            c += ["--thorough"]
        return c

    def gen(self, world, seed, thorough):
        c = [self.exe, "gen", "--world", world, "--seed", str(seed), "--prop", self.prop] + (["--thorough"] if thorough else [])
        r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=sim_env(self.env))
        if r.returncode:
            raise CheckError("gen failed: " + r.stderr[-500:])
        return r.stdout

    def replay(self, text, limit=None):
        """-> (failed, cls, msg, hash)"""
        fd, path = tempfile.mkstemp(suffix=".plan", dir=TMP)
        with os.fdopen(fd, "w") as f:
            f.write(text)
        try:
            r = subprocess.run([self.exe, "replay", path, "--prop", self.prop, "--limit", str(limit or self.limit)],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=sim_env(self.env), cwd=TMP)
        finally:
            os.unlink(path)
        h = re.search(r"^HASH (\w+)", r.stdout, re.M)
        h = h.group(1) if h else ""
        m = re.search(r"^FAIL (\S+) (\S+) ?(.*)", r.stdout, re.M)
        if m:
            return True, m.group(2), m.group(3), h
        if re.search(r"^PASS", r.stdout, re.M) and r.returncode == 0:
            return False, "", "", h
        if r.returncode == 3:
            return None, "harness", r.stderr[-300:], h
        return True, crash_class(r.returncode, r.stderr), crash_msg(r.stderr), h


def run_batches(jobs):
    """jobs: list of (world, cmd, env) -> list of (world, rc, out, err)."""
    procs = []
    for world, cmd, env in jobs:
        o = tempfile.TemporaryFile(mode="w+", errors="replace", dir=TMP)
        e = tempfile.TemporaryFile(mode="w+", errors="replace", dir=TMP)
        procs.append((world, subprocess.Popen(cmd, stdout=o, stderr=e, env=sim_env(env), cwd=TMP), o, e))
    res = []
    for world, p, o, e in procs:
        p.wait()
        o.seek(0)
        out = o.read()
        e.seek(0, 2)
        n = e.tell()
        e.seek(max(0, n - 200000))
        res.append((world, p.returncode, out, e.read()))
        o.close()
        e.close()
    return res


# ---------------------------------------------------------------- minimisation
def minimise(sim, text, cls, budget):
    t0 = time.time()
    head, cfg, ops = [], {}, []
    for line in text.splitlines():
        if line.startswith("cfg "):
            a = line.split(" ", 2)
            cfg[a[1]] = a[2] if len(a) > 2 else ""
        elif line.startswith("op "):
            ops.append(line)
        elif line.strip() and not line.startswith("#"):
            head.append(line)
    tries = [0]

    def render(c, o):
        return "\n".join(head + ["cfg %s %s" % kv for kv in sorted(c.items())] + o) + "\n"

    def bad_many(cands):
        """index of the first candidate that still fails the same way"""
        tries[0] += len(cands)
        with cf.ThreadPoolExecutor(NPROC) as ex:
            rs = list(ex.map(lambda t: sim.replay(t, limit=30), cands))
        for i, r in enumerate(rs):
            if r[0] and r[1] == cls:
                return i
        return None

    def left():
        return budget - (time.time() - t0)

    changed = True
    while changed and left() > 0:
        changed = False
        k = 2
        while len(ops) >= 1 and left() > 0:
            size = max(1, (len(ops) + k - 1) // k)
            chunks = [(i, min(len(ops), i + size)) for i in range(0, len(ops), size)]
            cands = [render(cfg, ops[:a] + ops[b:]) for a, b in chunks]
            i = bad_many(cands)
            if i is not None:
                a, b = chunks[i]
                ops = ops[:a] + ops[b:]
                k = max(2, k - 1)
                changed = True
            elif size == 1:
                break
            else:
                k = min(len(ops), k * 2)
        # shrink configuration values
        for key in sorted(cfg):
            if left() <= 0:
                break
            v = cfg[key]
            if re.fullmatch(r"-?\d+", v) and len(v) < 7 and int(v) not in (0, 1):
                n = int(v)
                opts = []
                for cand in (0, 1, 2, n // 4, n // 2, (3 * n) // 4, n - 1):
                    if abs(cand) < abs(n) and cand not in opts:
                        opts.append(cand)
                i = bad_many([render({**cfg, key: str(o)}, ops) for o in opts])
                if i is not None:
                    cfg[key] = str(opts[i])
                    changed = True
        # drop single options of the remaining operations
        j = 0
        while j < len(ops) and left() > 0:
            tok = ops[j].split(" ")
            opt = [k for k in range(2, len(tok)) if "=" in tok[k]]
            cands = [render(cfg, ops[:j] + [" ".join(tok[:k] + tok[k + 1:])] + ops[j + 1:]) for k in opt]
            i = bad_many(cands) if cands else None
            if i is None:
                j += 1
            else:
                ops[j] = " ".join(tok[:opt[i]] + tok[opt[i] + 1:])
                changed = True
    return render(cfg, ops), tries[0], len(ops)


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) match=(.*?) \| (.*)$", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3), m.group(4)))
    return res


def match_known(known, f):
    for cls, pat, what in known:
        if f.cls == cls and (pat == "*" or re.search(pat, f.msg)):
            return what
    return None


# ---------------------------------------------------------------- main
def report_violation(prop, text, cls, msg, extra=""):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", "%s-%s.plan" % (prop, sha(text)[:10]))
    with open(path, "w") as f:
        f.write("# property %s\n# class %s\n# %s\n%s# replay: python3 check.py %s --replay %s\n" % (prop, cls, msg, extra, prop, path))
        f.write(text)
    return path


def write_evidence(prop, ev):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def main():
    global TMP
    prop = sys.argv[1]
    chk = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed0 = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    t_start = time.time()
    TMP = tempfile.mkdtemp(prefix="sim-%s-" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
    os.environ["SIM_TMP"] = TMP
    try:
        if chk.get("driver"):
            import importlib
            mod = importlib.import_module(chk["driver"])
            return mod.run(sys.modules[__name__], prop, chk, tier, seed0, TMP)
        return run_check(prop, chk, tier, thorough, seed0, t_start)
    finally:
        shutil.rmtree(TMP, ignore_errors=True)


def merge(dst, src):
    for k, v in src.items():
        dst[k] = dst.get(k, 0) + v


def run_check(prop, chk, tier, thorough, seed0, t_start):
    parts = chk["parts"]      # list of dicts: key, flavor, srcs, worlds [(name, workers)], env
    exes = build_many({p["key"]: (p["flavor"], p["srcs"]) for p in parts if p["flavor"] not in BUILDERS})
    for p in parts:
        if p["flavor"] in BUILDERS:
            exes[p["key"]] = BUILDERS[p["flavor"]]()
    t_build = time.time() - t_start
    print("build %.1f s" % t_build, flush=True)
    sims = {}
    for p in parts:
        for w, _ in p["worlds"]:
            sims[w] = Sim(exes[p["key"]], prop, p.get("env"), p.get("limit", 120))

    if "--replay" in sys.argv:
        text = open(sys.argv[sys.argv.index("--replay") + 1]).read()
        w = re.search(r"^world (\S+)", text, re.M).group(1)
        r = sims[w].replay(text)
        if "# class fresh-process-differs" in text and not r[0]:
            hs = {sims[w].replay(text)[3] for _ in range(12)} | {r[3]}
            if len(hs) > 1:
                r = (True, "fresh-process-differs", "histories %s" % sorted(hs), r[3])
        print("FAIL %s %s hash %s" % (r[1], r[2], r[3]) if r[0] else "PASS hash %s" % r[3])
        return 1 if r[0] else 0
    if "--seed" in sys.argv:   # show one plan
        w = sys.argv[sys.argv.index("--seed") + 1]
        print(sims[w].gen(w, int(sys.argv[sys.argv.index("--seed") + 2]), thorough))
        return 0

    known = known_findings(prop)
    failures, H, tot = [], {}, dict(runs=0, steps=0)
    probe, fault, states = {}, {}, set()

    # 1. regression plans of earlier findings
    reg = []
    for f in sorted(glob.glob(os.path.join(HERE, "findings", prop + "-*.plan"))):
        text = open(f).read()
        w = re.search(r"^world (\S+)", text, re.M).group(1)
        if w in sims:
            reg.append((f, w, text))
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for (f, w, text), r in zip(reg, ex.map(lambda x: sims[x[1]].replay(x[2]), reg)):
            if r[0] is None:
                raise CheckError("regression plan %s: %s" % (f, r[2]))
            if r[0]:
                failures.append(Failing(w, -1, r[1], r[2], text))

    # 2. seeded search
    secs = chk["thorough_s"] if thorough else chk["quick_s"]
    if "--time" in sys.argv:
        secs = float(sys.argv[sys.argv.index("--time") + 1])
    base = 1 + (seed0 - 1) * 100000000
    layout = []
    for p in parts:
        for w, k in p["worlds"]:
            layout.append((w, k))
    nw = sum(k for _, k in layout)
    jobs, starts = [], []
    for w, k in layout:
        for i in range(k):
            jobs.append((w, sims[w].cmd_batch(w, base + i, k, secs, thorough=thorough), sims[w].env))
            starts.append((w, base + i, k))
    deadline = time.time() + secs
    pending = list(zip(jobs, starts))
    rounds = 0
    crashes = 0
    while pending:
        res = run_batches([j for j, _ in pending])
        nxt = []
        for (w, rc, out, err), (_, (_, st, k)) in zip(res, pending):
            h, F, J = parse_batch(w, rc, out, err)
            for s, v in h.items():
                H[(w, s)] = v
            failures += F
            tot["runs"] += len(h) + (1 if J is None else 0)
            if J:
                tot["steps"] += J["steps"]
                merge(probe, J["probe"])
                merge(fault, J["fault"])
                states.update((w, x) for x in J["states"])
            else:
                crashes += 1
                # the worker died: go on after the seed that killed it
                left = deadline - time.time()
                dead = F[-1].seed
                if left > 3 and crashes < 40 and match_known(known, F[-1]):
                    nxt.append(((w, sims[w].cmd_batch(w, dead + k, k, left, thorough=thorough), sims[w].env), (w, dead + k, k)))
        pending = nxt
        rounds += 1
    t_search = time.time() - t_start - t_build

    # 3. determinism: the first seeds again, in one process per world, in another order
    det = dict(seeds=0, mismatches=0)
    if not failures:
        jobs = []
        for w, k in layout:
            n = chk.get("det", 10)
            for a in range(2):
                jobs.append((w, sims[w].cmd_batch(w, base + a * k, 1, 60, maxn=n if a == 0 else 3, thorough=thorough), sims[w].env))
        for (w, rc, out, err) in run_batches(jobs):
            h, F, J = parse_batch(w, rc, out, err)
            for s, v in h.items():
                if (w, s) in H:
                    det["seeds"] += 1
                    if H[(w, s)] != v:
                        det["mismatches"] += 1
                        det.setdefault("where", (w, s))
                        det.setdefault("first", "%s seed %d: %s vs %s" % (w, s, H[(w, s)], v))
        if det["mismatches"]:
            if chk.get("det_violation"):   # the property is determinism itself
                w, s = det["where"]
                failures.append(Failing(w, s, "fresh-process-differs", "the same plan gives another history in another process: %s" % det["first"]))
            else:
                print("warning: runs are not bit-exact across processes: %s" % det)

    # 4. verdict
    out_known, new = {}, []
    for f in failures:
        what = match_known(known, f)
        if what:
            out_known.setdefault(what, f)
        else:
            new.append(f)
    for what, f in out_known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, what), flush=True)
    rc = 0
    vio = None
    if new:
        new.sort(key=lambda f: (f.cls.startswith("signal") or f.cls == "hang", f.seed))
        seen, confirmed, notes = set(), None, []
        for f in new:
            if f.cls in seen or len(seen) > 5:
                continue
            seen.add(f.cls)
            sim = sims[f.world]
            text = f.plan or sim.gen(f.world, f.seed, thorough)
            a, b = sim.replay(text), sim.replay(text)
            if f.cls == "fresh-process-differs":
                rs = [sim.replay(text) for _ in range(12)]
                if len({r[3] for r in rs}) > 1:
                    confirmed = (f, sim, text, (True, f.cls, f.msg, ""))
                    break
            if a[0] and b[0] and a[1] == b[1]:
                confirmed = (f, sim, text, a)
                break
            rs = [a, b] + [sim.replay(text) for _ in range(6)]
            bad = [r for r in rs if r[0]]
            if len(bad) >= 2:      # the code under test is not deterministic itself, but it does fail
                confirmed = (f, sim, text, bad[0])
                break
            notes.append("%s seed %s class %s: replay 1 %s, replay 2 %s" % (f.world, f.seed, f.cls, a, b))
        if not confirmed:
            if any(f.cls != "hang" for f in new):
                raise CheckError("a failure did not reproduce in a fresh process: " + "; ".join(notes))
            print("warning: a run took longer than the wall-clock limit but ends when replayed (busy machine): " + "; ".join(notes))
            new = []
    if new:
        f, sim, text, a = confirmed
        small, r1, tries, nops = text, a, 0, text.count("\nop ")
        if a[1] != "fresh-process-differs":
            small, tries, nops = minimise(sim, text, a[1], 40 if not thorough else 120)
            r1, r2 = sim.replay(small), sim.replay(small)
            if not (r1[0] and r2[0] and r1[1] == r2[1] == a[1]):
                small, r1 = text, a
            elif r1[3] != r2[3]:
                r1 = r1[:3] + (r1[3] + " (not bit-exact: another replay gave " + r2[3] + ")",)
        extra = "# world %s, found at seed %s; minimised in %d replays to %d operations; replays to hash %s\n" % (f.world, f.seed, tries, nops, r1[3])
        path = report_violation(prop, small, r1[1], r1[2], extra)
        print("%s: %s" % (r1[1], r1[2]))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        vio = dict(cls=r1[1], msg=r1[2], replay=path, seed=f.seed)
        rc = 1

    # 5. evidence
    nontriv = {v[0] for v in H.values() if v[1] >= chk.get("min_steps", 2)}
    samples = []
    if H:
        keys = sorted(H)
        for (w, s) in (keys[0], keys[len(keys) // 2]):
            samples.append(dict(world=w, seed=s, history_hash=H[(w, s)][0], steps=H[(w, s)][1], plan=sims[w].gen(w, s, thorough).splitlines()[:60]))
    cov = dict(
        evaluations=tot["runs"] + len(reg), distinct_nontrivial=len(nontriv),
        rule=chk["rule"], samples=samples,
        simulated_operations=tot["steps"],
        simulated_time="the code under test reads no clock; simulated time is the number of simulated operations (%d)" % tot["steps"],
        runs_per_hour=round(tot["runs"] / max(1e-9, t_search) * 3600), seeds=len(H), workers=nw,
        fault_kinds_fired=fault, probes=probe, distinct_states=len(states), state_measure=chk.get("state", "none"),
        regression_plans=len(reg), determinism_recheck=det,
        real_components=chk.get("real", ""), stubbed_components=chk.get("stub", ""),
        build_s=round(t_build, 1), search_s=round(t_search, 1))
    if vio:
        cov["violation"] = vio
    ev = dict(property=prop, tier=tier, seed=seed0, level=chk["level"], coverage=cov,
              assumptions=chk.get("assumptions", []), wall_s=round(time.time() - t_start, 1), violations=1 if vio else 0)
    write_evidence(prop, ev)
    missing = [p for p in chk.get("must", []) if not probe.get(p) and not fault.get(p)]
    if missing and rc == 0 and "--time" not in sys.argv:
        print("warning: never reached: %s" % missing)
    print("%s: %d runs, %d operations, %d distinct histories, %d states, %s" %
          (prop, tot["runs"], tot["steps"], len(nontriv), len(states), "VIOLATED" if rc else "held"), flush=True)
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK-ERROR: %s" % e, flush=True)
        sys.exit(2)
