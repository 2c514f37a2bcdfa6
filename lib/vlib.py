"""Shared machinery of the checks: build the code under test, run drivers against it, encode what
was observed as traces, run TLC on them, report."""
import atexit, concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
INST = REPO + "/_build/inst"
STAGE = REPO + "/_build/src"
LLVM = "/usr/lib/llvm-18"
CLANG = LLVM + "/bin/clang"
PY = "/opt/vp/venv/bin/python3"
SPEC = VERIF + "/spec"
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)


CALL = dict(INEXACT=1, SET_PRECISION_BINARY32=2, SET_PRECISION_BINARY64=3, SET_RANGE_BINARY32=4, SET_RANGE_BINARY64=5)


class Trouble(Exception):
    """The machinery (not the code under test) failed: no verdict."""


def base_env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("VFC_", "INTERFLOP_", "VERROU_"))}
    e["PATH"] = INST + "/bin:/opt/vp/venv/bin:" + LLVM + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["LD_LIBRARY_PATH"] = INST + "/lib"
    e["LIBRARY_PATH"] = INST + "/lib"
    e["LC_ALL"] = "C.UTF-8"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e.pop("PYTHONPATH", None)
    e.update({k: str(v) for k, v in kw.items()})
    return e


class Ctx:
    def __init__(self, pid, tier="quick"):
        self.pid = pid
        self.tier = tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(self.seed * 7919 + int(hashlib.md5(pid.encode()).hexdigest()[:6], 16))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vf_%s_" % pid)
        atexit.register(lambda: shutil.rmtree(self.scratch, ignore_errors=True))
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.cov_note = {}
        self.assumptions = []
        self.violations = []
        self.known_hits = []
        self.known = load_known(pid)
        self.log_lines = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def log(self, *a):
        s = " ".join(str(x) for x in a)
        print("[%s %6.1fs] %s" % (self.pid, time.time() - self.t0, s), flush=True)

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def path(self, *a):
        p = os.path.join(self.scratch, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    # -- verdicts ---------------------------------------------------------------------------
    def violation(self, what, detail=None, key=None):
        """Record a violation; KEY identifies it for the known-findings file."""
        if key is not None and key in self.known:
            if key not in self.known_hits:
                self.known_hits.append(key)
            return
        if len(self.violations) < 20:
            self.violations.append(dict(what=what, detail=detail, key=key))
        self.log("violation:", what)

    def sample(self, x, cap=6):
        if len(self.cov["samples"]) < cap:
            self.cov["samples"].append(x)

    def finish(self, level="model_checking", assumptions=()):
        out = os.path.join(VERIF, "out")
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(out, exist_ok=True)
        os.makedirs(ev, exist_ok=True)
        lines = []
        for i, v in enumerate(self.violations):
            rp = os.path.join(out, "%s-%d.json" % (self.pid, i))
            with open(rp, "w") as f:
                json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier, repo=REPO,
                               rerun="VERIF_SEED=%d python3 %s/checks/run.py %s %s" % (self.seed, VERIF, self.pid, self.tier), **v),
                          f, indent=1, default=str)
            lines.append("VIOLATION property=%s replay=%s" % (self.pid, rp))
        cov = dict(self.cov)
        cov.update(self.cov_note)
        rec = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                   assumptions=list(assumptions) + self.assumptions, wall_s=round(time.time() - self.t0, 1),
                   violations=len(self.violations))
        with open(os.path.join(ev, self.pid + ".json"), "w") as f:
            json.dump(rec, f, indent=1)
        for k in self.known_hits:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[k]))
        for v, l in zip(self.violations, lines):
            print("  " + v["what"])
            print(l)
        self.log("done", json.dumps(cov))
        sys.stdout.flush()
        sys.exit(1 if self.violations else 0)


def load_known(pid):
    """known-findings.txt: 'KNOWN property=<id> key=<key> <text>' and 'fixed: ...' lines."""
    res = {}
    f = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"KNOWN property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res


# -- building ---------------------------------------------------------------------------------
def build(ctx):
    """Rebuild the code under test from /repo's working tree (in the git-ignored _build)."""
    import fcntl
    os.makedirs(REPO + "/_build", exist_ok=True)
    with open("/tmp/.verif_build_lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for attempt in range(2):
            p = subprocess.run(["bash", VERIF + "/tools/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode == 0:
                break
    if p.returncode:
        raise Trouble("build failed:\n" + p.stdout[-3000:])
    ctx.log("built")


def sh(cmd, cwd=None, env=None, inp=None, timeout=300, check=False):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or base_env(), input=inp, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=timeout, shell=isinstance(cmd, str), errors="replace")
    except subprocess.TimeoutExpired as e:
        class R: pass
        r = R(); r.returncode = -999; r.stdout = (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
        r.stderr = "timeout"
        if check:
            raise Trouble("timeout: %s" % cmd)
        return r
    if check and p.returncode:
        raise Trouble("command failed (%d): %s\n%s\n%s" % (p.returncode, cmd, p.stdout[-1500:], p.stderr[-1500:]))
    return p


WRAP_FLAGS = {"plain": [], "cmp": ["-DINST_FCMP"], "fmacast": ["-DINST_FMA", "-DINST_CAST"], "cast": ["-DINST_CAST"],
              "fma": ["-DINST_FMA"], "func": ["-DINST_FUNC", "-DINST_FMA", "-DINST_CAST"], "full": ["-DINST_FCMP", "-DINST_FMA", "-DINST_CAST"], "asan": ["-fsanitize=address", "-g"]}


def march_flag():
    m = re.search(r'^march_flag = "(.*)"', open(INST + "/bin/verificarlo").read(), re.M)
    return m.group(1).split() if m else []


def opdrv(ctx, variant):
    """Driver linked with the runtime wrapper, compiled the way verificarlo-c compiles it."""
    exe = ctx.path("opdrv_" + variant)
    if os.path.exists(exe):
        return exe
    o, w = exe + ".o", exe + ".w.o"
    sh([CLANG, "-O3"] + march_flag() + ["-fPIC"] + WRAP_FLAGS[variant] + ["-c", "-Wno-varargs", "-I", INST + "/include",
       INST + "/include/vfcwrapper.c", "-o", w], check=True)
    sh([CLANG, "-O1"] + march_flag() + ["-c", VERIF + "/harness/opdrv.c", "-o", o], check=True)
    sh([CLANG, o, w] + (["-fsanitize=address"] if variant == "asan" else []) + ["-Wl,-rpath," + INST + "/lib", "-L" + INST + "/lib", "-ldl", "-lpthread", "-lm", "-linterflop_stdlib",
        "-linterflop_hashmap", "-linterflop_logger", "-o", exe], check=True)
    return exe


def drive(ctx, exe, backends, cmds, env=None, timeout=300, ok=True):
    """Run the driver with VFC_BACKENDS=backends on the command lines; returns the result lines."""
    e = base_env(VFC_BACKENDS=backends, VFC_BACKENDS_LOGGER="False")
    if env:
        e.update(env)
    p = sh([exe], env=e, inp="\n".join(cmds) + "\n", timeout=timeout)
    lines = p.stdout.split("\n")[:-1]
    if ok and (p.returncode != 0 or len(lines) != len(cmds)):
        raise DriverDied(p.returncode, lines, p.stderr[-2000:], backends)
    return (lines, p) if not ok else lines


class DriverDied(Exception):
    def __init__(self, rc, lines, err, backends):
        super().__init__("driver with %r ended with status %s after %d results: %s" % (backends, rc, len(lines), err))
        self.rc, self.lines, self.err = rc, lines, err


# -- floating point encoding --------------------------------------------------------------------
FMT = {"f": (23, 8), "d": (52, 11)}
LB = 15
LM = (1 << LB) - 1


def limbs(n):
    r = []
    while n:
        r.append(n & LM)
        n >>= LB
    return r


def unlimbs(l):
    return sum(x << (LB * i) for i, x in enumerate(l))


def word(u, t):
    return ("%08x" if t == "f" else "%016x") % u


def mkfp(t, s, e, m):
    """biased exponent e, fraction m"""
    p, w = FMT[t]
    return (s << (p + w)) | (e << p) | m


def split(u, t):
    p, w = FMT[t]
    return u >> (p + w), (u >> p) & ((1 << w) - 1), u & ((1 << p) - 1)


def fpval(h, t):
    """hex word -> value record of the specification (odd significand m, exponent e)."""
    u = int(h, 16) if isinstance(h, str) else h
    p, w = FMT[t]
    s, e, m = split(u, t)
    b = (1 << (w - 1)) - 1
    if e == (1 << w) - 1:
        return dict(k="q", s=0, e=0, m=[]) if m else dict(k="i", s=s, e=0, m=[])
    if e == 0 and m == 0:
        return dict(k="z", s=s, e=0, m=[])
    mm = m | (1 << p) if e else m
    ee = max(e, 1) - b - p
    while not mm & 1:
        mm >>= 1
        ee += 1
    return dict(k="n", s=s, e=ee, m=limbs(mm))


def intval(v):
    """value record -> (int, exp) for the drivers' own use"""
    return (-1 if v["s"] else 1) * unlimbs(v["m"]), v["e"]


# -- TLC ----------------------------------------------------------------------------------------
class TLC:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.gen, self.dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.finished = "Finished in" in out
        self.ok = rc == 0 and "No error has been found" in out
        self.post_failed = bool(re.search(r"[Pp]ost ?condition.*(false|violated|failed)", out, re.S | re.I)) or "The POSTCONDITION" in out
        self.inv = re.findall(r"Invariant (\S+) is violated", out)
        self.prop = "Temporal properties were violated" in out


def tlc(ctx, module, cfg, env=None, workers=1, heap="1500m", timeout=900, args=(), name=None):
    d = tempfile.mkdtemp(prefix="tlc_", dir=ctx.scratch)
    with open(d + "/M.cfg", "w") as f:
        f.write(cfg)
    e = base_env()
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-XX:TieredStopAtLevel=1", "-DTLA-Library=" + SPEC,
           "-cp", TLAJARS, "tlc2.TLC", "-noTE", "-workers", str(workers), "-metadir", d + "/md", "-config", d + "/M.cfg"] + list(args) + \
          [os.path.join(SPEC, module + ".tla")]
    p = sh(cmd, cwd=d, env=e, timeout=timeout)
    r = TLC(p.stdout + p.stderr, p.returncode)
    shutil.rmtree(d, ignore_errors=True)
    return r


TRACE_CFG = "SPECIFICATION Spec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"


def check_traces(ctx, module, traces, cfg=TRACE_CFG, env=None, extra="", timeout=900, heap="1500m"):
    """Validate traces (lists of events) against a trace specification, in parallel.
    Returns the list of (trace index, event index, event) rejected."""
    files = []
    for i, t in enumerate(traces):
        f = ctx.path("tr", "%s_%d_%d.ndjson" % (module, id(traces) % 100000, i))
        with open(f, "w") as fh:
            for ev in t:
                fh.write(json.dumps(ev, separators=(",", ":")) + "\n")
        files.append(f)

    def one(i):
        en = dict(env or {})
        en["TRACE"] = files[i]
        r = tlc(ctx, module, cfg + extra, env=en, timeout=timeout, heap=heap)
        if r.ok:
            if r.depth - 1 != len(traces[i]):
                raise Trouble("TLC accepted %s but explored %d of %d events\n%s" % (module, r.depth - 1, len(traces[i]), r.out[-2000:]))
            return None, r
        if r.finished and (r.post_failed or r.inv) and r.depth >= 1 or (r.inv and r.finished):
            k = r.depth - 1
            if r.inv:  # depth is not printed for an invariant violation: count the states of the error trace
                k = max(0, len(re.findall(r"^State \d+:", r.out, re.M)) - 2)
            return (i, k, traces[i][k] if k < len(traces[i]) else None), r
        raise Trouble("TLC failed on %s (rc %d):\n%s" % (module, r.rc, r.out[-3000:]))

    rej = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for res, r in ex.map(one, range(len(traces))):
            ctx.cov["states"] += r.dist
            ctx.cov["transitions"] += max(0, r.gen - 1)
            ctx.cov["traces_validated_against_impl"] += 1
            if res:
                rej.append(res)
    for f in files:
        os.unlink(f)
    return rej


def model_check(ctx, module, cfg, expect_ok=True, workers=NCPU, heap="6g", timeout=900, env=None, args=()):
    """Check a model's own properties.  A failure here is a failure of the machinery, never of the code."""
    r = tlc(ctx, module, cfg, workers=workers, heap=heap, timeout=timeout, env=env, args=args)
    if r.ok != expect_ok:
        raise Trouble("model check of %s: %s" % (module, r.out[-3000:]))
    ctx.cov["states"] += r.dist
    ctx.cov["transitions"] += r.gen
    return r


def ev_op(op, t, words, res, tr=None):
    """event of a scalar operation: operand words and result word"""
    ts = "d" if op == "cast" else t
    z = dict(k="z", s=0, e=0, m=[])
    v = [fpval(w, ts) for w in words] + [z] * (3 - len(words))
    return dict(o="op", op=op, t=t, a=v[0], b=v[1], c=v[2], r=fpval(res, "f" if op == "cast" else t))


def validate(ctx, module, traces, describe, key=None, maxrej=6, env=None, cfg=TRACE_CFG, heap="1500m", timeout=900):
    """Trace validation; every rejected event is reported and the rest of its trace is checked without it."""
    work = [(t, list(range(len(t)))) for t in traces if t]
    n = 0
    while work and n < maxrej:
        rej = check_traces(ctx, module, [w[0] for w in work], cfg=cfg, env=env, heap=heap, timeout=timeout)
        nxt = []
        for (i, k, ev) in rej:
            t, ids = work[i]
            what, detail = describe(i, t, k)
            ctx.violation(what, detail, key=key(i, t, k) if key else None)
            n += 1
            nt = t[:k] + t[k + 1:]
            if nt and k < len(nt):
                nxt.append((nt, ids))
        work = nxt
    return n


def pmap(f, l):
    with cf.ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(f, l))


def chunk(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def run_main(pid, fn, tier="quick"):
    ctx = Ctx(pid, tier)
    try:
        build(ctx)
        fn(ctx)
    except DriverDied as e:
        ctx.violation("a process under the real runtime died: %s" % e, dict(rc=e.rc, stderr=e.err, last=e.lines[-3:]))
        ctx.finish("model_checking")
    except Trouble as e:
        if ctx.violations:
            ctx.log("trouble after a violation:", e)
            ctx.finish("model_checking")
        print("ERROR (no verdict): %s" % e, flush=True)
        sys.exit(3)
