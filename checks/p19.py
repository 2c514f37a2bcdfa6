"""Delta debugging: answers of the real tool for arbitrary verdict functions, settings, resumptions and crashes."""
import shutil
from vlib import *

KEEP = ("ddmin", "rddmin-cmp", "ddmax")


def predicate(rng, n, runs):
    """one word per set: bit k-1 says that sample k fails"""
    full = (1 << n) - 1
    k = rng.random()
    if k < 0.45:     # monotone: what contains a bad group fails
        groups = [rng.randint(1, full) & rng.randint(1, full) or 1 << rng.randrange(n) for _ in range(rng.randint(1, 3))]
        bad = [any(g & m == g for g in groups) for m in range(full + 1)]
    elif k < 0.6:    # several independent groups
        bad = [False] * (full + 1)
        gs = []
        left = list(range(n))
        rng.shuffle(left)
        while left:
            s = rng.randint(1, 3)
            gs.append(sum(1 << i for i in left[:s]))
            left = left[s:]
        gs = rng.sample(gs, rng.randint(1, len(gs)))
        bad = [any(g & m == g for g in gs) for m in range(full + 1)]
    else:            # anything
        p = rng.choice([0.1, 0.3, 0.5, 0.7])
        bad = [rng.random() < p for _ in range(full + 1)]
    bad[0] = False
    bad[full] = rng.random() < 0.96
    if rng.random() < 0.55 or runs == 1:
        return [255 if b else 0 for b in bad], True
    words = []
    for b in bad:
        w = 0
        if b:
            w = rng.choice([255, 1 << rng.randrange(runs), rng.getrandbits(8) | 1 << rng.randrange(runs)])
        words.append(w)
    return words, False


def settings(rng, runs):
    s = {}
    algo = rng.choice(["rddmin", "rddmin", "rddmin", "ddmax"])
    if algo == "ddmax" or rng.random() < 0.5:
        s["ALGO"] = algo
    s["NRUNS"] = str(runs)
    if rng.random() < 0.35:
        s["NUM_THREADS"] = str(rng.choice([runs, runs + 1, 8, max(1, runs - 1)]))
    if algo == "rddmin":
        v = rng.choice(["s", "stoch", "d", "dicho", "", "strict", None])
        if v is not None:
            s["RDDMIN"] = v
        if rng.random() < 0.7:
            s["RDDMIN_TAB"] = rng.choice(["exp", "all", "single"])
        if rng.random() < 0.7:
            s["DICHO_TAB"] = rng.choice(["exp", "all", "single", "half", str(rng.randint(1, runs))])
        if rng.random() < 0.4:
            s["DICHO_GRANULARITY"] = str(rng.randint(2, 5))
    return algo, s


def bits(m):
    return [i + 1 for i in range(32) if m >> i & 1]


class Bench:
    def __init__(self, ctx, name):
        self.ctx = ctx
        self.dir = os.path.join(ctx.scratch, name)
        os.makedirs(self.dir)

    def setup(self, lines, words):
        for f, t in (("sites", "".join(lines)), ("bad", "\n".join(map(str, words)) + "\n")):
            with open(os.path.join(self.dir, f), "w") as h:
                h.write(t)
        self.lines = lines
        for l in ("ddRun", "ddCmp"):
            os.symlink(self.ctx.ddprog, os.path.join(self.dir, l))
        self.pos = 0

    def run(self, s, crash=None):
        """one run of the tool; returns its events"""
        dd = os.path.join(self.dir, "dd.line")
        if os.path.isdir(dd):
            for l in os.listdir(dd):
                if l.startswith(KEEP):
                    os.unlink(os.path.join(dd, l))
        env = base_env(DDS=self.dir, PYTHONPATH=self.ctx.pytools, **{"INTERFLOP_DD_" + k: v for k, v in s.items()})
        if crash:
            env["DDCRASH"] = crash
        p = sh([sys.executable, os.path.join(VERIF, "harness", "ddcrash.py"), os.path.join(self.dir, "ddRun"), os.path.join(self.dir, "ddCmp")], env=env, cwd=self.dir, timeout=120)
        text = " ".join("%s=%s" % x for x in sorted(s.items()))
        lf = os.path.join(self.dir, "log")
        log = open(lf).read().split("\n")[:-1] if os.path.exists(lf) else []
        ev = []
        for l in log[self.pos:]:
            w = l.split(" ")
            if w[0] == "sample":
                ev.append(dict(o="sample", set=bits(int(w[1])), bad=w[3] == "1", raw="[%s] %s" % (text, l[:60])))
            elif w[0] != "ref":
                ev.append(dict(o="sample", set=[99], bad=True, raw="[%s] a sample ran on a bad list of sites: %s" % (text, l)))
        self.pos = len(log)
        if p.returncode == -9 and crash:
            return ev, None
        rep = []
        if os.path.isdir(dd):
            for l in sorted(os.listdir(dd), key=lambda x: (len(x), x)):
                if l.startswith(KEEP):
                    rep.append((l, self.content(os.path.join(dd, l), text)))
        num = [l for l, _ in rep if l.startswith("ddmin")]
        if num != ["ddmin%d" % i for i in range(len(num))]:
            rep.append(("ddmin", [98]))
        for l, st in rep:
            kind = "min" if l.startswith("ddmin") else "rest" if l == "rddmin-cmp" else "top"
            ev.append(dict(o="report", kind=kind, set=st, raw="[%s] %s = %s" % (text, l, st)))
        ev.append(dict(o="end", ok=p.returncode == 0, raw="[%s] status %d, answers %s; %s" % (text, p.returncode, rep, p.stderr.strip()[-300:])))
        return ev, p.returncode

    def content(self, d, text):
        """the set a reported directory stands for: both of its files agree"""
        try:
            inc = open(os.path.join(d, "dd.line.include")).read().splitlines(True)
            exc = open(os.path.join(d, "dd.line.exclude")).read().splitlines(True)
        except OSError:
            return [97]
        if sorted(inc + exc) != sorted(self.lines):
            return [96]
        return sorted(self.lines.index(x) + 1 for x in inc)


def lines(rng, n):
    a = rng.sample(range(0x1000, 0xffff), n)
    return ["0x%016x: %s at %s.c:%d\n" % (x, rng.choice(["main", "f", "operator+(A const&, B)", "g"]), rng.choice("xyz"), rng.randint(1, 99)) for x in a]


def head(o, n, runs, algo, words, crashed, text):
    return dict(o=o, n=n, runs=runs, algo=algo, crashed=crashed, raw="%d sites, failing %s, %s" % (n, ["%s:%x" % (bits(m), w) for m, w in enumerate(words) if w][:8], text))


def case(ctx, job):
    k, n, words, det, ls, steps = job
    b = Bench(ctx, "c%d" % k)
    b.setup(ls, words)
    tr = []
    crashed = False
    first = True
    for algo, s, crash in steps:
        h = head("start" if first else "again", n, int(s["NRUNS"]), algo, words, crashed or bool(crash), "%s crash %s" % (s, crash))
        first = False
        ev, rc = b.run(s, crash)
        crashed = crashed or bool(crash)
        tr += [h] + ev
    shutil.rmtree(b.dir, ignore_errors=True)
    return tr


def real(ctx, job):
    """the same with an instrumented program: enabled sites run with few bits, so the program tells which ones were"""
    k, words, (algo, s) = job
    b = Bench(ctx, "r%d" % k)
    b.setup([], words)
    run = os.path.join(b.dir, "ddRun")
    os.unlink(run)
    with open(run, "w") as h:
        h.write("#!/bin/sh\nset -e\nm=$(VFC_BACKENDS=${VFC_BACKENDS:-libinterflop_vprec.so --precision-binary64=8} VFC_BACKENDS_LOGGER=False %s)\necho $m 1 >$1/sample\n" % ctx.ddsites)
    os.chmod(run, 0o755)
    try:
        b.run(dict(s))     # finds the sites; judged below on a second, clean run
        ls = open(os.path.join(b.dir, "dd.line", "ref", "dd.line")).read().splitlines(True)
    except OSError:
        ls = []
    site = {}
    for l in ls:
        for w in l.split():
            if w.startswith("site") and w[4:].isdigit():
                site.setdefault(int(w[4:]), l)
    h = head("start", 5, int(s["NRUNS"]), algo, words, False, "real program, %s" % s)
    if sorted(site) != [1, 2, 3, 4, 5] or len(ls) != 5:
        return [h, dict(o="end", ok=False, raw="sites found: %s" % ls)]
    shutil.rmtree(os.path.join(b.dir, "dd.line"))
    b.lines = [site[i] for i in (1, 2, 3, 4, 5)]
    ev, rc = b.run(s)
    shutil.rmtree(b.dir, ignore_errors=True)
    return [h] + ev


def tools(ctx):
    ctx.pytools = os.path.join(ctx.scratch, "py")
    os.makedirs(ctx.pytools)
    os.symlink(os.path.join(REPO, "src", "tools"), os.path.join(ctx.pytools, "verificarlo"))
    ctx.ddprog = os.path.join(ctx.scratch, "ddprog")
    sh(["gcc", "-O1", "-w", "-o", ctx.ddprog, os.path.join(VERIF, "harness", "ddprog.c")], check=True)


def check(ctx):
    rng = ctx.rng
    big = ctx.thorough
    mc = 'SPECIFICATION Spec\nINVARIANT Good\nCONSTANTS N = %d\n K = %d\n Algo = "%s"\n Fault = "%s"\nCHECK_DEADLOCK FALSE\n'
    mcs = [(n, k, a, "none") for a in ("rddmin", "srddmin", "drddmin", "ddmax") for n, k in ((4, 1), (3, 2))]
    mcs += [(4, 1, "rddmin", "nocomplement"), (3, 2, "srddmin", "noincrease"), (4, 1, "drddmin", "nofinal")]
    pmap(lambda m: model_check(ctx, "SearchMC", mc % m, expect_ok=m[3] == "none"), mcs)
    ctx.log("model checked")
    tools(ctx)
    jobs = []
    for k in range(4000 if big else 500):
        n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 5, 6] + ([7, 8, 9] if big else [7]))
        runs = rng.choice([1, 1, 2, 2, 3, 4, 5])
        words, det = predicate(rng, n, runs)
        steps = [settings(rng, runs) + (None,)]
        r = rng.random()
        if r < 0.15:      # again, perhaps with other settings
            r2 = rng.choice([runs, runs, rng.randint(1, 5)])
            steps.append((settings(rng, r2) if rng.random() < 0.7 else (steps[0][0], dict(steps[0][1]))) + (None,))
        elif r < 0.4 and det:   # ended in the middle, then again
            for _ in range(rng.choice([1, 1, 2])):
                steps.insert(0, steps[0][:2] + ("%d%s" % (rng.randint(1, 6 + 12 * n), rng.choice(["", ":e"])),))
        jobs.append((k, n, words, det, lines(rng, n), steps))
    trs = pmap(lambda j: case(ctx, j), jobs)
    ctx.ddsites = os.path.join(ctx.scratch, "ddsites")
    sh(["verificarlo-c", "--ddebug", "-O0", "-g", os.path.join(VERIF, "harness", "ddsites.c"), "-o", ctx.ddsites], cwd=ctx.scratch, check=True)
    rjobs = []
    for k in range(60 if big else 12):
        words, _ = predicate(rng, 5, 1)
        rjobs.append((k, words, settings(rng, rng.choice([1, 2]))))
    trs += pmap(lambda j: real(ctx, j), rjobs)
    ctx.cov_note["searches_on_an_instrumented_program"] = len(rjobs)
    ctx.cov_note["searches"] = sum(len(j[5]) for j in jobs)
    ctx.cov_note["samples_judged"] = sum(1 for t in trs for e in t if e["o"] == "sample")
    ctx.cov_note["sets_reported"] = sum(1 for t in trs for e in t if e["o"] == "report")
    for t in trs[:3]:
        ctx.sample(t[0]["raw"] + " -> " + t[-1]["raw"])
    ctx.log("recorded")

    def desc(i, t, k):
        e = t[k]
        h = [x for x in t[:k + 1] if x["o"] in ("start", "again")][-1]["raw"]
        return {"end": "answers of the search do not have the guarantees: ", "sample": "sample of a wrong set, or one too many: "}.get(e["o"], "") + h + " -> " + e["raw"], [x for x in t[:k + 1]][-60:]
    validate(ctx, "SearchTrace", [sum(x, []) for x in chunk(trs, max(1, len(trs) // 16))], desc, key=lambda i, t, k: t[k]["o"])
    ctx.finish(assumptions=["the empty set of sites passes", "dichotomy granularity at least 2, at least one sample"])
