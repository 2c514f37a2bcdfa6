"""vfc_ci test: tables, verdicts and warnings of real test runs, for arbitrary configurations and dumped values."""
import json
import shutil
import struct
from fractions import Fraction
from vlib import *

SPECIAL = 99999
NAMES = ["t", "x", "y", "NA", "nan", "null", "None", "1", "01", "1.0", "0x1p+0", "True", "a b", " lead", "trail ", "", "\"q", "it's", "\"both\"", "accuracy", "#hash", "é", "long_" * 12, "t1", "-", "N/A", "<NA>", "e\\n"]
BACKENDS = ["libinterflop_mca.so", "libinterflop_mca.so -m rr", "libinterflop_vprec.so", "libinterflop_ieee.so", "libinterflop_mca.so  --seed=1", "libinterflop_bitmask.so --operator=rand"]


def hexd(x):
    return "%016x" % struct.unpack("<Q", struct.pack("<d", x))[0]


def esc(s):
    return "".join("%%%02x" % b if b < 33 or b > 126 or b == 37 else chr(b) for b in s.encode())


class Probe:
    def __init__(self, rng, t, v):
        self.t, self.v = t, v
        self.e = rng.choice([0, 0, -4, 10, -60, 200, -400, 400])
        self.mode = rng.choice(["none", "absolute", "absolute", "relative"])
        k = rng.random()
        if self.mode == "absolute":
            self.thr = 0 if k < 0.1 else rng.choice([1, 2, 5, 20, 60, 100, 200])
        elif self.mode == "relative":
            self.thr = 0 if k < 0.1 else rng.randint(1, 16)
        else:
            self.thr = 0
        if self.thr and rng.random() < 0.1:
            self.thr = -self.thr
        self.base = rng.choice([0, rng.randint(-150, 150), rng.randint(1, 100)])
        self.spread = rng.choice([0, 0, 1, 3, 30])
        if self.mode == "relative" and abs(self.base) <= self.spread:  # known findings: relative checks with a null average or reference
            self.base = (self.spread + 1) * (-1 if self.base < 0 else 1)
        self.special = rng.choice([0, 0, 0, 0, 0.3])

    def draw(self, rng):
        if rng.random() < self.special:
            return rng.choice([float("inf"), float("-inf"), float("nan"), -float("nan")])
        return self.base + rng.randint(-self.spread, self.spread)

    def f(self, x):
        return x if isinstance(x, float) else x * 2.0 ** self.e

    def fthr(self):
        return self.thr * 2.0 ** self.e if self.mode == "absolute" else self.thr / 16

    def line(self, x):
        return "%s\t%s\t%s\t%s\t%s\n" % (self.mode[0], esc(self.t), esc(self.v), hexd(self.f(x)), hexd(self.fthr()))

    def unit(self, h, scale):
        """a reported number in units of this probe times scale; rounded"""
        x = float.fromhex(h)
        if x != x or abs(x) == float("inf"):
            return SPECIAL, True
        q = Fraction(x) * scale / Fraction(2) ** self.e
        r = round(q)
        if abs(r) > 10**8:
            return 10**8, False
        return r, q == r


def make(rng, big):
    probes, jobs, used = {}, [], set()
    for ex in range(rng.choice([1, 1, 2, 3])):
        mine = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            t, v = rng.choice(NAMES), rng.choice(NAMES)
            mine.append(probes.setdefault((t, v), Probe(rng, t, v)))
        mine = list({(p.t, p.v): p for p in mine}.values())
        par = rng.choice([None, "", "foo", "-n 3  x"])
        for be in rng.sample(BACKENDS, rng.choice([1, 1, 2, 3])):
            reps = 0 if "mca" not in be and rng.random() < 0.7 else rng.choice([1, 2, 3, 3, 4, 5, 8])
            ps = [p for p in mine if reps or (p.t, p.v, be) not in used]
            if not reps:
                used |= {(p.t, p.v, be) for p in ps}
            jobs.append(dict(exe="bin/t%d" % ex if ex else "t0", par=par, be=be, reps=reps, probes=ps))
    for j in jobs:
        j["runs"] = []

        def run(ps):
            end = rng.choices(["dump", "fail", "crash", "nodump", "remove"], [80, 5, 6, 4, 3])[0]
            if rng.random() < 0.08:
                ps = rng.sample(ps, rng.randint(0, len(ps)))
            ps = rng.sample(ps, len(ps))
            rows = [(p, p.draw(rng)) for p in ps]
            j["runs"].append((rows, end))
            return rows if end in ("dump", "fail") else []
        for _ in range(j["reps"]):
            run(j["probes"])
        if not j["reps"]:
            if any(p.mode != "none" for p, _ in run(j["probes"])):
                run(j["probes"])
    return jobs


def null(reps, xs):
    p = Probe(__import__("random").Random(1), "t", "x")
    p.e, p.mode, p.thr = 0, "relative", 4
    return [dict(exe="t0", par=None, be="libinterflop_vprec.so", reps=reps, probes=[p], runs=[([(p, x)], "dump") for x in xs])]


def case(ctx, job):
    k, jobs, raw, extra = job
    d = os.path.join(ctx.scratch, "c%d" % k)
    os.makedirs(d + "/bin")
    plans, exes, names, key = {}, [], {}, {}
    for j in jobs:
        for p in j["probes"]:
            for s in (p.t, p.v):
                names.setdefault(s, len(names) + 1)
            key[p.t, p.v] = p
        t = ""
        for rows, end in j["runs"]:
            t += "RUN\n" + "".join(p.line(x) for p, x in rows) + end + "\n"
        plans[j["exe"]] = plans.get(j["exe"], "") + t
        if not exes or exes[-1]["executable"] != j["exe"]:
            exes.append(dict(executable=j["exe"], vfc_backends=[]))
            if j["par"] is not None:
                exes[-1]["parameters"] = j["par"]
        exes[-1]["vfc_backends"].append(dict(name=j["be"], **({"repetitions": j["reps"]} if j["reps"] else {})))
    for exe, t in plans.items():
        os.symlink(ctx.ciprog, os.path.join(d, exe))
        with open(os.path.join(d, "plan." + os.path.basename(exe)), "w") as h:
            h.write(t)
    with open(os.path.join(d, "vfc_tests_config.json"), "w") as h:
        json.dump(dict(make_command="echo made >made.txt", executables=exes), h)
    r, w = os.pipe()
    env = base_env(CI=d, PYTHONPATH=ctx.pytools, VFC_BACKENDS="libinterflop_other.so", MPLBACKEND="Agg", **extra)
    pr = subprocess.Popen([PY, "-W", "ignore", "-c", "import os, sys; os.dup2(%d, 3); sys.argv[1:] = sys.argv[2:]; exec(open(%r).read())" % (w, os.path.join(VERIF, "harness", "cirun.py")), "vfc_ci", "test"] + (["-r"] if raw else []),
                          cwd=d, env=env, pass_fds=(w,), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    os.close(w)
    try:
        err = pr.communicate(timeout=200)[1]
    except subprocess.TimeoutExpired:
        pr.kill()
        err = pr.communicate()[1] + "did not end"
    out = os.fdopen(r).read()
    res = json.loads(out) if out else dict(status=99, error="no answer " + err[-300:])
    what = "%s" % [(j["exe"], j["par"], j["be"], j["reps"], [([(p.t, p.v, p.f(x), p.mode, p.fthr()) for p, x in rows], end) for rows, end in j["runs"]]) for j in jobs]
    tr = [dict(o="begin", cfg=[dict(exe=j["exe"], be=j["be"], reps=j["reps"], par=" ".join((j["par"] or "").split())) for j in jobs], raw=what[:2500])]
    log = [l.split("\t") for l in open(os.path.join(d, "log.txt")).read().split("\n")[:-1]] if os.path.exists(os.path.join(d, "log.txt")) else []
    cnt = {}
    for exe, be, par in log:
        full = exe if exe == "t0" else "bin/" + exe
        n = cnt.get(full, 0)
        cnt[full] = n + 1
        mine = [x for j in jobs if j["exe"] == full for x in j["runs"]]
        rows, end = mine[n] if n < len(mine) else ([], "crash")
        ps = [dict(t=names[p.t], v=names[p.v], x=SPECIAL if isinstance(x, float) else x, mode=p.mode, thr=p.thr) for p, x in rows] if end in ("dump", "fail") else []
        tr.append(dict(o="run", exe=full, be=be, par=par, probes=ps, raw="%s run with %s, parameters %r" % (full, be, par)))

    def ident(kk):
        return [names.get(kk[0], 0), names.get(kk[1], 0), kk[2]] if len(kk) == 3 else [0, 0, "?"]
    rawvals = {}
    for x in res.get("rawdata", []):
        p = key.get(tuple(x["key"][:2]))
        if p:
            rawvals[tuple(x["key"])] = [p.unit(v, 1)[0] for v in x["values"]]
    rows, dets, warn = [], [], []
    for x in res.get("data", []):
        p = key.get(tuple(x["key"][:2]))
        row = dict(key=ident(x["key"]), n=int(float.fromhex(x["nsamples"])), check=x["check"], raw=raw, vals=rawvals.get(tuple(x["key"]), []))
        for a, b in (("min", "min"), ("max", "max"), ("q1", "quantile25"), ("q2", "quantile50"), ("q3", "quantile75")):
            v, exact = p.unit(x[b], 4) if p else (0, False)
            row[a] = v if exact else 10**8
        row["mu"] = p.unit(x["mu"], 64)[0] if p else 0
        row["sigma"] = min(p.unit(x["sigma"], 8)[0], 40000) if p else 0
        rows.append(row)
    for x in res.get("det", []):
        p = key.get(tuple(x["key"][:2]))
        dets.append(dict(key=ident(x["key"]), check=x["check"], x=p.unit(x["value"], 1)[0] if p else 10**8, ref=p.unit(x["reference_value"], 1)[0] if p else 10**8))
    if raw and sorted(map(str, res.get("det", []))) != sorted(map(str, res.get("rawdet", []))):
        dets.append(dict(key=[0, 0, "?"], check=False, x=0, ref=0))
    cur = None
    for l in err.split("\n"):
        for f in ("Executable", "Backend", "Repetition"):
            if l.startswith("  %s: " % f):
                if f == "Executable":
                    warn.append(dict(exe=l[14:], be="", ref=False, rep=0))
                elif f == "Backend":
                    warn[-1]["ref"] = l.endswith(" (reference run)")
                    warn[-1]["be"] = l[11:].replace(" (reference run)", "")
                else:
                    warn[-1]["rep"] = int(l[14:])
    ok = res.get("status") == 0 and "read_error" not in res and res.get("files") == [1, int(raw)] and os.path.exists(os.path.join(d, "made.txt"))
    bad = res.get("error", "") + res.get("read_error", "")
    tr.append(dict(o="end", ok=ok, rows=rows, dets=dets, warn=warn, raw="status %s %s tables %s deterministic %s warnings %s" % (res.get("status"), bad[-300:], json.dumps(res.get("data"))[:900], json.dumps(res.get("det"))[:500], warn[:4])))
    shutil.rmtree(d, ignore_errors=True)
    return tr


def check(ctx):
    rng = ctx.rng
    big = ctx.thorough
    mc = 'SPECIFICATION Spec\nINVARIANT Final\nCONSTANTS Vals = %s\n Fault = "%s"\nCHECK_DEADLOCK FALSE\n'
    pmap(lambda f: model_check(ctx, "CiMC", mc % ("{0, 1, 2, 3, 4, 7}" if f == "none" else "{0, 1, 3, 4}", f), expect_ok=f == "none"), ["none", "check", "lost", "max", "quart", "mu", "sample", "warn"])
    ctx.log("model checked")
    ctx.pytools = os.path.join(ctx.scratch, "py")
    os.makedirs(ctx.pytools)
    os.symlink(os.path.join(REPO, "src", "tools"), os.path.join(ctx.pytools, "verificarlo"))
    ctx.ciprog = os.path.join(ctx.scratch, "ciprog")
    sh([CLANG, "-O1", "-I", INST + "/include", "-I", INST + "/include/interflop", VERIF + "/harness/ciprog.c", "-Wl,-rpath," + INST + "/lib", "-L" + INST + "/lib",
        "-lvfc_probes", "-linterflop_hashmap", "-linterflop_stdlib", "-o", ctx.ciprog], check=True)
    jobs = []
    for k in range(800 if big else 100):
        jobs.append((k, make(rng, big), rng.random() < 0.4, {}))
    trs = pmap(lambda j: case(ctx, j), jobs)
    ctx.cov_note["test_runs"] = len(jobs)
    ctx.cov_note["executions"] = sum(1 for t in trs for e in t if e["o"] == "run")
    ctx.cov_note["results_checked"] = sum(len(e["rows"]) + len(e["dets"]) for t in trs for e in t if e["o"] == "end")
    for t in trs[:3]:
        ctx.sample(t[0]["raw"][:300] + " -> " + t[-1]["raw"][:300])
    ctx.log("recorded")

    def desc(i, t, k):
        e = t[k]
        h = [x for x in t[:k + 1] if x["o"] == "begin"][-1]["raw"]
        return {"end": "the results are not those of the dumped values: ", "run": "a run that the configuration does not ask for: "}.get(e["o"], "") + e["raw"][:700] + " <- " + h[:700], t[max(0, k - 40):k + 1]
    validate(ctx, "CiTrace", trs if len(trs) < 16 else [sum(x, []) for x in chunk(trs, max(1, len(trs) // 16))], desc, key=lambda i, t, k: t[k]["o"])
    for n, w, reps, xs in ((0, "null-reference", 0, (3, 0)), (1, "null-average", 3, (-2, 1, 1))):
        validate(ctx, "CiTrace", [case(ctx, (len(jobs) + n, null(reps, xs), False, {}))], desc, key=lambda i, t, k: "relative-%s-%s" % (w, t[k]["o"]))
    ctx.finish(assumptions=["probes with the same names have the same check in all runs", "at least one run of the test produces data or there is nothing to report"])
