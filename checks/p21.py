"""Precision search: the configurations the real tool tries and leaves, for arbitrary profiles and verdicts."""
import csv
import hashlib
import shutil
from vlib import *

COLS = ("Prec64", "Range64", "Prec32", "Range32")
OPS = ((0, 1, 52, "Double"), (1, 2, 11, "Double"), (2, 1, 23, "Float"), (3, 2, 8, "Float"))
ARG = {0: ((0, 1, 23), (1, 2, 8)), 3: ((0, 1, 23), (1, 2, 8)), 1: ((0, 1, 52), (1, 2, 11)), 4: ((0, 1, 52), (1, 2, 11))}
FULL = {0: (23, 8), 3: (23, 8), 1: (52, 11), 4: (52, 11)}
NAMES = ["main", "f", "g", "pow", "solve_it", "a", "ff"]


def profile(rng):
    """list of functions: dict(id, lib, int, float, double, calls, args [(io, id, type)])"""
    fs, ids = [], set()
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        parent, name = rng.choice(NAMES), rng.choice(NAMES)
        i = "%s/%s/%s/%d/%d" % (rng.choice(["x.c", "dir/with.c", "y.cpp"]), parent, name, rng.randint(1, 40), rng.randint(0, 30))
        if i in ids:
            continue
        ids.add(i)
        args = []
        for io in ("input", "output"):
            for k in range(rng.choice([0, 1, 1, 2] if io == "input" else [0, 1, 1])):
                args.append((io + ":", "%s%d" % (rng.choice(["a", "x", "return_value"]), k), rng.choice([0, 1, 3, 4])))
        kind = rng.choice(["in", "in", "in", "lib", "int"])
        fs.append(dict(id=i, parent=parent, name=name, lib=int(kind == "lib"), int=int(kind == "int"), float=rng.randint(0, 1) if kind == "in" else 0,
                       double=rng.choice([0, 1, 1]) if kind == "in" else 0, calls=rng.choice([1, 1, 2, 7, 100]), args=args))
    return fs


def ptext(fs):
    t = ""
    for f in fs:
        nin = sum(a[0] == "input:" for a in f["args"])
        t += "\t".join(map(str, (f["id"], f["lib"], f["int"], f["float"], f["double"], 52, 11, 23, 8, nin, len(f["args"]) - nin, f["calls"]))) + "\n"
        for io, a, ty in f["args"]:
            t += "%s\t%s\t%d\t%d\t%d\t%d\t%d\n" % ((io, a, ty) + FULL[ty] + (-1, 3))
    return t


def real_profile(ctx):
    """what the backend writes for a program with calls of all kinds"""
    exe = os.path.join(ctx.scratch, "pp")
    shutil.copy(os.path.join(VERIF, "harness", "peprofile.c"), ctx.scratch)
    sh(["verificarlo-c", "--inst-func", "-O0", "peprofile.c", "-lm", "-o", exe], cwd=ctx.scratch, check=True)
    out = os.path.join(ctx.scratch, "prof.txt")
    sh([exe], cwd=ctx.scratch, env=base_env(VFC_BACKENDS="libinterflop_vprec.so --prec-output-file=" + out, VFC_BACKENDS_LOGGER="False"), check=True)
    fs = []
    for l in open(out).read().split("\n")[:-1]:
        w = l.split("\t")
        if len(w) == 12:
            i = w[0].split("/")
            fs.append(dict(id=w[0], parent=i[-4], name=i[-3], lib=int(w[1]), int=int(w[2]), float=int(w[3]), double=int(w[4]), calls=int(w[11]), args=[]))
        else:
            fs[-1]["args"].append((w[0], w[1], int(w[2])))
    return fs


def fields(fs, mode):
    r = []
    for f in fs:
        if mode != "operations":
            for io, a, ty in f["args"]:
                for c, lo, hi in ARG[ty]:
                    r.append(dict(key="%s %s %s" % (f["id"], io, a), col=c, lo=lo, hi=hi))
        if mode != "arguments" and not f["lib"] and not f["int"]:
            for c, lo, hi, need in OPS:
                if f[need.lower()]:
                    r.append(dict(key=f["id"], col=c, lo=lo, hi=hi))
    return r


def rules(rng, fl, timeout):
    rs = []
    if not fl:
        return rs
    for _ in range(rng.choice([1, 1, 2, 3])):
        ks = rng.sample(range(len(fl)), rng.randint(1, min(len(fl), rng.choice([1, 2, 4]))))
        w = [0] * len(fl)
        for k in ks:
            w[k] = rng.choice([1, 1, 2, 3])
        lo, hi = sum(x * f["lo"] for x, f in zip(w, fl)), sum(x * f["hi"] for x, f in zip(w, fl))
        b = rng.choice([rng.randint(lo, hi), rng.randint(lo, hi), hi, hi + 1 if rng.random() < 0.4 else lo])
        rs.append(dict(w=w, b=b, kind=rng.choice(["cmp", "cmp", "run"])))
    if timeout:
        rs = [dict(w=[1] + [0] * (len(fl) - 1), b=fl[0]["lo"] + 1, kind="hang")]
    return rs


def read(text, fl, fs, mode):
    """values of the fields and digest of all that is not explored"""
    vals, rest, cur, key = {}, [], "", ""
    free = set()
    for f in fs:
        if not f["lib"] and not f["int"] and mode != "arguments":
            free |= {(f["id"], c) for c, _, _, need in OPS if not f[need.lower()]}
    explored = {(f["key"], f["col"]) for f in fl} | free
    for l in text.split("\n"):
        if not l:
            continue
        w = l.split("\t")
        if len(w) == 12:
            cur = key = w[0]
            at = range(5, 9)
        elif len(w) == 7:
            w = w[:5]  # the bounds of the values have no part in the search
            key = "%s %s %s" % (cur, w[0], w[1])
            at = range(3, 5)
        else:
            return [], "bad line " + l
        out = []
        for i, x in enumerate(w):
            if i in at and (key, i - at[0]) in explored:
                try:
                    vals[key, i - at[0]] = int(x)
                except ValueError:
                    return [], "bad line " + l
            else:
                out.append(x)
        rest.append((cur, "\t".join(out)))
    rest.sort(key=lambda x: x[0])
    v = [vals.get((f["key"], f["col"]), 0) for f in fl]
    return v, "|".join(x[1] for x in rest)


def tables(d, mode, fl):
    """the values of the fields in the tables left by the tool"""
    ops, args = {"operations": ("OperationsResults", None), "arguments": (None, "ArgumentsResults"), "all": ("AllOpsResults", "AllArgsResults")}[mode]
    got = {}
    try:
        if ops:
            for r in csv.DictReader(open(os.path.join(d, "vfc_exp_data", ops + ".csv"))):
                for c, n in enumerate(COLS):
                    got[r["ID"], c] = int(r[n])
        if args:
            for r in csv.DictReader(open(os.path.join(d, "vfc_exp_data", args + ".csv"))):
                for c, n in enumerate(("Prec", "Range")):
                    got["%s %s %s" % (r["ID"], r["IO"], r["ArgID"]), c] = int(r[n])
    except (OSError, KeyError, ValueError) as e:
        return None
    return [got.get((f["key"], f["col"]), 0) for f in fl]


def refused(ctx, d, be, body, want, fl, kept, mode):
    """the vprec backend reads the configuration and has exactly its contents"""
    with open(os.path.join(d, "conf"), "w") as h:
        h.write(body)
    p = sh([ctx.tiny], cwd=d, env=base_env(VFC_BACKENDS=re.sub(r"(--prec-input-file=)\S+", r"\1conf", be) + " --prec-output-file=back", VFC_BACKENDS_LOGGER="False"))
    try:
        back = open(os.path.join(d, "back")).read()
        os.unlink(os.path.join(d, "back"))
    except OSError:
        return False
    return p.returncode == 0 and read(back, fl, kept, mode) == want


def case(ctx, job):
    k, fs, kept, mode, vmode, fl, rs, names, noisy, timeout, tool, real = job
    d = os.path.join(ctx.scratch, "c%d" % k)
    os.makedirs(d)
    with open(os.path.join(d, "profile"), "w") as h:
        h.write(ptext(fs))
    with open(os.path.join(d, "rules"), "w") as h:
        for r in rs:
            t = [(f["key"], f["col"], w) for f, w in zip(fl, r["w"]) if w]
            h.write("%s %d %d\n" % (r["kind"], r["b"], len(t)) + "".join("%s\t%d\t%d\n" % x for x in t))
    for n in ("peRun", "peCmp"):
        os.symlink(ctx.peprog, os.path.join(d, n))
    if real:
        os.symlink(os.path.join(ctx.scratch, "pp"), os.path.join(d, "prog"))
    if noisy:
        open(os.path.join(d, "noisy"), "w").close()
    if tool:
        cmd = [PY, os.path.join(REPO, "src", "tools", "vfc_precexp")]
    else:
        cmd = [PY, "-c", "from verificarlo.optimize.precexp import main; main()"]
    opts = ["--mode", mode] if mode != "all" or k % 2 else []
    opts += ["--vprec_mode", vmode] if vmode else []
    opts += ["--maxTimeout", "6000"] if timeout else []
    opts += names
    what = "%s functions=%s rules=%s" % (" ".join(cmd[-1:] + opts), [(f["id"], f["float"], f["double"], f["args"]) for f in kept], [([x for x in r["w"]], r["b"], r["kind"]) for r in rs])
    tr = [dict(o="begin", fields=[dict(lo=f["lo"], hi=f["hi"], init=f["hi"]) for f in fl], rules=[dict(w=r["w"], b=r["b"]) for r in rs], fixed="", raw=what[:1500])]
    try:
        p = subprocess.run(cmd + ["peRun", "peCmp"] + opts, cwd=d, env=base_env(PE=d, PYTHONPATH=ctx.pytools), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=120)
        rc, err = p.returncode, p.stderr[-300:]
    except subprocess.TimeoutExpired:
        rc, err = None, "did not end"
    log = open(os.path.join(d, "log")).read() if os.path.exists(os.path.join(d, "log")) else ""
    full = ptext(kept)
    _, fixed = read(full, fl, kept, mode)
    tr[0]["fixed"] = fixed
    want = "--daz --ftz --mode=%s --instrument=%s" % ({None: "ob", "all": "full"}.get(vmode, vmode), mode)
    tries = log.split("TRY ")[1:]
    if rc is None:
        tries = tries[:150]
    step = max(1, len(tries) // (12 if ctx.thorough else 3))
    for n, t in enumerate(tries):
        hd, _, rest = t.partition("\n")
        body = rest.partition("END\n")[0]
        v, fx = read(body, fl, kept, mode)
        if "libinterflop_vprec.so" not in hd or any(x not in hd.split() for x in want.split()):
            fx = "backend " + hd
        if hd.endswith("REFUSED"):
            fx = "the program fails with this configuration"
        elif n % step == 0 and not refused(ctx, d, hd[2:], body, (v, fx), fl, kept, mode):
            fx = "the backend does not take this configuration"
        tr.append(dict(o="try", v=v, ok=hd[0] == "1", fixed=fx, raw="tried %s, accepted %s, %s" % (v, hd[0], hd[2:])))
    v, left = tables(d, mode, fl), []
    cf = os.path.join(d, "vfc_config.txt")
    if os.path.exists(cf):
        left, fx = read(open(cf).read(), fl, kept, mode)
    if rc != 0:
        v = None
    n = len(fl)
    tr.append(dict(o="done", v=v if v is not None else [0] * (n + 1), left=left if left or n else [], raw="status %s, tables %s, configuration left %s %s" % (rc, v, left, err)))
    shutil.rmtree(d, ignore_errors=True)
    return tr


def check(ctx):
    rng = ctx.rng
    big = ctx.thorough
    mc = 'SPECIFICATION Spec\nINVARIANT Right\n%sCONSTANTS F = %d\n LO = %d\n HI = %d\n Fault = "%s"\nCHECK_DEADLOCK FALSE\n'
    mcs = [("PROPERTY Ends\n", 2, 1, 4, "none"), ("PROPERTY Ends\n", 1, 1, 8, "none"), ("PROPERTY Ends\n", 2, 1, 4, "lowerfirst"), ("PROPERTY Ends\n", 1, 1, 4, "noend")]
    pmap(lambda m: model_check(ctx, "ExploreMC", mc % m, expect_ok=m[4] == "none"), mcs)
    ctx.log("model checked")
    ctx.pytools = os.path.join(ctx.scratch, "py")
    os.makedirs(ctx.pytools)
    os.symlink(os.path.join(REPO, "src", "tools"), os.path.join(ctx.pytools, "verificarlo"))
    ctx.peprog = os.path.join(ctx.scratch, "peprog")
    sh(["gcc", "-O1", "-w", "-o", ctx.peprog, os.path.join(VERIF, "harness", "peprog.c")], check=True)
    ctx.tiny = os.path.join(ctx.scratch, "tiny")
    with open(ctx.tiny + ".c", "w") as h:
        h.write("int main(void) { volatile double a = 1; a = a + 1; return 0; }\n")
    sh(["verificarlo-c", "-O0", "tiny.c", "-o", ctx.tiny], cwd=ctx.scratch, check=True)
    jobs = []
    rp = real_profile(ctx)
    ctx.cov_note["functions_of_a_real_profile"] = len(rp)
    for k in range(1500 if big else 150):
        fs = rp if k % 15 == 3 else profile(rng)
        mode = rng.choice(["arguments", "operations", "all", "all"])
        names = []
        if rng.random() < 0.35:
            names = rng.sample(sorted({x for f in fs for x in (f["name"], f["parent"])}) + ["h", "mai"], rng.randint(1, 2))
        kept = [f for f in fs if not names or f["name"] in names or f["parent"] in names]
        fl = fields(kept, mode)
        timeout = k < 2 and bool(fl)
        rs = rules(rng, fl, timeout)
        jobs.append((k, fs, kept, mode, rng.choice([None, None, "ieee", "ib", "ob", "full", "all"]), fl, rs, names, k % 9 == 5, timeout, k % 5 == 4, fs is rp))
    trs = pmap(lambda j: case(ctx, j), jobs)
    ctx.cov_note["searches"] = len(jobs)
    ctx.cov_note["configurations_tried"] = sum(len(t) - 2 for t in trs)
    ctx.cov_note["fields_explored"] = sum(len(j[5]) for j in jobs)
    for t in trs[:3]:
        ctx.sample(t[0]["raw"][:300] + " -> " + t[-1]["raw"])
    ctx.log("recorded")

    def desc(i, t, k):
        e = t[k]
        h = [x for x in t[:k + 1] if x["o"] == "begin"][-1]["raw"]
        return {"done": "the search does not end with passing, minimal precisions: ", "try": "a configuration tried is not one of the search: "}.get(e["o"], "") + h[:500] + " -> " + e["raw"][:600], [h] + [x["raw"] for x in t[max(0, k - 40):k + 1]]
    validate(ctx, "ExploreTrace", [sum(x, []) for x in chunk(trs, max(1, len(trs) // 16))], desc, key=lambda i, t, k: t[k]["o"])
    ctx.finish(assumptions=["the verdict accepts every value of a field above an accepted one", "profiles start with all fields at full precision, as the backend writes them"])
