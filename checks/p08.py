"""VPREC configuration and pipeline: option lists, presets, user calls, modes, flags, all operations."""
from vlib import *
import gen
from p06 import operands

PRE = dict(binary16=(10, 5), binary32=(23, 8), bfloat16=(7, 8), tensorfloat=(10, 8), fp24=(16, 7), PXR24=(15, 8))
RMAX = dict(f=8, d=11)
B = dict(f=32, d=64)


def optstr(o):
    if o["o"] in ("daz", "ftz"):
        return "--" + o["o"]
    return "--%s=%s" % (o["o"], o["raw"] if "raw" in o else (o["s"] if o["s"] else o["v"]))


def opt(o, v=0, s=""):
    return dict(o=o, v=v, s=s)


def session(ctx, exe, opts, script, env=None):
    """script: list of ('op',...)/('setp',t,v)/('setr',t,v); returns the trace"""
    cmds = []
    for x in script:
        if x[0] == "op":
            cmds.append("%s %s 1 %s" % (x[1], x[2], " ".join(x[3])))
        else:
            cmds.append("call %d i %d" % (CALL["SET_%s_BINARY%d" % ("PRECISION" if x[0] == "setp" else "RANGE", B[x[1]])], x[2]))
    be = "libinterflop_vprec.so " + " ".join(optstr(o) for o in opts)
    lines, p = drive(ctx, exe, be, ["note begin"] + cmds + ["note end"], ok=False)
    desc = "[%s]" % be
    tr = [dict(o="start", ok=bool(lines), opts=[{k: o[k] for k in "ovs"} for o in opts], raw=desc + (" accepted" if lines else " refused with status %s" % p.returncode))]
    if not lines:
        if p.returncode == 0:
            tr[0]["ok"] = True
            tr[0]["opts"].append(opt("silently stopped"))
        return tr
    lines = lines[1:]
    for x, l in zip(script, lines):
        if x[0] == "op":
            tr.append(dict(ev_op(x[1], x[2], x[3], l), raw="%s %s %s %s -> %s" % (desc, x[1], x[2], " ".join(x[3]), l)))
        else:
            tr.append(dict(o=x[0], t=x[1], v=x[2], ok=True, raw="%s user call %s accepted" % (desc, x)))
    if len(lines) <= len(script):  # stopped at this command
        x = script[len(lines)]
        if x[0] == "op":
            raise DriverDied(p.returncode, lines, p.stderr[-500:], be)
        tr.append(dict(o=x[0], t=x[1], v=x[2], ok=False, raw="%s user call %s refused" % (desc, x)))
        if p.returncode == 0:
            tr[-1]["ok"] = True
    return tr


def ops(rng, t, p, r, n):
    res = []
    for _ in range(n):
        op = rng.choice(["add", "sub", "mul", "div", "fma", "cast"])
        if op == "cast":
            u = rng.choice(gen.boundary(rng, "d", min(p, 52), r, n=1)) if rng.random() < 0.8 else gen.rnd_val(rng, "d")
            res.append(("op", op, "f", [word(u, "d")]))
            continue
        k = rng.random()
        if k < 0.45:
            bs = gen.boundary(rng, t, p, r, n=1)
            w = [rng.choice(bs) for _ in range(3)]
            if rng.random() < 0.5:  # keep one edge value alive in the result
                one = mkfp(t, rng.getrandbits(1), (1 << (FMT[t][1] - 1)) - 1, 0)
                if op in ("mul", "div"):
                    w[1] = one
                elif op in ("add", "sub"):
                    w[1] = mkfp(t, rng.getrandbits(1), 0, 0)
                else:
                    w[1] = one
                    w[2] = mkfp(t, rng.getrandbits(1), 0, 0) if rng.random() < .5 else w[2]
            w = w[:3 if op == "fma" else 2]
        elif k < 0.8:  # moderate values near one another
            lo = max(-(1 << (r - 1)), -40)
            a = gen.rnd_mid(rng, t, lo, min((1 << (r - 1)), 40))
            b = gen.near(rng, a, t) if rng.random() < 0.4 else gen.rnd_mid(rng, t, lo // 2, -lo // 2)
            w = [a, b, gen.rnd_mid(rng, t, lo, -lo)][:3 if op == "fma" else 2]
        else:
            w = operands(rng, op, t)
        res.append(("op", op, t, [word(x, t) for x in w]))
    return res


def check(ctx):
    rng = ctx.rng
    model_check(ctx, "VprecMC", "SPECIFICATION Spec\nINVARIANTS FmtOK OutOK NativeOK\nCHECK_DEADLOCK FALSE\nCONSTANT Depth = %d\n" % (4 if ctx.thorough else 3))
    ctx.log("model checked")
    exe = opdrv(ctx, "fmacast")
    traces = []
    nrep = 24 if ctx.thorough else 12
    # every mode and flag combination, formats given on the command line, then changed by user calls
    for rep in range(nrep):
        tr = []
        for mode in ("ieee", "ib", "ob", "full", None):
            for daz in (0, 1):
                for ftz in (0, 1):
                    fm = {t: [rng.randint(1, FMT[t][0]), rng.randint(2, RMAX[t])] for t in "fd"}
                    opts = []
                    if rng.random() < 0.25:
                        pr = rng.choice(list(PRE))
                        opts = [opt("preset", s=pr)]
                        fm = {t: list(PRE[pr]) for t in "fd"}
                    else:
                        for t in "fd":
                            if rng.random() < 0.8:
                                opts.append(opt("precision-binary%d" % B[t], fm[t][0]))
                            else:
                                fm[t][0] = FMT[t][0]
                            if rng.random() < 0.8:
                                opts.append(opt("range-binary%d" % B[t], fm[t][1]))
                            else:
                                fm[t][1] = RMAX[t]
                    if mode:
                        opts.append(opt("mode", s=mode))
                    if daz:
                        opts.append(opt("daz"))
                    if ftz:
                        opts.append(opt("ftz"))
                    rng.shuffle(opts)
                    sc = []
                    for _ in range(4):
                        for t in "fd":
                            sc += ops(rng, t, fm[t][0], fm[t][1], 9)
                        t = rng.choice("fd")
                        if rng.random() < 0.5:
                            v = rng.randint(1, FMT[t][0])
                            sc.append(("setp", t, v))
                            fm[t][0] = v
                        else:
                            v = rng.randint(2, RMAX[t])
                            sc.append(("setr", t, v))
                            fm[t][1] = v
                    tr += session(ctx, exe, opts, sc)
        traces.append(tr)
    # every preset; boundaries of every option and user call; conflicting and repeated options (the last one counts)
    tr = []
    for pr in list(PRE) + ["binary64", "fp32", ""]:
        o = [dict(opt("preset", s=pr), raw=pr)]
        tr += session(ctx, exe, o, ops(rng, "f", 8, 6, 6) + ops(rng, "d", 8, 6, 6) + [("op", "mul", "f", [word(u, "f"), "3f800000"]) for pp in PRE.values() for u in gen.boundary(rng, "f", pp[0], pp[1], n=1)[::3]])
    for name, t, mx, mn in (("precision-binary32", "f", 23, 1), ("precision-binary64", "d", 52, 1), ("range-binary32", "f", 8, 2), ("range-binary64", "d", 11, 2)):
        for v in (-1, 0, 1, 2, 3, mx - 1, mx, mx + 1, mx + 2, 100, 1000, 2 ** 20):
            tr += session(ctx, exe, [opt(name, v)], ops(rng, t, 5, 5, 4))
            tr += session(ctx, exe, [], [("setp" if "prec" in name else "setr", t, v)] + ops(rng, t, min(max(v, 1), mx) if "prec" in name else 10, min(max(v, 2), mx) if "range" in name else 6, 4))
        tr += session(ctx, exe, [dict(opt(name, -7), raw="zz")], [])
        tr += session(ctx, exe, [opt(name, mx), opt(name, mn + 1), opt(name, mn + 3)], ops(rng, t, mn + 3 if "prec" in name else 12, mn + 3 if "range" in name else 6, 6))
        tr += session(ctx, exe, [opt(name, mx + 1), opt(name, mn + 1)], [])
    for m in ("ieee", "full", "ib", "ob", "bo", "rr", "x"):
        tr += session(ctx, exe, [opt("mode", s=m), opt("precision-binary32", 5), opt("precision-binary64", 7)], ops(rng, "f", 5, 8, 6) + ops(rng, "d", 7, 11, 6))
    for m in ("rel", "x"):
        tr += session(ctx, exe, [opt("error-mode", s=m), opt("precision-binary32", 5)], ops(rng, "f", 5, 8, 6))
    tr += session(ctx, exe, [dict(opt("no-such-option"), raw="1")], [])
    traces.append(tr)
    # absolute error modes, identity operations on values normal in the format
    tr = []
    for m in ("abs", "all"):
        for _ in range(30 if ctx.thorough else 10):
            e = rng.randint(-25, 25)
            pf, pd = rng.randint(1, 23), rng.randint(1, 52)
            o = [opt("error-mode", s=m), opt("max-abs-error-exponent", e), opt("precision-binary32", pf), opt("precision-binary64", pd)]
            sc = []
            for _ in range(60):
                t = rng.choice("fd")
                one = word(mkfp(t, 0, (1 << (FMT[t][1] - 1)) - 1, 0), t)
                lo, hi = rng.choice([(e - 3, e + 1), (e - 3, e + 5), (e - 3, e + FMT[t][0]), (e + FMT[t][0] - 2, e + FMT[t][0] + 8)] + [(e + (pf if t == "f" else pd) - 1, e + (pf if t == "f" else pd) + 1)] * 3)
                u = gen.rnd_mid(rng, t, lo, hi)
                sc.append(("op", rng.choice(["mul", "div"]), t, [word(u, t), one]))
            tr += session(ctx, exe, o, sc)
    traces.append(tr)
    ctx.log("recorded")
    for t in traces:
        ctx.sample(t[0]["raw"])
    ctx.sample(traces[0][5]["raw"])
    ctx.cov_note["operations"] = sum(1 for t in traces for e in t if e["o"] == "op")
    ctx.cov_note["sessions"] = sum(1 for t in traces for e in t if e["o"] == "start")

    def desc(i, t, k):
        return "VPREC: %s" % t[k]["raw"], t[k]
    validate(ctx, "VprecTrace", traces, desc)
    ctx.finish(assumptions=["NaN payloads and signs are not compared", "in the absolute error modes only values that are normal in the format are constrained"])
