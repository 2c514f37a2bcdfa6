"""VPREC rounding: every format, boundary and random values, through identity operations."""
from vlib import *
import gen


def idop(rng, u, t):
    """an operation whose exact result is u"""
    one = word(mkfp(t, 0, (1 << (FMT[t][1] - 1)) - 1, 0), t)
    k = rng.randrange(4)
    if k == 0:
        return ("mul", [word(u, t), one])
    if k == 1:
        return ("div", [word(u, t), one])
    if k == 2:
        return ("sub", [word(u, t), word(0, t)])
    return ("mul", [one, word(u, t)])


def tag(ev, p, r):
    ev["f"] = [p, r]
    return ev


def check(ctx):
    rng = ctx.rng
    model_check(ctx, "RoundMC", "SPECIFICATION Spec\nINVARIANTS InFmt Nearest Idem Sym Mono Ties VUnder\nCONSTANTS MM = %d\nCHECK_DEADLOCK FALSE\n" % (31 if ctx.thorough else 15))
    ctx.log("model checked")
    exe = opdrv(ctx, "plain")
    fmts = [(t, p, r) for t in "fd" for p in range(1, FMT[t][0] + 1) for r in range(2, FMT[t][1] + 1)]
    jobs = []
    rounds = 5 if ctx.thorough else 1
    for rd in range(rounds):
        fs = fmts[:]
        rng.shuffle(fs)
        for part in chunk(fs, 43):
            mode = rng.choice(["ob", "ob", "full"])
            cmds, evs = [], [dict(o="start", ok=True, opts=[dict(o="mode", v=0, s=mode)])]
            meta = [None]
            for (t, p, r) in part:
                b = 32 if t == "f" else 64
                cmds += ["call %d i %d" % (CALL["SET_PRECISION_BINARY%d" % b], p), "call %d i %d" % (CALL["SET_RANGE_BINARY%d" % b], r)]
                evs += [dict(o="setp", t=t, v=p, ok=True), dict(o="setr", t=t, v=r, ok=True)]
                meta += [None, None]
                vals = gen.boundary(rng, t, p, r, n=24 if ctx.thorough else 14)
                for u in vals:
                    op, w = idop(rng, u, t)
                    cmds.append("%s %s 1 %s" % (op, t, " ".join(w)))
                    evs.append((op, t, w))
                    meta.append((t, p, r, mode))
            jobs.append((mode, cmds, evs, meta))
    # sweeps over every binade of the type for some precisions
    for t in "fd":
        P, W = FMT[t]
        for p in ([1, P - 1, rng.randint(2, P - 2)] if not ctx.thorough else range(1, P + 1)):
            b = 32 if t == "f" else 64
            r = rng.choice([W, W, W - 1])
            cmds = ["call %d i %d" % (CALL["SET_PRECISION_BINARY%d" % b], p), "call %d i %d" % (CALL["SET_RANGE_BINARY%d" % b], r)]
            evs = [dict(o="start", ok=True, opts=[dict(o="mode", v=0, s="ob")]), dict(o="setp", t=t, v=p, ok=True), dict(o="setr", t=t, v=r, ok=True)]
            meta = [None, None, None]
            for e in range(0, (1 << W) - 1):
                op, w = idop(rng, gen.up_value(rng, t, p, e), t)
                cmds.append("%s %s 1 %s" % (op, t, " ".join(w)))
                evs.append((op, t, w))
                meta.append((t, p, r, "ob"))
            jobs.append(("ob", cmds, evs, meta))
    traces, metas = [], []
    for mode, cmds, evs, meta in jobs:
        out = drive(ctx, exe, "libinterflop_vprec.so --mode=%s" % mode, cmds)
        tr = [evs[0]]
        for e, o in zip(evs[1:], out):
            tr.append(e if isinstance(e, dict) else tag(ev_op(e[0], e[1], e[2], o), 0, 0))
        for e, m, o, raw in zip(tr, meta, [None] + out, evs):
            if m:
                e["f"] = "%s p=%d r=%d mode=%s: %s %s -> %s" % (m[0], m[1], m[2], m[3], raw[0], " ".join(raw[2]), o)
        traces.append(tr)
    ctx.log("traces recorded")
    for t in traces[:3]:
        ctx.sample(t[-1].get("f"))

    def desc(i, t, k):
        return "VPREC rounded wrongly: %s" % t[k].get("f"), t[k]
    ctx.cov_note["formats"] = len(fmts)
    ctx.cov_note["rounded_values"] = sum(1 for t in traces for e in t if e["o"] == "op")
    validate(ctx, "VprecTrace", traces, desc)
    ctx.finish(assumptions=["NaN payloads and signs are not compared", "identity operations (x*1, x/1, x-0) deliver x to the rounding step unchanged (checked by P08 in mode ieee)"])
