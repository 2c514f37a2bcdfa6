"""Monte Carlo arithmetic: every result in the interval its mode allows, the noise centred and filling it."""
from vlib import *
import gen, mca

MODES = ["rr", "pb", "mca"]


def configs(rng, n):
    out = []
    for k in range(n):
        m = ["ieee", "mca", "pb", "rr", "rr", "mca", "pb"][k % 7]
        if k % 10 in (3, 6, 9):
            out.append(mca.config("int", m))
        else:
            out.append(mca.config("quad", m, dict(f=rng.choice([24, rng.randint(1, 24), rng.randint(1, 53)]), d=rng.choice([53, rng.randint(1, 53), rng.randint(1, 112)])),
                                  ["rel", "rel", "abs", "all"][(k // 7) % 4], rng.choice([112, 0, rng.randint(-60, 60)])))
    return out


def value(rng, t, e, narrow=False):
    """exponent e, the leading bits chosen so that a noise stays in the binade; all digits"""
    p, w = FMT[t]
    m = (rng.randint(20, 60) << (p - 8)) if narrow else (rng.randint(64, 190) << (p - 8))
    return mkfp(t, rng.getrandbits(1), (1 << (w - 1)) - 1 + e, m | rng.getrandbits(p - 8) | 1)


def cancel(rng, t, op):
    """operands whose result is (almost) nothing but noise"""
    a, b = (value(rng, t, rng.randint(-9, 9), True) for _ in range(2))
    p, w = FMT[t]
    if op in ("add", "sub"):
        return [word(a, t), word(a ^ (1 << (p + w) if op == "add" else 0), t)]
    if op == "fma":
        (sa, ea, ma), (sb, eb, mb) = split(a, t), split(b, t)
        m = (ma | 1 << p) * (mb | 1 << p) >> p
        return [word(a, t), word(b, t), word(mkfp(t, 1 - (sa ^ sb), ea + eb - (1 << (w - 1)) + 1, m - (1 << p)), t)]


def stats(rng, n1, n2, n3, exhaustive):
    """(cfg, rep commands) whose results show the distribution"""
    out = []
    for t in "fd":
        p, w = FMT[t]
        lim = (1 << (w - 1)) - 70
        E = lambda: rng.choice([0, rng.randint(-20, 20), rng.randint(-lim, lim)])
        for op in ["add", "sub", "mul", "div", "fma"]:
            for rd in range(3 if exhaustive else 1):
                # one source: the result
                e = E()
                tp = rng.randint(1, p - 8)
                pr = dict(mca.PREC, **{t: tp})
                n = 3 if op == "fma" else 2
                es = dict(add=[e, e - rng.randint(2, 9)], sub=[e, e - rng.randint(2, 9)], mul=[e // 2, e - e // 2], div=[e // 2, -(e // 2)], fma=[e // 2, e - e // 2, e - 3])[op]
                w1 = [word(value(rng, t, x, op in ("mul", "fma")), t) for x in es]
                out.append((mca.config("quad", "rr", pr, "rel"), [("rep", "uniform", n1, 0, op, t, w1), ("rep", "spread", n2, 900, op, t, w1)]))
                # absolute noise on the result
                pr = dict(mca.PREC)
                out.append((mca.config("quad", "rr", pr, "abs", e - rng.randint(2, p - 10)), [("rep", "uniform", n1, 0, op, t, w1)]))
                # both: two sources of about the same size
                pr = dict(mca.PREC, **{t: tp})
                out.append((mca.config("quad", "rr", pr, "all", e - tp + 1), [("rep", "spread", n2, 480, op, t, w1)]))
                # operands, one of them dominating
                e = rng.randint(-20, 20)
                tp = rng.randint(6, p - 10)  # small noise: its effects add up
                pr = dict(mca.PREC, **{t: tp})
                for mode in ("pb", "mca"):
                    # all sources together: beyond what is left when one is missing
                    if op in ("mul", "div"):
                        w2 = [word(value(rng, t, x, True), t) for x in (e, rng.randint(-20, 20))]
                        out.append((mca.config("quad", mode, pr, "rel"), [("rep", "spread", n2 if mode == "pb" else n3, 614 if mode == "pb" else 716, op, t, w2)]))
                    elif op in ("add", "sub"):
                        for d in (12, -12):
                            w2 = [word(value(rng, t, x), t) for x in (e, e - d)]
                            out.append((mca.config("quad", mode, pr, "rel"), [("rep", "spread", n2 if mode == "pb" else n3, 900 if mode == "pb" else 600, op, t, w2)]))
                    else:
                        for d in (14, -14):
                            w2 = [word(value(rng, t, x, True), t) for x in (e // 2, e - e // 2, e - d)]
                            out.append((mca.config("quad", mode, pr, "rel"), [("rep", "spread", n3, (614 if d > 0 else 900) if mode == "pb" else (716 if d > 0 else 600), op, t, w2)]))
                # absolute noise on operands, larger than the relative one
                w2 = [word(value(rng, t, x, True), t) for x in dict(add=[e, e - 1], sub=[e, e - 1], mul=[e, e], div=[e, e], fma=[e, e, 2 * e - 1])[op]]
                pa = dict(mca.PREC, **{t: p - 10})
                for mode in ("pb", "mca"):
                    for err in ("abs", "all"):
                        out.append((mca.config("quad", mode, pa, err, e - 8), [("rep", "spread", 150, 300, op, t, w2)]))
                # cancellation shows the noise of all operands: beyond what is left when one is missing
                for g in ("quad", "int"):
                    for mode in ("pb", "mca"):
                        w4 = cancel(rng, t, op)
                        if w4:
                            out.append((mca.config(g, mode), [("rep", "spread", n3, 740 if op == "fma" else 614, op, t, w4)]))
                # default precision, both engines: frequency of the two neighbours
                for g in ("quad", "int"):
                    w3 = [word(value(rng, t, x, op in ("mul", "fma")), t) for x in es]
                    out.append((mca.config(g, "rr"), [("rep", "rounding", n1, 0, op, t, w3)]))
    return out


def usercalls(rng, n):
    out = []
    for _ in range(n):
        c = mca.config("quad", rng.choice(["rr", "pb", "mca", "mca", "ieee"]), dict(f=rng.randint(1, 24), d=rng.randint(1, 53)), rng.choice(["rel", "all", "abs"]), rng.randint(-20, 20))
        s = []
        for _ in range(60):
            k = rng.random()
            t = rng.choice("fd")
            if k < 0.25:
                s.append(("setp", t, rng.choice([1, mca.PREC[t], rng.randint(1, mca.PREC[t])])))
            elif k < 0.6:
                s.append(("inexact", t, word(gen.rnd_val(rng, t) if rng.random() < .3 else gen.rnd_mid(rng, t), t), rng.randint(1, mca.PREC[t]) if rng.random() < 0.7 else 0))
            else:
                s += mca.ops(rng, 2)
        out.append((c, s))
    return out


# draws of exactly one half, exponents and precisions beyond the wider type
def edges():
    third = {t: [word(mkfp(t, 0, (1 << (FMT[t][1] - 1)) - 1, 0), t), word(mkfp(t, 0, 1 << (FMT[t][1] - 1), 1 << (FMT[t][0] - 1)), t)] for t in "fd"}
    o = [("op", "div", t, third[t]) for t in "fd"] + [("op", "mul", t, third[t][1:] * 2) for t in "fd"]
    out = [(mca.config("quad", "rr"), o * 2, 675477107224478602)]
    for pf, pd in ((1100, 53), (2000, 53), (24, 16400), (24, 20000), (60, 120)):
        for m in MODES:
            out.append((mca.config("quad", m, dict(f=pf, d=pd)), o * 4, 7))
    for ex in (-1100, -1022, -16400, -300):
        for er in ("abs", "all"):
            out.append((mca.config("quad", "mca", None, er, ex), o * 4, 8))
    return out


def check(ctx):
    rng = ctx.rng
    mc = "SPECIFICATION Spec\nINVARIANTS Sound Tight Mirrored\nCONSTANTS Mags = {%s}\n MM = {%s}\n OPS = {%s}\n MODES = {%s}\nCHECK_DEADLOCK FALSE\n"
    if ctx.thorough:
        model_check(ctx, "McaMC", mc % ("0,5,8", "1,3,5,7", '"add","sub","mul","div"', '"ieee","rr","pb","mca"'))
        model_check(ctx, "McaMC", mc % ("0,8", "1,3,7", '"fma"', '"rr","pb","mca"'))
    else:
        model_check(ctx, "McaMC", mc % ("0,8", "1,7", '"add","mul","div"', '"ieee","rr","pb","mca"'))
    ctx.log("model checked")
    exe = opdrv(ctx, "fmacast")
    big = ctx.thorough
    jobs = [(c, mca.ops(rng, 150), rng.getrandbits(40)) for c in configs(rng, 1000 if big else 112)]
    jobs += [(c, s, rng.getrandbits(40)) for c, s in usercalls(rng, 150 if big else 25)]
    jobs += edges()
    st = [(c, s, rng.getrandbits(40)) for c, s in stats(rng, 4000 if big else 1600, 400, 1200, big)]
    trs = pmap(lambda j: mca.session(ctx, exe, *j), jobs + st)
    ctx.cov_note["operations"] = sum(1 for t in trs for e in t if e["o"] == "op")
    ctx.cov_note["distributions"] = sum(1 for t in trs for e in t if e["o"] in ("uniform", "spread", "rounding"))
    ctx.cov_note["configurations"] = len(trs)
    for t in trs[:3]:
        ctx.sample(t[-1]["raw"])
    ctx.log("recorded")
    rng.shuffle(trs)
    groups = [sum(x, []) for x in chunk(trs, max(1, len(trs) // 24 if not big else 12))]

    def desc(i, t, k):
        e = t[k]
        what = dict(op="a result out of the interval its mode and precision allow", inexact="explicit noise out of its interval", uniform="noise not uniform over its interval",
                    spread="noise not centred or not filling its interval", rounding="neighbours not chosen with the probability their distance gives")
        return "%s: %s" % (what.get(e["o"], e["o"]), e["raw"]), {x: y for x, y in e.items() if x != "rs"}
    validate(ctx, "McaTrace", groups, desc, key=lambda i, t, k: (t[k]["o"], t[k].get("op"), t[k].get("t")))
    ctx.finish(assumptions=["statistics allow six standard deviations; the seeds are fixed by VERIF_SEED"])
