"""Monte Carlo arithmetic: specials and (random rounding) exactly representable results are untouched."""
from vlib import *
from fractions import Fraction
import gen, mca


def specials(t):
    p, w = FMT[t]
    E = (1 << w) - 1
    out = []
    for s in (0, 1):
        out += [mkfp(t, s, 0, 0), mkfp(t, s, E, 0), mkfp(t, s, E, 1 << (p - 1)), mkfp(t, s, E // 2, 0), mkfp(t, s, 0, 1), mkfp(t, s, E - 1, (1 << p) - 1), mkfp(t, s, 1, 3)]
    return out


def special_ops(rng, full):
    out = []
    for t in "fd":
        sp = specials(t)
        for op in ("add", "sub", "mul", "div"):
            for a in sp:
                for b in sp:
                    if full or rng.random() < 0.35:
                        out.append(("op", op, t, [word(a, t), word(b, t)]))
        for _ in range(1200 if full else 250):
            out.append(("op", "fma", t, [word(rng.choice(sp), t) for _ in range(3)]))
    for a in gen.SPECIALS["d"] + [mkfp("d", s, 1023 + e, m) for s in (0, 1) for e in (127, 128, -126, -149, -150) for m in (0, 1 << 51, (1 << 52) - 1)]:
        out.append(("op", "cast", "f", [word(a, "d")]))
    return out


def frac(u, t):
    p, w = FMT[t]
    s, e, m = split(u, t)
    b = (1 << (w - 1)) - 1
    v = Fraction(m, 1) * Fraction(2) ** (1 - b - p) if e == 0 else Fraction(m | (1 << p)) * Fraction(2) ** (e - b - p)
    return -v if s else v


def unfrac(f, t):
    """(word of the value or None, significant bits)"""
    if f == 0:
        return mkfp(t, 0, 0, 0), 0
    m, d = abs(f.numerator), f.denominator
    if d & (d - 1):
        return None, 0
    e = -(d.bit_length() - 1)
    while m % 2 == 0:
        m //= 2
        e += 1
    return gen.from_me(t, 1 if f < 0 else 0, m, e), m.bit_length()


def dyadic(rng, t, bits, lo, hi):
    m = rng.getrandbits(bits) | 1
    return gen.from_me(t, rng.getrandbits(1), m, rng.randint(lo, hi))


def chain(rng, t, prec, n):
    """exact operations whose results have at most prec bits, each starting from the last result"""
    p, w = FMT[t]
    E = (1 << (w - 1)) - 2
    out = []
    cur = None
    while len(out) < n:
        if cur is None or rng.random() < 0.05:
            c = rng.choice([0, 0, rng.randint(-E, E)])
            cur = dyadic(rng, t, rng.randint(1, max(1, prec // 2)), c - 10, c + 10)
            if cur is None:
                continue
        op = rng.choice(["add", "sub", "mul", "div", "fma"])
        fa = frac(cur, t)
        s, e, m = split(cur, t)
        ex = e - (1 << (w - 1)) - p
        if op in ("add", "sub"):
            b = dyadic(rng, t, rng.randint(1, prec), ex, ex + p) if rng.random() < 0.8 else rng.choice([cur, cur ^ (1 << (p + w)), 0])
        else:
            b = dyadic(rng, t, rng.choice([1, 1, rng.randint(1, max(1, prec // 2))]), -12, 12)
        if b is None:
            continue
        fb = frac(b, t)
        ws = [cur, b]
        if op == "fma":
            c = dyadic(rng, t, rng.randint(1, prec), ex - 5, ex + p) if rng.random() < 0.7 else 0
            if c is None:
                continue
            ws.append(c)
            f = fa * fb + frac(c, t)
        elif op == "div":
            if fb == 0:
                continue
            f = fa / fb
        else:
            f = fa + fb if op == "add" else fa - fb if op == "sub" else fa * fb
        u, bits = unfrac(f, t)
        if u is None or bits > prec:
            continue
        out.append(("op", op, t, [word(x, t) for x in ws]))
        cur = u
    return out


def check(ctx):
    rng = ctx.rng
    model_check(ctx, "McaMC", 'SPECIFICATION Spec\nINVARIANTS Sound Tight Mirrored\nCONSTANTS Mags = {0,8}\n MM = {%s}\n OPS = {"add","sub","mul"}\n MODES = {"rr"}\nCHECK_DEADLOCK FALSE\n' % ("1,3,5,7,11,12,31" if ctx.thorough else "1,3,6,7"))
    ctx.log("model checked")
    exe = opdrv(ctx, "fmacast")
    big = ctx.thorough
    jobs = []
    cfgs = [mca.config(g, m) for g in ("quad", "int") for m in ("ieee", "rr", "pb", "mca")]
    cfgs += [mca.config("quad", m, dict(f=rng.randint(1, 24), d=rng.randint(1, 53)), er, rng.randint(-30, 30)) for m in ("rr", "pb", "mca") for er in ("rel", "abs", "all")]
    cfgs += [mca.config("quad", m, None, "rel", 112, daz=True, ftz=True) for m in ("rr", "mca")]
    for c in cfgs:
        o = special_ops(rng, big)
        rng.shuffle(o)
        jobs.append((c, o))
    for k in range(300 if big else 60):
        pf, pd = rng.choice([(24, 53), (rng.randint(1, 24), rng.randint(1, 53)), (rng.randint(1, 6), rng.randint(1, 6))])
        g = "int" if k % 5 == 4 else "quad"
        if g == "int":
            pf, pd = 24, 53
        c = mca.config(g, "rr", dict(f=pf, d=pd), rng.choice(["rel", "rel", "abs", "all"]) if g == "quad" else "rel", rng.randint(-30, 30))
        jobs.append((c, chain(rng, "f", pf, 60) + chain(rng, "d", pd, 60)))
    # every virtual precision
    for pd in range(1, 54):
        pf = (pd - 1) % 24 + 1
        n = 80 if big else 16
        jobs.append((mca.config("quad", "rr", dict(f=pf, d=pd)), chain(rng, "f", pf, n) + chain(rng, "d", pd, n)))
    # just not representable: the noise is there
    for k in range(60 if big else 16):
        t = "fd"[k % 2]
        n = rng.randint(2, 15 if t == "f" else 40)
        m = rng.getrandbits(n + 1) | (1 << n) | 1
        a = gen.from_me(t, rng.getrandbits(1), m, rng.randint(-50, 50))
        one = mkfp(t, 0, (1 << (FMT[t][1] - 1)) - 1, 0)
        jobs.append((mca.config("quad", "rr", dict(mca.PREC, **{t: n})), [("rep", "spread", 300, 900, "mul", t, [word(a, t), word(one, t)])]))
    jobs = [(c, s, rng.getrandbits(40)) for c, s in jobs]
    trs = pmap(lambda j: mca.session(ctx, exe, *j), jobs)
    ctx.cov_note["operations"] = sum(1 for t in trs for e in t if e["o"] == "op")
    ctx.cov_note["configurations"] = len(trs)
    for t in trs[:3] + trs[-40:-38]:
        ctx.sample(t[-1]["raw"])
    ctx.log("recorded")
    groups = [sum(x, []) for x in chunk(trs[:len(cfgs)], 1)] + [sum(x, []) for x in chunk(trs[len(cfgs):], 8)]

    def desc(i, t, k):
        e = t[k]
        return ("special or exact value perturbed: %s" if e["o"] == "op" else "value not representable at the virtual precision not perturbed: %s") % e["raw"], {x: y for x, y in e.items() if x != "rs"}
    validate(ctx, "McaTrace", groups, desc, key=lambda i, t, k: (t[k]["o"], t[k].get("op"), t[k].get("t")))
    ctx.finish(assumptions=["NaN payloads and signs are not compared"])
