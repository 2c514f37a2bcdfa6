"""Bitmask backend: only the digits below the virtual precision change, as the operator says."""
from vlib import *
import gen, mca


def identity(rng, u, t):
    """an operation whose exact result is u and whose other operand is not masked"""
    z = word(mkfp(t, 0, 0, 0), t)
    return rng.choice([("add", [word(u, t), z]), ("sub", [word(u, t), z])])


def digits(rng, t, n):
    """values whose digits around the n-th from the leading one matter: normal and subnormal"""
    p, w = FMT[t]
    out = []
    for _ in range(6):
        k = rng.randint(1, p + 1)              # significant digits
        sub = rng.random() < 0.35
        m = (1 << (k - 1)) | rng.choice([0, (1 << (k - 1)) - 1, rng.getrandbits(k), 1]) & ((1 << (k - 1)) - 1)
        if sub:
            out.append(mkfp(t, rng.getrandbits(1), 0, (m << rng.randint(0, max(0, p - k))) & ((1 << p) - 1) or 1))
        else:
            e = rng.choice([1, (1 << w) - 2, rng.randint(1, (1 << w) - 2), (1 << (w - 1)) - 1])
            out.append(mkfp(t, rng.getrandbits(1), e, (m << (p + 1 - k)) & ((1 << p) - 1)))
    for d in (0, 1, 2):                        # exactly n, n + 1, n + 2 digits
        k = min(p + 1, n + d)
        m = ((1 << (k - 1)) | (rng.getrandbits(k) & ((1 << (k - 1)) - 1))) | 1
        out.append(mkfp(t, rng.getrandbits(1), rng.randint(1, (1 << w) - 2), (m << (p + 1 - k)) & ((1 << p) - 1)))
    return out


def script(rng, c, n):
    out = []
    for _ in range(n):
        t = rng.choice("fd")
        if rng.random() < 0.55:
            for u in digits(rng, t, c["prec"][t])[:4]:
                op, w = identity(rng, u, t)
                out.append(("op", op, t, w))
        else:
            out += mca.ops(rng, 3)
    return out


def check(ctx):
    rng = ctx.rng
    big = ctx.thorough
    model_check(ctx, "BitmaskMC", "SPECIFICATION Spec\nINVARIANTS Kept Changed Drawn Monotone\nCONSTANTS MM = %d\nCHECK_DEADLOCK FALSE\n" % (255 if big else 63))
    ctx.log("model checked")
    exe = opdrv(ctx, "fmacast")
    jobs = []
    # every precision of both types, every mode and operator
    k = 0
    for rd in range(4 if big else 1):
        for pd in list(range(1, 54)) + [60, 100]:
            for mode in ("ib", "ob", "full"):
                for op in ("zero", "one", "rand"):
                    k += 1
                    if not big and (k + pd) % 3:
                        continue
                    pf = rng.choice([(pd - 1) % 24 + 1, rng.randint(1, 24), 30])
                    c = mca.bconfig(mode, op, dict(f=pf, d=pd), rng.random() < 0.15, rng.random() < 0.15)
                    jobs.append((c, script(rng, c, 24)))
    for op in ("zero", "one", "rand"):
        jobs.append((mca.bconfig("ieee", op, dict(f=3, d=5)), mca.ops(rng, 200)))
        jobs.append((mca.bconfig("ob", op), mca.ops(rng, 200)))
    # the drawn digits
    for j in range(60 if big else 20):
        t = "fd"[j % 2]
        p, w = FMT[t]
        n = rng.choice([1, 2, rng.randint(1, p)])
        mode = rng.choice(["ob", "ib", "full"])
        e = rng.choice([0, rng.randint(1, (1 << w) - 2), rng.randint(1, (1 << w) - 2)])
        u = mkfp(t, rng.getrandbits(1), e, rng.getrandbits(p) | 1)
        jobs.append((mca.bconfig(mode, "rand", dict(mca.PREC, **{t: n})), [("rep", "bits", 400, 0, rng.choice(["add", "sub"]), t, [word(u, t), word(0, t)])]))
    jobs = [(c, s, rng.getrandbits(40)) for c, s in jobs]
    trs = pmap(lambda j: mca.session(ctx, exe, *j), jobs)
    ctx.cov_note["operations"] = sum(1 for t in trs for e in t if e["o"] == "op")
    ctx.cov_note["configurations"] = len(trs)
    for t in trs[:4]:
        ctx.sample(t[-1]["raw"])
    ctx.log("recorded")

    def desc(i, t, k):
        e = t[k]
        return ("digits changed that should not be, or not changed as the operator says: %s" if e["o"] == "op" else "drawn digits do not all vary: %s") % e["raw"], {x: y for x, y in e.items() if x != "rs"}
    rng.shuffle(trs)
    validate(ctx, "BitmaskTrace", [sum(x, []) for x in chunk(trs, max(1, len(trs) // 24))], desc, key=lambda i, t, k: (t[k]["o"], t[k].get("op"), t[k].get("t")))
    ctx.finish(assumptions=["NaN payloads and signs are not compared", "a subnormal result that needs no more digits than the precision may or may not be masked in mode ob"])
