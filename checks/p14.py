"""Sparsity, denormals-are-zero, flush-to-zero in the randomised backends."""
from vlib import *
import gen, mca, p11


def tiny(rng, t):
    """subnormal, smallest normal, or their neighbours"""
    p, w = FMT[t]
    k = rng.random()
    if k < 0.5:
        return mkfp(t, rng.getrandbits(1), 0, rng.choice([1, 2, (1 << p) - 1, rng.getrandbits(p) | 1, rng.getrandbits(p) >> rng.randint(0, p - 1) | 1]))
    if k < 0.75:
        return mkfp(t, rng.getrandbits(1), 1, rng.choice([0, 1, rng.getrandbits(p)]))
    return mkfp(t, rng.getrandbits(1), rng.choice([0, 2, 3, rng.randint(1, p + 3)]), rng.getrandbits(p))


def script(rng, n):
    out = []
    for _ in range(n):
        t = rng.choice("fd")
        p, w = FMT[t]
        B = (1 << (w - 1)) - 1
        op = rng.choice(["add", "sub", "mul", "div", "fma", "cast"])
        if op == "cast":
            k = rng.random()
            if k < 0.7:   # float subnormal results and the edge
                e = 1023 + rng.choice([-126, -127, -126, -149, -150, rng.randint(-151, -124)])
                a = mkfp("d", rng.getrandbits(1), e, rng.choice([0, (1 << 52) - 1, rng.getrandbits(52), (1 << 52) - (1 << rng.randint(0, 30))]))
            else:
                a = tiny(rng, "d") if k < 0.85 else gen.rnd_mid(rng, "d")
            out.append(("op", "cast", "f", [word(a, "d")]))
            continue
        k = rng.random()
        if k < 0.5:
            ws = [tiny(rng, t), tiny(rng, t) if rng.random() < 0.5 else gen.rnd_mid(rng, t), tiny(rng, t)]
            rng.shuffle(ws)
        elif k < 0.85 and op in ("mul", "div", "fma"):  # subnormal results of normal operands
            e = rng.randint(B // 3, B // 2)
            x = mkfp(t, rng.getrandbits(1), B - e, rng.getrandbits(p))
            f = B - e - rng.randint(-4, p + 2)
            y = mkfp(t, rng.getrandbits(1), max(1, B - f) if op != "div" else min(2 * B, B + f), rng.getrandbits(p))
            ws = [x, y, rng.choice([0, tiny(rng, t)])]
        elif k < 0.85:
            x = mkfp(t, rng.getrandbits(1), rng.randint(1, p), rng.getrandbits(p))
            ws = [x, gen.near(rng, x, t)]
        else:
            ws = [gen.rnd_mid(rng, t) for _ in range(3)]
        out.append(("op", op, t, [word(x, t) for x in ws[:3 if op == "fma" else 2]]))
    return out


def check(ctx):
    rng = ctx.rng
    big = ctx.thorough
    model_check(ctx, "McaMC", 'SPECIFICATION Spec\nINVARIANTS Sound\nCONSTANTS Mags = {0,8}\n MM = {1,3}\n OPS = {"add","mul"}\n MODES = {"ieee","rr","pb","mca"}\nCHECK_DEADLOCK FALSE\n')
    ctx.log("model checked")
    exe = opdrv(ctx, "fmacast")
    jobs = []
    for rd in range(8 if big else 1):
        for daz in (False, True):
            for ftz in (False, True):
                for mode in ("ieee", "rr", "pb", "mca"):
                    jobs.append((mca.config("int", mode, daz=daz, ftz=ftz), script(rng, 160)))
                    jobs.append((mca.config("quad", mode, dict(f=rng.choice([24, rng.randint(1, 24)]), d=rng.choice([53, rng.randint(1, 53)])), "rel", daz=daz, ftz=ftz), script(rng, 160)))
                    if rng.random() < .5:
                        jobs.append((mca.config("quad", mode, None, "abs", rng.choice([-1000, -140, -1030]), daz=daz, ftz=ftz), script(rng, 60)))
                for op in ("zero", "one", "rand"):
                    for mode in ("ieee", "ib", "ob", "full"):
                        if big or rng.random() < 0.6:
                            jobs.append((mca.bconfig(mode, op, dict(f=rng.randint(1, 24), d=rng.randint(1, 53)), daz, ftz), script(rng, 100)))
    # sparsity
    for j in range(120 if big else 32):
        t = "fd"[j % 2]
        p, w = FMT[t]
        op = ["add", "sub", "mul", "div", "fma"][(j // 2) % 5]
        part = rng.choice([1024, 512, 256, 102, 900, rng.randint(30, 1000)])
        e = rng.randint(-20, 20)
        es = dict(add=[e, e - rng.randint(2, 9)], sub=[e, e - rng.randint(2, 9)], mul=[e // 2, e - e // 2], div=[e // 2, -(e // 2)], fma=[e // 2, e - e // 2, e - 3])[op]
        ws = [word(p11.value(rng, t, x, op in ("mul", "fma")), t) for x in es]
        g = "int" if j % 3 == 2 else "quad"
        c = mca.config(g, "rr", None if g == "int" else dict(mca.PREC, **{t: rng.randint(1, p - 12)}))
        if part < 1024 or rng.random() < 0.6:
            c["sparsity"] = repr(part / 1024)
        n = 1200
        # unperturbed operations give the plain result, perturbed ones stay in the interval
        jobs.append((c, [("rep", "sparse", n, part, op, t, ws), ("op", op, t, ws), ("op", op, t, ws)]))
    for j in range(60 if big else 16):   # operands: one added to a zero
        t = "fd"[j % 2]
        p, w = FMT[t]
        g, mode = [("quad", "pb"), ("quad", "mca"), ("int", "pb"), ("int", "mca")][(j // 2) % 4]
        n = 1200
        part = rng.choice([1024, 512, 102, 900, rng.randint(30, 1000)])
        op = "sub" if g == "int" else rng.choice(["add", "sub"])
        c = mca.config(g, mode, None if g == "int" else dict(mca.PREC, **{t: rng.randint(1, p - 12)}))
        c["sparsity"] = repr(part / 1024)
        x = word(p11.value(rng, t, rng.randint(-20, 20), False), t)
        jobs.append((c, [("rep", "sparsein", n, part, op, t, [x, x if op == "sub" else word(0, t)])]))
    for j in range(30 if big else 8):   # operands too: bounds only
        c = mca.config(rng.choice(["quad", "int"]), rng.choice(["pb", "mca"]), sparsity=repr(rng.choice([0.5, 0.1, 0.9])))
        jobs.append((c, mca.ops(rng, 100)))
    jobs = [(c, s, rng.getrandbits(40)) for c, s in jobs]
    trs = pmap(lambda j: mca.session(ctx, exe, *j), jobs)
    # start-up
    tries = []
    for g in ("quad", "int"):
        for v in ("0", "-1", "-0.5", "1", "0.001", "0.5", "1e-3", "0.0", "-0", "0.999"):
            lines, p = drive(ctx, exe, "%s --mode=rr --seed=3 --sparsity=%s" % (mca.LIB[g], v), ["add f 1 3f800000 3f800000"], ok=False)
            tries.append(dict(o="sparsity", milli=int(float(v) * 1000), ok=p.returncode == 0 and len(lines) == 1, raw="%s --sparsity=%s -> status %d" % (mca.LIB[g], v, p.returncode)))
    ctx.cov_note["operations"] = sum(1 for t in trs for e in t if e["o"] == "op")
    ctx.cov_note["configurations"] = len(trs)
    for t in trs[:3]:
        ctx.sample(t[-1]["raw"])
    ctx.log("recorded")
    rng.shuffle(trs)

    def desc(i, t, k):
        e = t[k]
        return {"op": "subnormal or plain value not treated as the flags say: %s", "sparse": "part of perturbed operations is not the sparsity: %s", "sparsein": "part of perturbed operands is not the sparsity: %s", "sparsity": "sparsity accepted or refused wrongly: %s"}.get(e["o"], "%s") % e["raw"], {x: y for x, y in e.items() if x != "rs"}
    for mod, sel in (("McaTrace", [t for t in trs if "engine" in t[0]["cfg"]] + [tries]), ("BitmaskTrace", [t for t in trs if "engine" not in t[0]["cfg"]])):
        validate(ctx, mod, [sum(x, []) for x in chunk(sel, max(1, len(sel) // 16))], desc, key=lambda i, t, k: (t[k]["o"], t[k].get("op"), t[k].get("t")))
    ctx.finish(assumptions=["the sign of a zero put for a subnormal is not specified", "sparsity above 1 is not specified"])
