"""Sessions of the randomised backends."""
from vlib import *
import gen

LIB = dict(quad="libinterflop_mca.so", int="libinterflop_mca_int.so")
PREC = dict(f=24, d=53)


def config(engine="quad", mode="mca", prec=None, err="rel", exp=112, daz=False, ftz=False, **kw):
    return dict(dict(engine=engine, mode=mode, prec=prec or dict(PREC), err=err, exp=exp, daz=daz, ftz=ftz), **kw)


def backend(c, seed):
    """the text of VFC_BACKENDS for a configuration; defaults are left out half of the time (odd seeds)"""
    s = [LIB[c["engine"]], "--mode=" + c["mode"]]
    if seed is not None:
        s.append("--seed=%d" % seed)
    if c["engine"] == "quad":
        for t, b in (("f", 32), ("d", 64)):
            if c["prec"][t] != PREC[t] or (seed or 0) % 2 == 0:
                s.append("--precision-binary%d=%d" % (b, c["prec"][t]))
        if c["err"] != "rel" or (seed or 0) % 2 == 0:
            s.append("--error-mode=" + c["err"])
        if c["exp"] != 112:
            s.append("--max-abs-error-exponent=%d" % c["exp"])
    for f in ("daz", "ftz"):
        if c[f]:
            s.append("--" + f)
    if "sparsity" in c:
        s.append("--sparsity=%s" % c["sparsity"])
    return " ".join(s)


def bconfig(mode="ob", op="zero", prec=None, daz=False, ftz=False):
    return dict(mode=mode, op=op, prec=prec or dict(PREC), daz=daz, ftz=ftz)


def bbackend(c, seed):
    s = ["libinterflop_bitmask.so"]
    odd = (seed or 0) % 2
    if c["mode"] != "ob" or not odd:
        s.append("--mode=" + c["mode"])
    if c["op"] != "zero" or not odd:
        s.append("--operator=" + c["op"])
    if seed is not None:
        s.append("--seed=%d" % seed)
    for t, b in (("f", 32), ("d", 64)):
        if c["prec"][t] != PREC[t] or not odd:
            s.append("--precision-binary%d=%d" % (b, c["prec"][t]))
    s += ["--" + f for f in ("daz", "ftz") if c[f]]
    return " ".join(s)


def session(ctx, exe, c, script, seed):
    """script: ('op', op, t, words) | ('rep', kind, n, reach, op, t, words) | ('setp', t, v) | ('inexact', t, word, n)"""
    be = backend(c, seed) if "engine" in c else bbackend(c, seed)
    cmds = []
    for x in script:
        if x[0] == "op":
            cmds.append("%s %s 1 %s" % (x[1], x[2], " ".join(x[3])))
        elif x[0] == "rep":
            cmds += ["%s %s 1 %s" % (x[4], x[5], " ".join(x[6]))] * x[2]
        elif x[0] == "setp":
            cmds.append("call %d i %d" % (CALL["SET_PRECISION_BINARY%d" % (32 if x[1] == "f" else 64)], x[2]))
        else:
            cmds.append("call %d x%s %d %s %d" % (CALL["INEXACT"], x[1], 0 if x[1] == "f" else 1, x[2], x[3]))
    lines = drive(ctx, exe, be, cmds, timeout=600)
    desc = "[%s]" % be
    tr = [dict(o="start", cfg=c, raw=desc)]
    k = 0
    for x in script:
        if x[0] == "rep":
            ev = ev_op(x[4], x[5], x[6], lines[k])
            rt = "f" if x[4] == "cast" else x[5]
            ev.update(o=x[1], rs=[fpval(h, rt) for h in lines[k:k + x[2]]], reach=x[3], raw="%s %d times %s %s %s -> %s ..." % (desc, x[2], x[4], x[5], " ".join(x[6]), " ".join(lines[k:k + 6])))
            tr.append(ev)
            k += x[2]
            continue
        l = lines[k]
        k += 1
        if x[0] == "op":
            tr.append(dict(ev_op(x[1], x[2], x[3], l), raw="%s %s %s %s -> %s" % (desc, x[1], x[2], " ".join(x[3]), l)))
        elif x[0] == "setp":
            tr.append(dict(o="setp", t=x[1], v=x[2], raw="%s precision %s := %d" % (desc, x[1], x[2])))
        else:
            tr.append(dict(o="inexact", t=x[1], a=fpval(x[2], x[1]), n=x[3], r=fpval(l, x[1]), raw="%s inexact %s %s %d -> %s" % (desc, x[1], x[2], x[3], l)))
    return tr


def mid(rng, t):
    """a value in the middle of a binade, with all its bits"""
    p, w = FMT[t]
    return mkfp(t, rng.getrandbits(1), (1 << (w - 1)) - 1 + rng.randint(-30, 30), (1 << (p - 2)) + rng.getrandbits(p - 1) | 1)


def operands(rng, op, t):
    k = rng.random()
    if k < 0.15:
        w = [gen.rnd_val(rng, t) for _ in range(3)]
    elif k < 0.6:
        a = gen.rnd_mid(rng, t)
        w = [a, gen.near(rng, a, t) if rng.random() < 0.5 else gen.rnd_mid(rng, t), gen.rnd_mid(rng, t)]
    elif k < 0.8:  # results at the edge of a binade
        a = gen.rnd_mid(rng, t, -3, 3, bits=rng.randint(0, 3))
        s, e, m = split(a, t)
        w = [a, rng.choice(gen.neigh(mkfp(t, rng.getrandbits(1), e + rng.choice([0, 0, -1, 1, -24, -25, -53, -54]), 0), t)), gen.rnd_mid(rng, t, -3, 3)]
    else:
        w = [gen.rnd_any(rng, t) for _ in range(3)]
    return w[:3 if op == "fma" else 2]


def ops(rng, n, tt="fd"):
    res = []
    for _ in range(n):
        op = rng.choice(["add", "sub", "mul", "div", "fma", "cast"])
        t = rng.choice(tt)
        if op == "cast":
            res.append(("op", op, "f", [word(gen.rnd_mid(rng, "d", -30, 30) if rng.random() < .6 else operands(rng, "add", "d")[0], "d")]))
        else:
            res.append(("op", op, t, [word(x, t) for x in operands(rng, op, t)]))
    return res
