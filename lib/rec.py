"""The recorder backend and the traces made of its log."""
from vlib import *

BITS = ["add_f", "sub_f", "mul_f", "div_f", "cmp_f", "add_d", "sub_d", "mul_d", "div_d", "cmp_d", "cast_f", "fma_f", "fma_d", "enter", "exit", "user", "fin"]
REQ = {"plain": ["add_f", "sub_f", "mul_f", "div_f", "add_d", "sub_d", "mul_d", "div_d"]}
REQ["cmp"] = REQ["plain"] + ["cmp_f", "cmp_d"]
REQ["fma"] = REQ["plain"] + ["fma_f", "fma_d"]
REQ["cast"] = REQ["plain"] + ["cast_f"]
REQ["full"] = REQ["plain"] + ["cmp_f", "cmp_d", "fma_f", "fma_d", "cast_f"]


def recorder(ctx):
    so = ctx.path("rec", "librec.so")
    if not os.path.exists(so):
        sh([CLANG, "-O2", "-mfma", "-shared", "-fPIC", "-I", INST + "/include", VERIF + "/harness/rec.c", "-lm", "-o", so], check=True)
    return so


def mask(impl):
    return sum(1 << BITS.index(b) for b in impl)


def read_log(f):
    """list of (thread, who, words)"""
    res = []
    if os.path.exists(f):
        for l in open(f, errors="replace"):
            w = l.rstrip("\n").split(" ")
            res.append((w[0], w[1], w[2:]))
    return res


def op_event(w):
    """words of an 'op' line -> (op, args, result)"""
    name, t, xs = w[1], w[2], w[3:]
    if name.startswith("cmp"):
        return "cmp_" + t, [name[3:]] + xs[:-1], xs[-1]
    return name + "_" + t, xs[:-1], xs[-1]


def cmd_lanes(w):
    """words of a driver command -> (op, [args per lane])"""
    name, t, n, xs = w[0], w[1], int(w[2]), w[3:]
    k = len(xs) // n
    lanes = [[xs[j * n + l] for j in range(k)] for l in range(n)]
    if name.startswith("cmp"):
        return "cmp_" + t, [[name[3:]] + a for a in lanes]
    return name + "_" + t, lanes


def chain_events(log):
    """events of Chain.tla from the interleaved log of recorders and driver"""
    evs = []
    cur = {}
    for th, who, w in log:
        if who == "P" and w[0] == "begin":
            if w[1] == "call":
                cur[th] = "call"
                evs.append(dict(o="begin", th=th, op="user", args=[[w[2]] + w[4:]]))
            elif w[1] in ("note",):
                cur[th] = None
            else:
                cur[th] = "op"
                op, lanes = cmd_lanes(w[1:])
                evs.append(dict(o="begin", th=th, op=op, args=lanes))
        elif who == "P" and w[0] == "ret":
            if cur.get(th) == "call":
                evs.append(dict(o="retcall", th=th))
            elif cur.get(th) == "op":
                evs.append(dict(o="ret", th=th, r=w[1:]))
            cur[th] = None
        elif w and w[0] == "op":
            op, args, r = op_event(w)
            evs.append(dict(o="called", th=th, id=who, op=op, args=args, r=r))
        elif w and w[0] == "call":
            evs.append(dict(o="called", th=th, id=who, op="user", args=w[1:], r="-"))
    return evs
