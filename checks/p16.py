"""Cancellation backend: noise exactly where leading digits cancelled, of the size they say."""
import re
from vlib import *
import gen, mca


def pair(rng, t, op, lost):
    """operands of the same exponent whose add/sub loses exactly `lost` leading digits (1 <= lost <= p)"""
    p, w = FMT[t]
    e = rng.choice([(1 << (w - 1)) - 1, rng.randint(p + 2, (1 << w) - 2), rng.randint(1, (1 << w) - 2)])
    k = p + 1 - lost                              # digits of the difference
    d = (1 << (k - 1)) | rng.getrandbits(k - 1) if k > 1 else 1
    m = (1 << p) + rng.randrange(0, (1 << p) - d) if d < (1 << p) else 1 << p
    s = rng.getrandbits(1)
    a, b = mkfp(t, s, e, (m + d) & ((1 << p) - 1)), mkfp(t, s if op == "sub" else 1 - s, e, m & ((1 << p) - 1))
    if m + d >= (2 << p):
        return None
    if rng.random() < 0.5:
        a, b = (a, b) if op == "add" else (a, b)
        if op == "add":
            a, b = b, a
    return [word(a, t), word(b, t)]


def script(rng, tol, n):
    out = []
    while len(out) < n:
        t = rng.choice("fd")
        p = FMT[t][0]
        k = rng.random()
        op = rng.choice(["add", "sub"])
        if k < 0.45:
            c = min(p, max(1, rng.choice([tol - 1, tol, tol + 1, rng.randint(1, p), tol])))
            w = pair(rng, t, op, c)
            if w:
                out.append(("op", op, t, w))
        elif k < 0.7:
            a = gen.rnd_val(rng, t) if rng.random() < .4 else gen.rnd_mid(rng, t)
            b = gen.near(rng, a, t)
            out.append(("op", op, t, [word(a, t), word(b, t)]))
        elif k < 0.8:  # total cancellation
            a = gen.rnd_val(rng, t)
            b = a ^ (1 << sum(FMT[t])) if op == "add" else a
            out.append(("op", op, t, [word(a, t), word(b, t)]))
        else:
            out += mca.ops(rng, 2)
    return out


def session(ctx, exe, tol, warn, script, seed):
    be = "libinterflop_cancellation.so --seed=%d" % seed + (" --tolerance=%d" % tol if tol is not None else "") + (" --warning=1" if warn else "")
    cmds = []
    for x in script:
        cmds += ["%s %s 1 %s" % (x[1], x[2], " ".join(x[3]))] if x[0] == "op" else ["%s %s 1 %s" % (x[4], x[5], " ".join(x[6]))] * x[2]
    lines, p = drive(ctx, exe, be, cmds, env=dict(VFC_BACKENDS_LOGGER="True", VFC_BACKENDS_SILENT_LOAD="True"), ok=False)
    if p.returncode or len(lines) != len(cmds):
        raise DriverDied(p.returncode, lines, p.stderr[-2000:], be)
    tr = [dict(o="start", cfg=dict(tol=1 if tol is None else tol, warn=warn), raw="[%s]" % be)]
    k = 0
    for x in script:
        if x[0] == "op":
            tr.append(dict(ev_op(x[1], x[2], x[3], lines[k]), raw="[%s] %s %s %s -> %s" % (be, x[1], x[2], " ".join(x[3]), lines[k])))
            k += 1
        else:
            ev = ev_op(x[4], x[5], x[6], lines[k])
            ev.update(o="uniform", rs=[fpval(h, x[5]) for h in lines[k:k + x[2]]], raw="[%s] %d times %s %s %s -> %s ..." % (be, x[2], x[4], x[5], " ".join(x[6]), " ".join(lines[k:k + 6])))
            tr.append(ev)
            k += x[2]
    sizes = [int(s) for s in re.findall(r"cancellation of size (-?\d+) detected", p.stderr + p.stdout)]
    tr.append(dict(o="end", sizes=sizes, raw="[%s] %d cancellations reported" % (be, len(sizes))))
    return tr


def check(ctx):
    rng = ctx.rng
    big = ctx.thorough
    model_check(ctx, "CancelMC", "SPECIFICATION Spec\nINVARIANTS Counts Bounded Untouched Signs\nCONSTANTS N = %d\n TT = {1,2,3,4,5}\nCHECK_DEADLOCK FALSE\n" % (17 if big else 9))
    ctx.log("model checked")
    exe = opdrv(ctx, "fmacast")
    jobs = []
    tols = [None, 0, 1, 2, 3, 5, 10, 22, 23, 24, 30, 51, 52, 53, 60, 128, 150, 1000, 1200]
    for rd in range(12 if big else 2):
        for tol in tols + [rng.randint(1, 53) for _ in range(8)]:
            jobs.append((tol, rng.random() < 0.5, script(rng, tol or 1, 100)))
    for j in range(120 if big else 30):
        t = "fd"[j % 2]
        p = FMT[t][0]
        op = rng.choice(["add", "sub"])
        c = rng.randint(1, p - 10)
        w = None
        while w is None:
            w = pair(rng, t, op, c)
            e = split(int(w[0], 16), t)[1] if w else 0
            if e < 2 * p + 2:                   # the noise is representable
                w = None
        jobs.append((rng.choice([1, c, rng.randint(1, c)]), rng.random() < .3, [("rep", "uniform", 800, 0, op, t, w)]))
    jobs = [j + (rng.getrandbits(40),) for j in jobs]
    trs = pmap(lambda j: session(ctx, exe, *j), jobs)
    ctx.cov_note["operations"] = sum(1 for t in trs for e in t if e["o"] == "op")
    ctx.cov_note["distributions"] = sum(1 for t in trs for e in t if e["o"] == "uniform")
    ctx.cov_note["sessions"] = len(trs)
    for t in trs[:3]:
        ctx.sample(t[1]["raw"])
    ctx.log("recorded")
    rng.shuffle(trs)

    def desc(i, t, k):
        e = t[k]
        return {"op": "result not the IEEE one, or noise out of bounds: %s", "uniform": "noise does not fill its interval: %s", "end": "cancellations reported are not those that happened: %s"}[e["o"]] % e["raw"], {x: y for x, y in e.items() if x != "rs"}
    validate(ctx, "CancelTrace", [sum(x, []) for x in chunk(trs, max(1, len(trs) // 16))], desc, key=lambda i, t, k: (t[k]["o"], t[k].get("op"), t[k].get("t")))
    ctx.finish(assumptions=["NaN payloads and signs are not compared"])
