"""IEEE backend: native results for every operation and predicate, and exact operation counts."""
from vlib import *
import gen

KINDS = ["add", "sub", "mul", "div", "fma"]
OPTS = ["", "--debug", "--debug-binary", "--print-new-line --debug", "--no-backend-name --debug", "--print-subnormal-normalized --debug-binary", "--count-op"]
CFG = TRACE_CFG + 'CONSTANT Kinds = {"add", "sub", "mul", "div", "fma"}\n'


def counts(err):
    m = re.search(r"operations count:\n\s*mul=(\d+)\n\s*div=(\d+)\n\s*add=(\d+)\n\s*sub=(\d+)\n\s*fma=(\d+)", err)
    if not m:
        return []
    return dict(zip(["mul", "div", "add", "sub", "fma"], map(int, m.groups())))


def operands(rng, op, t):
    ts = "d" if op == "cast" else t
    a = gen.rnd_val(rng, ts)
    if op == "cast":
        if rng.random() < 0.6:  # around the edges of binary32
            r = rng.random()
            u = gen.boundary(rng, "d", 23, 8, n=2)
            return [rng.choice(u)]
        return [a]
    b = gen.near(rng, a, t) if rng.random() < 0.5 else gen.rnd_val(rng, t)
    if op != "fma":
        return [a, b]
    c = gen.rnd_val(rng, t)
    k = rng.random()
    if k < 0.6:  # near the product, so that cancellation and double rounding matter
        p, w = FMT[t]
        s1, e1, m1 = split(a, t)
        s2, e2, m2 = split(b, t)
        e = e1 + e2 - ((1 << (w - 1)) - 1) + rng.choice([0, 1, 1, -1, -p, p, p + 1, -p - 1, -2 * p, 2 * p])
        if 0 <= e < (1 << w) - 1:
            m = rng.choice([rng.getrandbits(p), 0, 1, (1 << p) - 1, ((m1 | 1 << p) * (m2 | 1 << p) >> p) & ((1 << p) - 1)])
            c = mkfp(t, rng.getrandbits(1), e, m)
    return [a, b, c]


def cmp_operands(rng, t):
    k = rng.random()
    a = gen.rnd_val(rng, t)
    if k < 0.3:
        return [a, a]
    if k < 0.4:
        return [rng.choice(gen.SPECIALS[t]), rng.choice(gen.SPECIALS[t])]
    if k < 0.7:
        return [a, gen.near(rng, a, t)]
    return [a, gen.rnd_val(rng, t)]


def check(ctx):
    rng = ctx.rng
    th = "{1, 2, 3}"
    model_check(ctx, "CountMC", "SPECIFICATION Spec\nINVARIANT NoLoss\nCHECK_DEADLOCK FALSE\nCONSTANTS Threads = %s Ops = 3 Atomic = TRUE\n" % th)
    r = tlc(ctx, "CountMC", "SPECIFICATION Spec\nINVARIANT NoLoss\nCHECK_DEADLOCK FALSE\nCONSTANTS Threads = %s Ops = 2 Atomic = FALSE\n" % th)
    if not r.inv:
        raise Trouble("the counter model accepts a lost update")
    exe = opdrv(ctx, "full")
    n = 40 if ctx.thorough else 8
    per = 5000 if ctx.thorough else 2600
    traces = []
    for j in range(n):
        opt = OPTS[j % len(OPTS)]
        cmds, evs = [], []
        for _ in range(per):
            t = rng.choice("fd")
            k = rng.random()
            if k < 0.35:
                p = rng.randrange(16)
                w = [word(x, t) for x in cmp_operands(rng, t)]
                cmds.append("cmp%d %s 1 %s" % (p, t, " ".join(w)))
                evs.append(("cmp", t, p, w))
            else:
                op = rng.choice(KINDS + ["fma", "cast", "div"])
                t = "f" if op == "cast" else t
                w = [word(x, "d" if op == "cast" else t) for x in operands(rng, op, t)]
                cmds.append("%s %s 1 %s" % (op, t, " ".join(w)))
                evs.append((op, t, w))
        lines, p = drive(ctx, exe, "libinterflop_ieee.so " + opt, cmds, ok=False)
        if p.returncode or len(lines) != len(cmds):
            raise DriverDied(p.returncode, lines, p.stderr[-1000:], "libinterflop_ieee.so " + opt)
        tr = [dict(o="begin", c="count-op" in opt)]
        for e, o in zip(evs, lines):
            if e[0] == "cmp":
                tr.append(dict(o="cmp", p=e[2], a=fpval(e[3][0], e[1]), b=fpval(e[3][1], e[1]), r=int(o), raw="cmp predicate %d %s %s -> %s [%s]" % (e[2], e[1], " ".join(e[3]), o, opt)))
            else:
                tr.append(dict(ev_op(e[0], e[1], e[2], o), raw="%s %s %s -> %s [%s]" % (e[0], e[1], " ".join(e[2]), o, opt)))
        tr.append(dict(o="report", rep=counts(p.stderr)))
        traces.append(tr)
    # counters under threads: sequential schedules across threads and truly concurrent bursts
    for j in range(12 if ctx.thorough else 5):
        cmds, tr = [], [dict(o="begin", c=True)]
        for _ in range(12):
            op, t = KINDS[(j + _) % 5], "fd"[(j // 1 + _ // 5 + _) % 2]
            k, m = rng.choice([2, 4, 8]), rng.choice([1000, 50000, 100000])
            w = [word(gen.rnd_mid(rng, t), t) for _ in range(3)]
            cmds.append("PAR %d %d %s %s 1 %s" % (k, m, op, t, " ".join(w)))
            tr.append(dict(o="bulk", op=op, k=k * m))
            for q in range(5):
                op = rng.choice(KINDS)
                w = [word(x, t) for x in operands(rng, op, t)]
                cmds.append("@%d %s %s 1 %s" % (rng.randrange(4), op, t, " ".join(w)))
                tr.append((op, t, w))
        lines, p = drive(ctx, exe, "libinterflop_ieee.so --count-op", cmds, ok=False)
        if p.returncode or len(lines) != len(cmds):
            raise DriverDied(p.returncode, lines, p.stderr[-1000:], "libinterflop_ieee.so --count-op")
        tr = [tr[0]] + [e if isinstance(e, dict) else dict(ev_op(e[0], e[1], e[2], o), raw="thread %s %s -> %s" % (e[0], e[2], o)) for e, o in zip(tr[1:], lines)]
        tr.append(dict(o="report", rep=counts(p.stderr)))
        traces.append(tr)
    ctx.log("recorded")
    ctx.sample(traces[0][1]["raw"])
    ctx.sample(traces[1][2]["raw"])
    ctx.sample(traces[-1][-1])

    def desc(i, t, k):
        e = t[k]
        return ("IEEE backend: reported counts %s do not match the operations executed" % e["rep"] if e["o"] == "report" else
                "IEEE backend: not the IEEE result: %s" % e.get("raw")), e
    ctx.cov_note["operations"] = sum(len(t) for t in traces)
    validate(ctx, "IeeeTrace", traces, desc, cfg=CFG)
    ctx.finish(assumptions=["NaN payloads and signs are not compared"])
