"""Random streams: reproducible from the seed, one per thread, independent of the schedule."""
from vlib import *
import gen, mca


def opline(rng, kind):
    """an operation which draws in every configuration of that kind"""
    t = rng.choice("fd")
    if kind == "cancel":
        a = gen.rnd_mid(rng, t, -3, 3)
        s, e, m = split(a, t)
        b = mkfp(t, s, e, m ^ (1 << rng.randint(0, FMT[t][0] - 10)))
        return "sub %s 1 %s %s" % (t, word(a, t), word(b, t))
    op = rng.choice(["mul", "div", "add"])
    x, y = mca.mid(rng, t), mca.mid(rng, t)
    if op == "add":
        y = mkfp(t, split(x, t)[0], split(x, t)[1] - rng.randint(2, 5), split(y, t)[2] | 1)
    return "%s %s 1 %s %s" % (op, t, word(x, t), word(y, t))


def configs(rng):
    lo = dict(f=rng.randint(6, 10), d=rng.randint(6, 10))
    c = []
    for mode in ("mca", "rr", "pb"):
        c.append(("mca " + mode, "arith", 8, "libinterflop_mca.so --mode=%s --precision-binary32=%d --precision-binary64=%d" % (mode, lo["f"], lo["d"])))
    c.append(("mca sparse", "arith", 32, "libinterflop_mca.so --mode=mca --sparsity=0.5 --precision-binary32=%d --precision-binary64=%d" % (lo["f"], lo["d"])))
    c.append(("mca abs", "arith", 8, "libinterflop_mca.so --mode=rr --error-mode=abs --max-abs-error-exponent=%d" % rng.randint(-5, 5)))
    for mode in ("mca", "rr", "pb"):
        c.append(("mca_int " + mode, "arith", 64, "libinterflop_mca_int.so --mode=%s" % mode))
    for mode in ("ob", "ib", "full"):
        c.append(("bitmask " + mode, "arith", 8, "libinterflop_bitmask.so --operator=rand --mode=%s --precision-binary32=%d --precision-binary64=%d" % (mode, lo["f"], lo["d"])))
    c.append(("cancellation", "cancel", 16, "libinterflop_cancellation.so --tolerance=1"))
    return c


def run(seed, what):
    return dict(o="run", seed=seed, raw=what)


def scheduled(ctx, exe, be, seed, sched, pre=""):
    """sched: (thread, command line); thread None is the main thread"""
    full = "%s%s%s" % (pre, be, "" if seed.startswith("u") else " --seed=" + seed)
    cmds = [("" if k is None else "@%d " % k) + l for k, l in sched]
    lines = drive(ctx, exe, full, cmds)
    tr = [run(seed, "[%s]" % full)]
    for (k, l), r in zip(sched, lines):
        # the main thread is number 63
        tr.append(dict(o="draw", th=63 if k is None else k, op=l, r=r, raw="[%s] thread %s: %s -> %s" % (full, "main" if k is None else k, l, r)))
    return tr


def together(ctx, exe, be, seed, ops, ks, known, env=None):
    full = "%s%s" % (be, "" if seed.startswith("u") else " --seed=" + seed)
    cmds = []
    for k in ks:
        cmds.append("BATCH %d %d" % (len(ops) * k, k))
        cmds += [o for o in ops for _ in range(k)]
    lines = drive(ctx, exe, full, cmds, env=env)
    tr = [run(seed, "[%s]" % full)]
    p = 0
    for k in ks:
        l = lines[p + 1:p + 1 + len(ops) * k]
        p += 1 + len(ops) * k
        seqs = [l[i::k] for i in range(k)]
        tr.append(dict(o="together", ops=ops, seqs=seqs, known=known, raw="[%s] %d threads at once: %s" % (full, k, " | ".join(" ".join(s[:3]) for s in seqs)[:1500])))
    return tr


def merge(rng, parts):
    """a random interleaving of the sequences of (thread, line)"""
    idx = [i for i, p in enumerate(parts) for _ in p]
    rng.shuffle(idx)
    it = [iter(p) for p in parts]
    return [next(it[i]) for i in idx]


def plan(ctx, exe, rng, name, kind, n, be, big):
    """list of thunks making the pieces of one trace"""
    ops = [opline(rng, kind) for _ in range(n)]
    short = ops[:max(n // 2, 4)]
    seed = str(rng.choice([rng.getrandbits(63), rng.getrandbits(30), 0, rng.getrandbits(62)]))
    T = 8
    jobs = []

    def add(f, *a, **k):
        jobs.append((f, a, k))
    # the streams of the ranks: threads start in a random order, then interleave at random
    def sched(nt, body, main=False):
        ths = rng.sample(range(16), nt)
        if main:
            ths[rng.randrange(nt)] = None
        first = [(k, body[0]) for k in ths]
        return first + merge(rng, [[(k, l) for l in body[1:]] for k in ths])
    add(scheduled, be, seed, sched(T, ops))
    for j in range(6 if big else 2):
        add(scheduled, be, seed, sched(rng.randint(2, T), ops, main=j % 2 == 0))
    # staggered: a thread starts when others are under way
    for j in range(4 if big else 1):
        nt = rng.randint(2, 6)
        s = merge(rng, [[(k, l) for l in ops] for k in rng.sample(range(16), nt)])
        add(scheduled, be, seed, s)
    # one thread only
    add(scheduled, be, seed, [(None, l) for l in ops])
    add(scheduled, be, seed, [(5, l) for l in ops])
    # the history of a thread is its own: other operations, in the same places, in two different schedules
    alt = [[opline(rng, kind) for _ in range(6)] for _ in range(3)]
    for j in range(3 if big else 2):
        ths = rng.sample(range(16), 3)
        add(scheduled, be, seed, [(k, alt[i][0]) for i, k in enumerate(ths)] + merge(rng, [[(k, l) for l in alt[i][1:]] for i, k in enumerate(ths)]))
    # another backend in the chain, with a seed of its own, changes nothing
    other = rng.choice(["libinterflop_ieee.so; ", "libinterflop_mca_int.so --mode=rr --seed=4; " if "mca_int" not in be else "libinterflop_mca.so --seed=%s; " % seed,
                        "libinterflop_bitmask.so --operator=rand --seed=%s; " % seed if "bitmask" not in be else "libinterflop_mca.so --seed=9; "])
    add(scheduled, be, seed, sched(3, ops), pre=other)
    # all at once
    for j in range(400 if big else 60):
        ks = rng.choice([[8], [8], [4, 4], [2, 3, 3], [7], [1, 7], [6, 2]])
        add(together, be, seed, short if j % 4 else ops[:2], ks, True)
    # other seeds: neighbours in the upper bits
    v = int(seed)
    for o in {v ^ (1 << 32), v ^ (1 << 40), v ^ (1 << 62), v ^ (1 << 12), rng.getrandbits(62), v ^ (1 << 31)}:
        if o != v:
            add(scheduled, be, str(o), sched(2, ops))
    # without a seed
    for j in range(60 if big else 12):
        add(scheduled, be, "u%d" % j, sched(2, ops) if j % 3 else [(None, l) for l in ops])
    for j in range(120 if big else 25):
        add(together, be, "v%d" % j if False else "u%d" % (1000 + j), ops, [rng.choice([8, 8, 4, 32])], False)
    return dict(name=name, jobs=jobs, n=n)


def check(ctx):
    rng = ctx.rng
    big = ctx.thorough
    for var, ok in (("ok", True), ("racy", False), ("shared", False)):
        model_check(ctx, "RngMC", 'SPECIFICATION Spec\nINVARIANTS Determined Apart Dense\nCONSTANTS T = 3\n K = 3\n Variant = "%s"\nCHECK_DEADLOCK FALSE\n' % var, expect_ok=ok)
    ctx.log("model checked")
    exe = opdrv(ctx, "plain")
    plans = [plan(ctx, exe, rng, *c, big) for c in configs(rng) for _ in range(3 if big else 1)]
    flat = [(i, j) for i, p in enumerate(plans) for j in p["jobs"]]
    res = pmap(lambda x: x[1][0](ctx, exe, *x[1][1], **x[1][2]), flat)
    traces = []
    for i, p in enumerate(plans):
        t = sum((r for (k, _), r in zip(flat, res) if k == i), [])
        t.append(dict(o="distinct", min=p["n"], raw="streams of different seeds or threads coincide: " + p["jobs"][0][1][0]))
        traces.append(t)
    # every thread of a wide start
    for be, m in (("libinterflop_mca.so --mode=rr --precision-binary64=8", 4), ("libinterflop_mca_int.so", 48), ("libinterflop_bitmask.so --operator=rand --precision-binary64=8", 4), ("libinterflop_cancellation.so --tolerance=1", 10)):
        ops = ["sub d 1 3ff123456789abcd 3ff1234500000001"] * m
        t = scheduled(ctx, exe, be, "77", [(k, l) for l in ops for k in range(62)])
        for j in range(12 if big else 3):
            t += together(ctx, exe, be, "77", ops, [62] if j % 2 else [31, 31], True)
        t.append(dict(o="distinct", min=m, raw="62 threads: " + be))
        traces.append(t)
    ctx.cov_note["processes"] = len(flat)
    ctx.cov_note["starts_at_once"] = sum(1 for t in traces for e in t if e["o"] == "together")
    ctx.cov_note["draws"] = sum(1 for t in traces for e in t if e["o"] == "draw") + sum(len(e["ops"]) * len(e["seqs"]) for t in traces for e in t if e["o"] == "together")
    for t in traces[:3]:
        ctx.sample(t[3]["raw"])
    ctx.log("recorded %d processes" % len(flat))

    def desc(i, t, k):
        e = t[k]
        if e["o"] == "draw":
            return "the result of a thread is not the one of the same history under another schedule: " + e["raw"], e
        if e["o"] == "together":
            return ("streams of threads started together are not those of their ranks: " if e["known"] else "threads without a seed share a stream: ") + e["raw"], e
        return e["raw"], e
    validate(ctx, "RngTrace", traces, desc, key=lambda i, t, k: (t[k]["o"], t[k]["raw"].split(" ")[0]))
    ctx.finish(assumptions=["streams of eight or more draws with many noise bits that agree are taken for the same stream", "seeds whose difference is a thread rank may share streams (seed xor rank)"])
