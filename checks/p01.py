"""Every backend sees every operation, in order, with the true operands; the last one's answer is used."""
from vlib import *
from rec import *
import gen

ARITH = ["add", "sub", "mul", "div"]


def backend_list(rng, variant):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 8, 15, 16])
    bs = []
    for j in range(n):
        k = rng.random()
        impl = [b for b in BITS if k < 0.3 or rng.random() < 0.6]
        bs.append(dict(id="b%d" % j, impl=impl))
    for q in REQ[variant]:
        if not any(q in b["impl"] for b in bs):
            rng.choice(bs)["impl"].append(q)
    return bs


def command(rng):
    k = rng.random()
    if k < 0.12:
        kind = rng.randrange(5)
        if kind == 0:
            return "call -1 ii %d %d" % (rng.randint(-5, 5), rng.getrandbits(30))
        if kind == 1:
            return "call 1 xf 0 %s %d" % (word(gen.rnd_mid(rng, "f"), "f"), rng.randint(1, 24))
        if kind == 2:
            return "call 1 xd 1 %s %d" % (word(gen.rnd_mid(rng, "d"), "d"), rng.randint(1, 53))
        return "call %d i %d" % (rng.choice([2, 3, 4, 5]), rng.randint(-3, 60))
    t = rng.choice("fd")
    if k < 0.22:
        return "fma %s 1 %s" % (t, " ".join(word(gen.rnd_val(rng, t), t) for _ in range(3)))
    if k < 0.28:
        return "cast f 1 %s" % word(gen.rnd_val(rng, "d"), "d")
    n = rng.choice([1, 1, 1, 2, 4, 8, 16])
    op = rng.choice(ARITH) if k < 0.8 else "cmp%d" % rng.randrange(16)
    same = rng.random() < 0.15  # lanes that share operands
    pool = [word(gen.rnd_val(rng, t), t) for _ in range(2)]
    xs = [rng.choice(pool) if same else word(gen.rnd_val(rng, t), t) for _ in range(2 * n)]
    return "%s %s %d %s" % (op, t, n, " ".join(xs))


def normal(cmd):
    """NaN payloads: an operation may not keep a signalling NaN operand bit for bit through a float register, so none is used"""
    w = cmd.split(" ")
    if w[0] == "call":
        return cmd
    t = "d" if w[0] == "cast" else w[1]
    p, e = FMT[t]
    E = (1 << e) - 1
    out = w[:3]
    for x in w[3:]:
        s, ex, m = split(int(x, 16), t)
        if ex == E and m:
            m |= 1 << (p - 1)
        out.append(word(mkfp(t, s, ex, m), t))
    return " ".join(out)


def check(ctx):
    rng = ctx.rng
    base = "SPECIFICATION Spec\nINVARIANTS Once Order Last\nCHECK_DEADLOCK FALSE\nCONSTANTS "
    model_check(ctx, "ChainMC", base + "NB = 3 Threads = {1} MaxLanes = 2 Rounds = 2\n")
    model_check(ctx, "ChainMC", base + ("NB = 3 Threads = {1, 2} MaxLanes = 1 Rounds = 1\n" if not ctx.thorough else "NB = 2 Threads = {1, 2} MaxLanes = 2 Rounds = 1\n"))
    ctx.log("model checked")
    so = recorder(ctx)
    sessions, traces = 160 if ctx.thorough else 36, []
    nops = 0
    for j in range(sessions):
        variant = rng.choice(["full", "full", "full", "plain", "cmp", "fmacast"])
        exe = opdrv(ctx, variant)
        bs = backend_list(rng, "full")
        par = j % 3 == 2
        n = 120 if len(bs) > 4 else 260
        cmds = [normal(command(rng)) for _ in range(n)]
        if par:
            cmds = ["BATCH %d %d" % (n, rng.choice([2, 4, 8]))] + cmds
        elif j % 3 == 1:
            cmds = [("@%d " % rng.randrange(3) if rng.random() < 0.5 else "") + c for c in cmds]
        log = ctx.path("log%d" % j)
        spec = "; ".join("%s --id=%s --ops=%x --tag=%d" % (so, b["id"], mask(b["impl"]), i + 1) for i, b in enumerate(bs))
        lines = drive(ctx, exe, spec, cmds, env=dict(REC_LOG=log))
        evs = chain_events(read_log(log))
        traces.append([dict(o="load", b=bs)] + evs)
        nops += n
        os.unlink(log)
    ctx.log("recorded")
    ctx.sample(dict(backends=[b["id"] for b in traces[0][0]["b"]], events=traces[0][1:6]))

    def desc(i, t, k):
        return "not a behaviour of the backend chain: %s" % json.dumps(t[k])[:300], dict(backends=t[0]["b"], context=t[max(0, k - 40):k + 1])
    ctx.cov_note["operations"] = nops
    ctx.cov_note["sessions"] = sessions
    # a rejected event makes what follows in the same request meaningless: one report per trace
    rej = check_traces(ctx, "ChainTrace", traces)
    for (i, k, ev) in rej[:6]:
        what, d = desc(i, traces[i], k) if ev is not None else ("?", None)
        ctx.violation(what, d)
    ctx.finish(assumptions=["signalling NaN operands are not used", "the recorder backend logs what it is called with"])
