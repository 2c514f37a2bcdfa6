"""Function instrumentation: formats of operations, arguments and results along nested calls."""
from vlib import *
from funcgen import *
from rec import recorder

MODES = ["ib", "ob", "full", "ieee"]
IMODES = ["none", "arguments", "operations", "all", "all", "all"]


def opt(o, v=0, s=""):
    return dict(o=o, v=v, s=s)


def options(rng):
    o = [opt("mode", s=rng.choice(MODES))]
    for t, b in (("f", 32), ("d", 64)):
        if rng.random() < 0.4:
            o.append(opt("precision-binary%d" % b, rng.randint(1, MAXP[t])))
        if rng.random() < 0.3:
            o.append(opt("range-binary%d" % b, rng.randint(3, MAXR[t])))
    for f in ("daz", "ftz"):
        if rng.random() < 0.2:
            o.append(opt(f))
    return o


def direct(ctx, exe, n, length, dump):
    rng, traces = ctx.rng, []
    for k in range(n):
        st = Sites(rng, rng.randint(2, 8))
        base = st.default_recs()
        recs = edit(rng, [r for r in base if rng.random() < 0.8]) if rng.random() < 0.85 else []
        tr, _ = session(ctx, exe, options(rng), rng.choice(IMODES), recs, script(rng, st, recs, length), "d%d" % k, dump)
        traces.append(tr)
    return traces


def programs(ctx, n, runs, so):
    """Compiled programs: traces of calls, traces of notifications."""
    import random
    rng = ctx.rng
    seeds = [rng.getrandbits(32) for _ in range(n)]

    def one(k):
        r = random.Random(seeds[k])
        p = Prog(r, k)
        ok, err = p.build(ctx, ["-O%d" % (k % 4)])
        if not ok:
            return ["program %d does not compile: %s" % (k, err[-900:])], [], [], p
        tr, err, prof = p.run(ctx, [opt("mode", s=r.choice(MODES))], r.choice(IMODES), [], {}, "0")
        if tr is None:
            return [err], [], [], p
        trs, nts, bad = [tr], [], []
        if prof is None:
            return bad, trs, nts, p
        first = prof
        for j in range(runs):
            recs = edit(r, [x for x in first if r.random() < 0.9]) if j else first
            tr, err, prof = p.run(ctx, options(r), r.choice(IMODES), recs, {}, str(j + 1), chain="libinterflop_ieee.so; " if r.random() < 0.3 else "")
            if tr is None:
                bad.append(err)
            else:
                trs.append(tr)
        if so:
            for j in range(2):
                tr, err = p.notify(ctx, so, first, str(j), r.choice(["", "", "; libinterflop_vprec.so --instrument=none"]))
                if tr is None:
                    bad.append(err)
                else:
                    nts.append(tr)
        return bad, trs, nts, p

    bad, trs, nts = [], [], []
    for b, t, m, p in pmap(one, range(n)):
        for x in b:
            ctx.violation(x[:900], dict(sources=p.src))
        trs += t
        nts += m
    return trs, nts


def check(ctx):
    model_check(ctx, "FuncInstMC", "SPECIFICATION Spec\nINVARIANTS Formats Counts Bounds Quiet\nCHECK_DEADLOCK FALSE\nCONSTANT Depth = %d\n" % (5 if ctx.thorough else 4))
    model_check(ctx, "NotifyMC", "SPECIFICATION Spec\nINVARIANTS Same Balanced\nCHECK_DEADLOCK FALSE\nCONSTANT Depth = %d\n" % (8 if ctx.thorough else 6))
    ctx.log("model checked")
    exe = opdrv(ctx, "func")
    traces = direct(ctx, exe, 300 if ctx.thorough else 80, 120, False)
    ctx.log("recorded")
    trs, nts = programs(ctx, 160 if ctx.thorough else 24, 3, recorder(ctx))
    trs = [t[:-1] for t in trs]  # profiles are P10's
    ctx.log("programs run")
    ctx.cov_note["direct_sessions"] = len(traces)
    ctx.cov_note["program_runs"] = len(trs)
    ctx.cov_note["notification_runs"] = len(nts)
    ctx.cov_note["calls_in_programs"] = sum(e["o"] in ("enter", "abs") for t in trs for e in t)
    validate(ctx, "FuncInstTrace", [sum(c, []) for c in chunk(traces + trs, NCPU)], lambda i, t, k: ("function instrumentation: %s" % t[k]["raw"][:700], t[k]))
    validate(ctx, "NotifyTrace", [sum(c, []) for c in chunk(nts, NCPU)], lambda i, t, k: ("notifications: %s" % t[k]["raw"][:700], t[max(0, k - 6):k + 1]))
    ctx.finish()
