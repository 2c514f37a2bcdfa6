"""Profiles of function instrumentation: what they record and what they configure."""
from vlib import *
from funcgen import *
from p09 import options, opt, MODES, IMODES, programs
import random


def obs(e):
    """What the program sees in an event."""
    return [e["r"]] if e["o"] == "op" else e["seen"] if e["o"] in ("enter", "exit", "abs") else []


def again(t1, t2):
    """The observations of a run with those of the run that wrote its configuration."""
    a, b = [e for e in t1 if obs(e)], [e for e in t2 if obs(e)]
    out = [dict(o="again", now=len(b), before=len(a), raw=t2[0]["raw"] + ": number of observations")]
    for x, y in zip(a, b):
        out.append(dict(o="again", now=obs(y), before=obs(x), raw=y["raw"] + " (first run: " + x["raw"] + ")"))
    return out


def direct(ctx, exe, n, length, rounds):
    rng, traces = ctx.rng, []
    for k in range(n):
        st = Sites(rng, rng.choice([2, 5, 8, 20, 60]))
        recs = edit(rng, [r for r in st.default_recs() if rng.random() < 0.5]) if rng.random() < 0.4 else []
        for j in range(rounds):
            o, im = options(rng), rng.choice(IMODES)
            if recs and rng.random() < 0.3:
                recs = edit(rng, recs)
            rng.shuffle(recs)
            scr = script(rng, st, recs, length)
            tr, prof = session(ctx, exe, o, im, recs, scr, "d%d_%d" % (k, j))
            if prof is not None and not any(x["o"] in ("daz", "ftz") for x in o):
                t2, p2 = session(ctx, exe, o, im, prof, scr, "d%d_%db" % (k, j))
                tr = tr + t2 + again(tr, t2)
            traces.append(tr)
            if prof is None:
                break
            recs = prof
    return traces


def check(ctx):
    model_check(ctx, "FuncInstMC", "SPECIFICATION Spec\nINVARIANTS Formats Counts Bounds Quiet\nCHECK_DEADLOCK FALSE\nCONSTANT Depth = %d\n" % (5 if ctx.thorough else 4))
    ctx.log("model checked")
    exe = opdrv(ctx, "func")
    traces = direct(ctx, exe, 150 if ctx.thorough else 30, 100, 3 if ctx.thorough else 2)
    ctx.log("recorded")
    trs, _ = programs(ctx, 120 if ctx.thorough else 20, 3, None)
    ctx.log("programs run")
    ctx.cov_note["direct_sessions"] = len(traces)
    ctx.cov_note["program_runs"] = len(trs)
    ctx.cov_note["profiles"] = sum(e["o"] == "dump" for t in traces + trs for e in t)
    ctx.cov_note["profile_records"] = sum(len(e["recs"]) for t in traces + trs for e in t if e["o"] == "dump")
    validate(ctx, "FuncInstTrace", [sum(c, []) for c in chunk(traces + trs, 6)], lambda i, t, k: ("profile: %s" % t[k]["raw"][:700], t[k]))
    ctx.finish()
