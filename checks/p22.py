"""Messages of the runtime: which ones appear where, under all logger settings."""
import glob
import re
from vlib import *

HEAD = re.compile(r"^(\x1b\[[0-9;]*m)?(Info|Warning|Error|Debug)(\x1b\[0m)? \[(\x1b\[[0-9;]*m)?([^\]\x1b]*)(\x1b\[0m)?\]: (.*)$")
GOOD = ["libinterflop_ieee.so", "libinterflop_mca.so --seed=5", "libinterflop_mca.so --mode=rr --seed=9 --precision-binary32=20", "libinterflop_mca_int.so --seed=3", "libinterflop_mca_int.so --mode=pb --seed=3",
        "libinterflop_vprec.so", "libinterflop_vprec.so --precision-binary64=20 --mode=ib", "libinterflop_bitmask.so --seed=4 --precision-binary64=40", "libinterflop_cancellation.so --seed=8", "libinterflop_cancellation.so --warning --seed=8", "libinterflop_verrou.so"]
WARN = ["libinterflop_mca.so --seed=5 --precision-binary64=200", "libinterflop_mca.so --precision-binary32=120 --seed=5"]
BAD = ["libinterflop_mca.so --mode=foo", "libinterflop_mca.so --precision-binary64=0", "libinterflop_mca.so --precision-binary32=x", "libinterflop_vprec.so --range-binary32=55", "libinterflop_vprec.so --mode=zz",
       "libinterflop_bitmask.so --operator=none", "libinterflop_cancellation.so --tolerance=-5", "libinterflop_nothere.so", "libinterflop_mca.so --error-mode=q", "libinterflop_mca.so --sparsity=-1", "libinterflop_mca_int.so --precision-binary64=9"]
BOOLS = [None, "True", "true", "TRUE", "False", "false", "0", "1", ""]
LEVELS = [None, "debug", "DEBUG", "info", "Info", "warning", "WARNING", "error", "Error", "verbose"]


def truth(v, default):
    return default if v is None else v.lower() == "true"


def classify(text, plan, where):
    ev = []
    errors = 0
    for l in text.split("\n")[:-1] if text.endswith("\n") else text.split("\n"):
        if not l and not text:
            continue
        m = HEAD.match(l)
        if m:
            cols = [bool(m.group(g)) for g in (1, 3, 4, 6)]
            c = m.group(2).lower()
            if c == "info" and m.group(7).startswith("loaded backend"):
                c = "load"
            elif c == "info" and re.match(r"load backend with|[\w .-]+ = ", m.group(7)):
                c = "conf"
            errors += c == "error"
            if any(cols) != all(cols):
                c = "mixed"
            ev.append(dict(o="msg", c=c, where=where, header=True, color=all(cols), raw=l[:150]))
        elif plan["error"] and errors:
            pass          # the rest of the error message
        else:
            errors += plan["error"]
            ev.append(dict(o="msg", c="error" if plan["error"] else "warning", where=where, header=False, color=False, raw=l[:150]))
    return ev


def check(ctx):
    rng = ctx.rng
    big = ctx.thorough
    mc = 'SPECIFICATION Spec\nINVARIANT Good\nCONSTANT Fault = "%s"\nCHECK_DEADLOCK FALSE\n'
    pmap(lambda f: model_check(ctx, "LoggerMC", mc % f, expect_ok=f == "none"), ["none", "loud", "nofile", "warnbody"])
    ctx.log("model checked")
    exe = os.path.join(ctx.scratch, "logprog")
    sh(["verificarlo-c", "-O0", os.path.join(VERIF, "harness", "logprog.c"), "-o", exe], cwd=ctx.scratch, check=True)
    good = [b for b in GOOD if os.path.exists(INST + "/lib/" + b.split()[0])]
    refs = {}
    jobs = []
    for k in range(6000 if big else 700):
        bes = []
        for b in rng.sample(good, rng.choice([1, 1, 1, 2, 3])):
            if b.split()[0] not in [x.split()[0] for x in bes]:    # a library is loaded once
                bes.append(b)
        r = rng.random()
        warn = error = False
        if r < 0.25:
            w = rng.choice(WARN)
            bes = [w] + [b for b in bes if b.split()[0] != w.split()[0]]
            rng.shuffle(bes)
            warn = True
        elif r < 0.45:
            w = rng.choice(BAD)
            bes = [w] + [b for b in bes if b.split()[0] != w.split()[0]]
            rng.shuffle(bes)
            error = True
        s = dict(LOGGER=rng.choice(BOOLS), LOGGER_LEVEL=rng.choice(LEVELS), SILENT_LOAD=rng.choice([None, None] + BOOLS), COLORED_LOGGER=rng.choice([None, None] + BOOLS))
        jobs.append((k, bes, warn, error, s, rng.random() < 0.35))

    def one(j):
        k, bes, warn, error, s, tofile = j
        d = os.path.join(ctx.scratch, "d%d" % k)
        os.makedirs(d)
        env = base_env(VFC_BACKENDS="; ".join(bes), **{"VFC_BACKENDS_" + a: b for a, b in s.items() if b is not None})
        env.pop("VFC_BACKENDS_LOGGER", None)
        if s["LOGGER"] is not None:
            env["VFC_BACKENDS_LOGGER"] = s["LOGGER"]
        if tofile:
            env["VFC_BACKENDS_LOGFILE"] = os.path.join(d, "log file")
        p = sh([exe], env=env, cwd=d, timeout=60)
        q = None
        if not error:
            q = sh([exe], env=base_env(VFC_BACKENDS="; ".join(bes), VFC_BACKENDS_LOGGER="False"), cwd=d, timeout=60)
        level = (s["LOGGER_LEVEL"] or "info").lower()
        st = dict(on=truth(s["LOGGER"], True), level=level if level in ("debug", "info", "warning", "error") else "info", file=tofile, silent=truth(s["SILENT_LOAD"], False), color=truth(s["COLORED_LOGGER"], False))
        plan = dict(loads=len(bes), infos=2 * sum("--warning" in b for b in bes), warn=warn, error=error, debug=any("vprec" in b for b in bes))
        text = " ".join("%s=%s" % x for x in s.items() if x[1] is not None) + (" LOGFILE" if tofile else "") + " VFC_BACKENDS=" + env["VFC_BACKENDS"]
        tr = [dict(o="start", set=st, plan=plan, raw=text)]
        fs = [f for f in glob.glob(glob.escape(d) + "/*")]
        named = all(re.match(r"log file\.\d+$", os.path.basename(f)) for f in fs)
        if fs and (not named or not tofile or len(fs) > 1):
            tr.append(dict(o="msg", c="files", where="err", header=True, color=False, raw="files created: %s" % fs))
        body = "".join(open(f, errors="replace").read() for f in fs)
        tr += classify(body, plan, "file") + classify(p.stderr, plan, "err")
        same = q is not None and p.stdout == q.stdout and q.returncode == 0
        tr.append(dict(o="end", failed=p.returncode != 0, same=same, raw="status %d, output %s, standard error ends with %r" % (p.returncode, "as without logger" if same else "differs", p.stderr[-150:])))
        if error and p.stdout:
            tr[-1]["failed"] = False
        return tr
    trs = pmap(one, jobs)
    ctx.cov_note["processes"] = len(jobs)
    ctx.cov_note["messages"] = sum(len(t) - 2 for t in trs)
    for t in trs[:3]:
        ctx.sample("%s -> %d messages, %s" % (t[0]["raw"], len(t) - 2, t[-1]["raw"]))
    ctx.log("recorded")

    def desc(i, t, k):
        e = t[k]
        h = [x for x in t[:k + 1] if x["o"] == "start"][-1]["raw"]
        return {"end": "at the end of the program: ", "msg": "message that the settings do not allow there: "}.get(e["o"], "") + e["raw"] + " <- " + h, t[max(0, k - 30):k + 1]
    validate(ctx, "LoggerTrace", [sum(x, []) for x in chunk(trs, max(1, len(trs) // 16))], desc, key=lambda i, t, k: t[k]["o"])
    ctx.finish(assumptions=["the log file can be opened"])
