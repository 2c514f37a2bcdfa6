"""Verbose output of the IEEE backend: every record written by the real backend denotes the operation executed."""
import gen
from vlib import *
import p06

NUMB = r"[+-](?:inf|nan|[01]\.[01]+ x 2\^-?\d+)"
NUMD = r"-?(?:inf|nan|[0-9.]+(?:e[+-]\d+)?)"


def text(s, binary):
    """the parts of a printed number"""
    sg = 1 if s[0] == "-" else 0
    b = s.lstrip("+-")
    t = dict(k="n", s=sg, lead=0, bits=[], x=0, six=False, d=[], q=0)
    if b in ("inf", "nan"):
        t["k"] = b[0].replace("n", "q")
        return t
    if binary:
        m, _, e = b.partition(" x 2^")
        t.update(lead=int(m[0]), bits=[int(c) for c in m[2:]], x=int(e))
        if "1" not in m:
            t["k"] = "z"
        return t
    m, _, e = b.partition("e")
    i, _, f = m.partition(".")
    d, q = int(i + f), int(e or 0) - len(f)
    if d == 0:
        t["k"] = "z"
        return t
    while len(str(d)) < 6:  # %g drops trailing zeros
        d, q = d * 10, q - 1
    while len(str(d)) > 6 and d % 10 == 0:
        d, q = d // 10, q + 1
    t.update(six=len(str(d)) == 6, d=limbs(d), q=q)
    return t


def records(err, binary, nl, name):
    """the output as a list of records; text that is no record becomes a record nothing matches"""
    num = NUMB if binary else NUMD
    head = r"(?:Info \[interflop-ieee\]: (Binary|Decimal) %s)?" % ("\n" if nl else "")
    sep = r"%s" % ("\n" if nl else "")
    fma = "(?P<f1>%s) \\* %s(?P<f2>%s) \\+ %s(?P<f3>%s) -> %s(?P<f4>%s)\n" % (num, sep, num, sep, num, sep, num)
    ari = "(?P<a1>%s) (?P<sg>[-+*/]) %s(?P<a2>%s) -> %s(?P<a3>%s)\n" % (num, sep, num, sep, num)
    cmp_ = "(?P<c1>%s) \\[(?P<p>\\w+)\\] %s(?P<c2>%s) -> (?P<tr>true|false)\n" % (num, sep, num)
    cast = "(?P<k1>%s) \\(float\\) -> %s(?P<k2>%s)\n" % (num, sep, num)
    rx = re.compile(head + "(?:%s|%s|%s|%s)%s" % (fma, ari, cmp_, cast, "\n" if nl else ""))
    out, at = [], 0
    while at < len(err):
        m = rx.match(err, at)
        if not m:
            e = err.find("\n", at)
            e = len(err) if e < 0 else e + 1
            out.append(dict(o="rec", h="?", sign="?", ts=[], truth=False, lines=0, raw=err[at:at + 200]))
            at = e
            continue
        g = m.groupdict()
        ts, sg, tr = ([g["f1"], g["f2"], g["f3"], g["f4"]], "fma", False) if g["f1"] else ([g["a1"], g["a2"], g["a3"]], g["sg"], False) if g["a1"] else \
            ([g["c1"], g["c2"]], g["p"], g["tr"] == "true") if g["c1"] else ([g["k1"], g["k2"]], "(float)", False)
        out.append(dict(o="rec", h=m.group(1) or "", sign=sg, ts=[text(x, binary) for x in ts], truth=tr, lines=m.group(0).count("\n"), raw=m.group(0)))
        at = m.end()
    return out


def check(ctx):
    rng = ctx.rng
    big = ctx.thorough
    mc = 'SPECIFICATION Spec\nINVARIANTS Faithful Ordered\nCONSTANTS P = %d\n R = %d\n MaxOps = %d\n Fault = "%s"\nCHECK_DEADLOCK FALSE\n'
    for p, r, k, f in [(3, 3, 1, "none"), (2, 2, 2, "none"), (5, 4, 1, "none"), (3, 3, 1, "clz"), (3, 3, 1, "emin"), (3, 3, 1, "cut"), (1, 2, 2, "order")]:
        model_check(ctx, "DebugOutMC", mc % (p, r, k, f), expect_ok=f == "none")
    ctx.log("model checked")
    exe = opdrv(ctx, "full")
    per = 700 if big else 220
    plans = []
    for j in range(96 if big else 24):
        o = dict(on=j % 12 != 11, bin=j % 3 != 1, norm=bool(rng.getrandbits(1)), nl=bool(rng.getrandbits(1)), name=bool(rng.getrandbits(1)))
        if not o["bin"]:
            n = per // 3  # decimals are dear to decide
        else:
            n = per
        cmds, evs = [], []
        for _ in range(n):
            t = rng.choice("fd")
            k = rng.random()
            if k < 0.2:
                p = rng.randrange(16)
                w = [word(x, t) for x in p06.cmp_operands(rng, t)]
                cmds.append("cmp%d %s 1 %s" % (p, t, " ".join(w)))
                evs.append([("cmp", t, p, w)])
            elif k < 0.3:
                op, l = rng.choice(["add", "sub", "mul", "div"]), rng.choice([2, 4, 8])
                a, b = [[word(x, t) for x in v] for v in zip(*[p06.operands(rng, op, t) for _ in range(l)])]
                cmds.append("%s %s %d %s" % (op, t, l, " ".join(a + b)))
                evs.append([(op, t, [x, y]) for x, y in zip(a, b)])
            else:
                op = rng.choice(["add", "sub", "mul", "div", "fma", "fma", "cast"])
                t = "f" if op == "cast" else t
                w = p06.operands(rng, op, t)
                ts = "d" if op == "cast" else t
                if rng.random() < 0.25:  # subnormals
                    p_, w_ = FMT[ts]
                    w = [mkfp(ts, rng.getrandbits(1), 0, rng.choice([1, (1 << p_) - 1, 1 << rng.randrange(p_), rng.getrandbits(p_), rng.getrandbits(rng.randint(1, p_))])) if rng.random() < 0.6 else x for x in w]
                w = [word(x, ts) for x in w]
                cmds.append("%s %s 1 %s" % (op, t, " ".join(w)))
                evs.append([(op, t, w)])
        opts = []
        if o["on"]:
            opts.append(rng.choice(["--debug-binary", "-b"]) if o["bin"] else rng.choice(["--debug", "-d"]))
            if not o["bin"] and rng.random() < 0.4:
                opts.append("--debug-binary")  # decimal is chosen
        if o["norm"]:
            opts.append(rng.choice(["--print-subnormal-normalized", "-p"]))
        if o["nl"]:
            opts.append(rng.choice(["--print-new-line", "-n"]))
        if not o["name"]:
            opts.append(rng.choice(["--no-backend-name", "-s"]))
        rng.shuffle(opts)
        if rng.random() < 0.2:
            o["quiet"] = True
        plans.append((o, opts, cmds, evs))

    def run(pl):
        o, opts, cmds, evs = pl
        be = " ".join(["libinterflop_ieee.so"] + opts)
        quiet = o.pop("quiet", False)
        lines, p = drive(ctx, exe, be, cmds, ok=False, env=dict(VFC_BACKENDS_SILENT_LOAD="True", VFC_BACKENDS_LOGGER="False" if quiet else "True"))
        if p.returncode or len(lines) != len(cmds):
            raise DriverDied(p.returncode, lines, p.stderr[-1000:], be)
        mode = dict(o, name=o["name"] and not quiet)
        recs = records(p.stderr, o["bin"], o["nl"], mode["name"])
        tr, k = [dict(o="begin", mode=mode, raw=be)], 0
        for c, e, r in zip(cmds, evs, lines):
            for q, x in zip(e, r.split()):
                if q[0] == "cmp":
                    tr.append(dict(o="cmp", p=q[2], t=q[1], a=fpval(q[3][0], q[1]), b=fpval(q[3][1], q[1]), r=int(x), raw=c + " -> " + x))
                else:
                    tr.append(dict(ev_op(q[0], q[1], q[2], x), raw="%s -> %s" % (c, x)))
            for q in e:
                if k < len(recs):
                    tr.append(dict(recs[k], be=be, cmd=c))
                    k += 1
        tr += [dict(x, be=be, cmd="(after the last operation)") for x in recs[k:]]
        tr.append(dict(o="end", raw="%d operations, %d records" % (sum(map(len, evs)), len(recs))))
        return tr
    trs = pmap(run, plans)
    ctx.cov_note["operations"] = sum(1 for t in trs for e in t if e["o"] in ("op", "cmp"))
    ctx.cov_note["records"] = sum(1 for t in trs for e in t if e["o"] == "rec")
    for e in trs[0][1:3] + trs[1][1:3]:
        ctx.sample(str(e["raw"])[:200])
    ctx.log("recorded")

    def desc(i, t, k):
        e = t[k]
        if e["o"] == "rec":
            return "with %s the record %r is not that of the operation %s" % (e["be"], e["raw"][:250], e["cmd"]), t[max(0, k - 3):k + 1]
        return "with %s: %s" % (t[0]["raw"], e.get("raw")), t[max(0, k - 3):k + 1]
    validate(ctx, "DebugOutTrace", trs, desc)
    ctx.finish(assumptions=["operations are executed one after the other (records of concurrent threads may mix)", "signs and payloads of NaNs are not compared"])
