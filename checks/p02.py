"""Configuration: source, splitting, refusal before main, initialisation and finalisation order."""
from vlib import *
from rec import *

NASTY = ["--x", "a", "-", "=", "--opt=v", "'q'", '"d', "\t", "t\tt", "\\", "%s%n", "*", "$HOME", "\n", "é", "#", ",", ":", "--id", "libx.so"]
KINDS = ["ok", "ok", "ok", "missop", "reject", "missing", "nosym", "toomany", "max", "args", "args+", "empty", "ok"]
REAL = ["ieee", "mca", "mca_int", "bitmask", "cancellation", "vprec"]


def chars(s):
    return list(s)


def unesc(s):
    b = re.sub(rb"\\([0-9a-f]{2})", lambda m: bytes([int(m.group(1), 16)]), s.encode())
    return b.decode("utf8", "replace")


def sep(rng, c):
    return {" ": rng.choice([" ", " ", "  ", "   "]), ";": rng.choice([";", "; ", " ; ", ";;", " ;", ";;; "])}[c]


def make(ctx, rng, so, j):
    """one configuration: (text, libs, required-variant, own exit code)"""
    variant = rng.choice(["plain", "plain", "cmp", "fma", "cast", "full", "fmacast"])
    req = {"fmacast": REQ["fma"] + ["cast_f"]}.get(variant) or REQ[variant]
    kind = KINDS[j % len(KINDS)]
    if kind in ("args", "args+", "max", "toomany"):  # the table limits, with the address sanitizer watching the tables
        variant, req = "asan", REQ["plain"]
    n = {"toomany": rng.choice([17, 18, 20]), "max": 16}.get(kind, rng.choice([1, 1, 2, 3, 5]))
    libs, toks = [], []
    bad = rng.randrange(n)
    for i in range(n):
        impl = [b for b in BITS if rng.random() < 0.7]
        libs.append(dict(loads=True, accepts=True, impl=impl, path=so))
    for q in req:
        if not any(q in l["impl"] for l in libs):
            libs[rng.randrange(n)]["impl"].append(q)
    if kind == "missop":
        q = rng.choice(req)
        for l in libs:
            l["impl"] = [b for b in l["impl"] if b != q]
    if kind == "reject":
        libs[bad]["accepts"] = False
    if kind == "missing":
        libs[bad].update(loads=False, path=rng.choice([ctx.scratch + "/none.so", "libinterflop_nothing.so", "-"]))
    if kind == "nosym":
        libs[bad].update(loads=False, path=ctx.path("libnosym%d.so" % rng.randrange(4)))
    for i, l in enumerate(libs):
        w = [l["path"], "--id=b%d" % i, "--ops=%x" % mask(l["impl"])]
        extra = [rng.choice(NASTY) for _ in range(rng.choice([0, 0, 1, 2, 6]))]
        if not l["accepts"]:
            extra.append("--reject")
        if kind == "args" and i == bad:
            extra = ["a%d" % k for k in range(rng.choice([252, 253]))]
        if kind == "args+" and i == bad:
            extra = ["a%d" % k for k in range(rng.choice([254, 255, 300]))]
        rng.shuffle(extra)
        w += extra
        s = w[0]
        for x in w[1:]:
            s += sep(rng, " ") + x
        toks.append(rng.choice(["", " ", ""]) + s + rng.choice(["", " "]) )
    s = toks[0]
    for x in toks[1:]:
        s += sep(rng, ";").strip(" ") + x if rng.random() < 0.5 else ";" + x
    s += rng.choice(["", ";", ""])
    if rng.random() < 0.1:
        s = ";" + s
    if kind == "empty":
        s, libs = rng.choice(["", ";", ";;;"]), []
    return s, libs, variant, req, kind


def check(ctx):
    rng = ctx.rng
    model_check(ctx, "ConfigMC", "SPECIFICATION Spec\nINVARIANTS SplitOK Safe Moves\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxLen = %d\n" % (9 if ctx.thorough else 6))
    ctx.log("model checked")
    so = recorder(ctx)
    stub = ctx.path("stub.c")
    names = ["interflop_pre_init", "interflop_cli", "interflop_init", "interflop_set_handler"]
    for k in range(4):  # a library lacking one of the entry points
        open(stub, "w").write("\n".join("void %s(void){}" % x for i, x in enumerate(names) if i != k))
        sh([CLANG, "-shared", "-fPIC", stub, "-o", ctx.path("libnosym%d.so" % k)], check=True)
    exes = {"asan": opdrv(ctx, "asan")}
    exes.update({v: opdrv(ctx, v) for v in ["plain", "cmp", "fma", "cast", "full", "fmacast"]})
    traces, infos = [], []
    N = 1600 if ctx.thorough else 260
    cases = []
    for j in range(N):
        s, libs, variant, req, kind = make(ctx, rng, so, j)
        src = rng.choice(["env", "env", "file", "both", "emptyenv"] if j % 5 == 0 else ["env", "env", "file"])
        if src != "env":
            s = s.replace("\n", "N")  # in a file a newline ends the configuration
        cases.append((j, s, libs, variant, req, kind, src))
    # every required operation missing, and implemented by one backend of the chain only
    for variant in ["plain", "cmp", "fma", "cast", "full"]:
        for q in REQ[variant]:
            for n, at in [(2, None), (1, None), (rng.choice([2, 3, 16]), "last")] if variant == "full" else [(rng.choice([1, 2]), None)]:
                impls = [[x for x in BITS if x != q] for _ in range(n)]
                if at:
                    impls[-1] = list(BITS)
                libs = [dict(loads=True, accepts=True, impl=im, path=so) for im in impls]
                s = ";".join("%s --id=b%d --ops=%x" % (so, i, mask(im)) for i, im in enumerate(impls))
                cases.append((len(cases), s, libs, variant, REQ[variant], "lastop" if at else "missop", "env"))
    for pos in (0, 7, 15):  # all of them in one place of a full chain
        impls = [list(BITS) if i == pos else ["enter"] for i in range(16)]
        libs = [dict(loads=True, accepts=True, impl=im, path=so) for im in impls]
        cases.append((len(cases), ";".join("%s --id=b%d --ops=%x" % (so, i, mask(im)) for i, im in enumerate(impls)), libs, "full", REQ["full"], "lastop", "env"))
    for b in REAL:
        for opt, acc in [("--bogus-option", False), ("--", True), ("", True)]:
            cases.append((len(cases), "libinterflop_%s.so %s" % (b, opt), [dict(loads=True, accepts=acc, impl=BITS, path=b)], "plain", REQ["plain"], "real", "env"))
    seeds = {c[0]: rng.getrandbits(30) for c in cases}

    def one(c):
        j, s, libs, variant, req, kind, src = c
        import random
        r = random.Random(seeds[j])
        log = ctx.path("log%d" % j)
        e = base_env(ASAN_OPTIONS="detect_leaks=0:exitcode=99", REC_LOG=log, VFC_BACKENDS_LOGGER=r.choice(["False", "True"]), VFC_BACKENDS_SILENT_LOAD=r.choice(["True", "False"]))
        env, fil = dict(set=False, cs=[]), dict(set=False, ok=False, cs=[])
        if src in ("file", "both", "emptyenv"):
            f = ctx.path("conf%d" % j)
            k = r.randrange(6)
            first = s.split("\n")[0]
            if k == 0 and src == "file":
                fil = dict(set=True, ok=False, cs=[])  # the file is not there
            elif k == 1 and src == "file":
                open(f, "w").close()
                fil = dict(set=True, ok=False, cs=[])
            else:
                body = s + r.choice(["", "\n", "\nlibinterflop_nothing.so\n", "\n\n"])
                if src == "both":
                    body = "libinterflop_nothing.so"
                open(f, "w").write(body)
                fil = dict(set=True, ok=True, cs=chars(body.split("\n")[0]))
            e["VFC_BACKENDS_FROM_FILE"] = f
        libs2 = libs
        if src in ("env", "both"):
            e["VFC_BACKENDS"] = s
            env = dict(set=True, cs=chars(s))
        elif src == "emptyenv":
            e["VFC_BACKENDS"] = ""
            env = dict(set=True, cs=[])
        own = r.choice([0, 0, 7, 42])
        p = sh([exes[variant]], env=e, inp="note main\nenv VFC_BACKENDS\n" + ("quit %d\n" % own if own else ""), timeout=60)
        used = env["cs"] if env["set"] else fil["cs"]
        # what each word list stands for (by its --id word), in the order of the text
        evs = [dict(o="start", env=env, file=fil, libs=[dict(loads=l["loads"], accepts=l["accepts"], impl=l["impl"]) for l in libs2], req=req)]
        lg = read_log(log)
        if kind == "real":
            evs += [dict(o="cli", argv=[chars(w) for w in s.split(" ") if w]), dict(o="init", n=1)] if libs[0]["accepts"] else []
        ninit = 0
        for th, who, w in lg:
            if who == "P":
                if w[0] == "ret" and w[1] == "note":
                    evs.append(dict(o="main"))
                elif w[0] == "ret" and w[1] in ("set", "unset"):
                    evs.append(dict(o="env", v=dict(set=w[1] == "set", cs=chars(unesc(w[2])) if len(w) > 2 else [])))
            elif w[0] == "cli":
                argv = [chars(unesc(x)) for x in w[2:]]
                if int(w[1]) != len(argv):
                    argv.append(chars("argc=%s" % w[1]))
                evs.append(dict(o="cli", argv=argv))
            elif w[0] == "init":
                evs.append(dict(o="init", n=int(who[1:]) + 1))
            elif w[0] == "fin":
                evs.append(dict(o="fin", n=int(who[1:]) + 1))
        if kind == "real" and evs[-1]["o"] in ("main", "env"):
            evs.append(dict(o="fin", n=1))
        evs.append(dict(o="exit", code=p.returncode, own=own))
        if os.path.exists(log):
            os.unlink(log)
        info = dict(kind=kind, src=src, text=s if len(s) < 2000 else s[:2000], variant=variant, rc=p.returncode, err=p.stderr[-300:])
        return evs, info
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for evs, info in ex.map(one, cases):
            traces.append(evs)
            infos.append(info)
    ctx.log("recorded")
    for i in (0, 3, 9):
        ctx.sample(infos[i])
    # several runs per TLC process; a run always begins with "start" after "exit"
    order = sorted(range(len(traces)), key=lambda i: len(traces[i][0]["env"]["cs"]) + len(traces[i][0]["file"]["cs"]))
    groups = [order[g::NCPU * 2] for g in range(NCPU * 2)]
    while groups:
        batch = [[e for i in g for e in traces[i]] for g in groups]
        rej = check_traces(ctx, "ConfigTrace", batch)
        nxt = []
        for gi, k, ev in rej:
            pos = 0
            for x, i in enumerate(groups[gi]):
                pos += len(traces[i])
                if k < pos:
                    break
            ev = dict(ev or {})
            if ev.get("o") == "start":
                ev = dict(o="start")
            ctx.violation("configuration not honoured (%s): %s" % (json.dumps(infos[i])[:400], json.dumps(ev)[:300]), dict(info=infos[i], trace=traces[i]))
            rest = groups[gi][x + 1:]
            if rest and len(ctx.violations) < 6:
                nxt.append(rest)
        groups = nxt
    ctx.cov_note["configurations"] = len(cases)
    ctx.finish(assumptions=["configuration text is valid UTF-8", "items made only of spaces are not generated"])
