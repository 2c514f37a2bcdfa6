"""Function selection: lists, patterns and the single-function option."""
import random
from vlib import *
from rec import *

MODS = ["alpha.c", "alpha2.c", "lib/alpha.c", "lib/sub/beta.c", "beta.v2.c", "al.pha.c", "gamma.c", "lib2/gamma.c",
        "c++/delta.c", "lib(1)/beta.c", "w[0].c", "a^b.c", "d$x/gamma.c", "q?.c", "br{2}.c", "p|q.c", "b\\s.c",
        "xalpha.c", "lib/my_gamma.c", "alpha.cpp", "lib/beta.C", "gamma.cc", "lib2/alpha.cxx"]
FNS = ["foo", "foo1", "foo_bar", "bar", "barfoo", "f", "ff", "fo", "o", "xfoo", "baz", "fxo", "fo$o", "foo$", "$f"]


def program(r, d):
    mods = list({os.path.splitext(m)[0]: m for m in r.sample(MODS, r.choice([1, 2, 3]))}.values())  # one object file each
    table, srcs, runs = {}, [], []
    taken = set()
    for i, m in enumerate(mods):
        cxx = not m.endswith(".c")            # names as in C, so that the lists name them, and once each
        fns = [f for f in r.sample(FNS, r.choice([2, 3, 4, 5])) if not cxx or f not in taken] or ["only%d" % i]
        taken |= set(fns) if cxx else set()
        src = ["#include <stddef.h>"]
        for j, f in enumerate(fns):
            k = 100 + 100 * i + j
            t = r.choice(["float", "double"])
            src.append("%s __attribute__((noinline)) %s %s(%s x) { volatile %s k = %d; return k %s x; }" % ('extern "C"' if cxx else "static", t, f, t, t, k, r.choice("+*-/")))
            table[k] = (m, f)
        src.append(('extern "C" ' if cxx else "") + "double run%d(void) { double s = 0; volatile double z; %s return 0; }" % (i, " ".join("z = %s(3);" % f for f in fns)))
        runs.append("run%d" % i)
        if i == 0:
            src.append("".join(('extern "C" ' if cxx else "") + "double run%d(void);\n" % q for q in range(len(mods))))
            src.append("int main(void) { %s return 0; }" % " ".join("run%d();" % q for q in range(len(mods))))
        p = os.path.join(d, m)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write("\n".join(src) + "\n")
        srcs.append(m)
    return mods, table


def modpat(r, d, mods):
    m = r.choice(mods + [r.choice(MODS)])
    b = os.path.basename(m)
    stem = b.split(".")[0]
    e = os.path.splitext
    return r.choice([m, b, e(m)[0], e(b)[0], stem, e(b)[0], b[1:], e(b)[0][1:], b.split("_")[-1], "*", "*.c", stem + "*", stem[:2] + "*", "*" + stem[-3:], stem + ".*", d + "/" + m, d + "/" + e(m)[0],
                     d + "/*", "/*/" + b, "/" + m, b.replace("a", ".", 1), b[:-1] + "?" if 0 else b[:-1], "lib/*", "lib*/" + b, "sub/" + b, "*/" + m, b.upper(), stem + ".cc"])


def funpat(r, fns):
    f = r.choice(fns + [r.choice(FNS)])
    return r.choice([f, f, f, "*", f[0] + "*", "*" + f[-1], "*" + f[1:-1] + "*" if len(f) > 2 else f, f[:-1] if len(f) > 1 else f, f + "*", "*" + f,
                     f.replace("o", ".", 1), f + "1", f[0] + "*" + f[-1], "main"])


def make_list(r, d, mods, fns, bad):
    ls = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
        k = r.random()
        if k < 0.1:
            ls.append("# " + r.choice(mods) + " *")
        elif k < 0.2:
            ls.append(r.choice(["", "   ", "\t"]))
        else:
            ls.append(modpat(r, d, mods) + r.choice([" ", " ", "  ", " \t"]) + funpat(r, fns) + r.choice(["", "", " ", "\t", "\r"]))
    if bad == "line":
        ls.insert(r.randint(0, len(ls)), r.choice(["foo", "alpha.c ", "alpha.c\tfoo", "*", "alpha;foo"]))
    return ls


def check(ctx):
    model_check(ctx, "SelectMC", "SPECIFICATION Spec\nINVARIANTS MatchOK Lit Laws\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxP = %d MaxS = %d\n" % ((6, 5) if ctx.thorough else (4, 4)))
    ctx.log("model checked")
    so = recorder(ctx)
    opdrv(ctx, "plain")
    wrap = ctx.path("opdrv_plain") + ".w.o"
    N = 1200 if ctx.thorough else 160
    seeds = [ctx.rng.getrandbits(40) for _ in range(N)]

    def one(j):
        r = random.Random(seeds[j])
        d = ctx.path("c%d" % j, "x")[:-2]
        mods, table = program(r, d)
        fns = [f for (_, f) in table.values()]
        kind = ["inc", "exc", "both", "inc", "both", "exc", "inc", "fun", "both", "badline", "none", "exc", "inc", "both", "unreadable", "both", "inc", "exc", "fun", "mix"][j % 20]
        no = dict(given=False, readable=False, lines=[])
        req = dict(inc=dict(no), exc=dict(no), fun=dict(given=False, name=[]))
        opts = []
        which = {"inc": ["inc"], "exc": ["exc"], "both": ["inc", "exc"], "badline": r.choice([["inc"], ["exc"], ["inc", "exc"]]),
                 "unreadable": r.choice([["inc"], ["exc"], ["inc", "exc"]]), "mix": [r.choice(["inc", "exc"])]}.get(kind, [])
        bad = r.choice(which) if which else None
        for w in which:
            ls = make_list(r, d, mods, fns, "line" if kind == "badline" and w == bad else None)
            f = os.path.join(d, w + ".txt")
            rd = not (kind == "unreadable" and w == bad)
            if rd:
                with open(f, "w", newline="") as fh:
                    fh.write("\n".join(ls) + r.choice(["", "\n"] if ls else [""]))
            req[w] = dict(given=True, readable=rd, lines=[list(l) for l in ls])
            n = {"inc": "--include-file", "exc": "--exclude-file"}[w]
            opts += r.choice([[n, f], [n + "=" + f], [n, w + ".txt"]])
        if kind in ("fun", "mix"):
            f = r.choice([x for x in fns + [r.choice(FNS)] if "$" not in x] or ["foo"])  # --function takes a regular expression
            req["fun"] = dict(given=True, name=list(f))
            opts += r.choice([["--function", f], ["--function=" + f]])
        full = j % 6 == 0
        env = base_env()
        srcs = [m if r.random() < 0.7 else os.path.join(d, m) for m in mods]
        exe = os.path.join(d, "prog")
        if full:
            p = sh(["verificarlo-c", "-O0"] + opts + srcs + ["-o", exe], cwd=d, env=env, timeout=120)
        else:
            p = sh(["verificarlo-c", "-O0", "-c"] + opts + srcs, cwd=d, env=env, timeout=120)
        ok = p.returncode == 0
        fl = []
        if ok:
            if not full:
                q = sh([CLANG] + [os.path.join(d, os.path.splitext(m)[0] + ".o") for m in mods] + [wrap, "-Wl,-rpath," + INST + "/lib", "-L" + INST + "/lib", "-ldl", "-lm",
                        "-linterflop_stdlib", "-linterflop_hashmap", "-linterflop_logger", "-o", exe], env=env, cwd=d)
                if q.returncode:
                    return None, ("link", q.stderr[-500:])
            log = os.path.join(d, "log")
            q = sh([exe], env=base_env(REC_LOG=log, VFC_BACKENDS=so + " --id=r", VFC_BACKENDS_LOGGER="False"), timeout=30)
            if q.returncode:
                return None, ("run", q.returncode, q.stderr[-500:])
            seen, times = set(), {}
            for th, who, w in read_log(log):
                if w[0] == "op":
                    t = w[2]
                    v = fpval(w[3], t)
                    k = unlimbs(v["m"]) << v["e"] if v["e"] >= 0 else -1
                    seen.add(k)
                    times[k] = times.get(k, 0) + 1
            if any(k not in table for k in seen) or any(n != 1 for n in times.values()):
                return None, ("unexpected operations", times)
            fl = [dict(mod=list(os.path.join(d, m)), fn=list(f), inst=k in seen) for k, (m, f) in sorted(table.items())]
        info = dict(kind=kind, opts=opts, mods=srcs, inc=["".join(l) for l in req["inc"]["lines"]], exc=["".join(l) for l in req["exc"]["lines"]], ok=ok,
                    fns=["%s %s %s" % ("".join(x["mod"]), "".join(x["fn"]), "instrumented" if x["inst"] else "native") for x in fl], err=p.stderr[-200:])
        shutil.rmtree(d, ignore_errors=True)
        return dict(req=req, ok=ok, fns=fl), info
    evs, infos = [], []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for ev, info in ex.map(one, range(N)):
            if ev is None:
                ctx.violation("compiled program misbehaves: %s" % (info,), info)
            else:
                evs.append(ev)
                infos.append(info)
    ctx.log("recorded")
    for i in (0, 2, 7):
        ctx.sample(infos[i])
    ctx.cov_note["compilations"] = len(evs)
    ctx.cov_note["refused"] = sum(1 for e in evs if not e["ok"])
    ctx.cov_note["function_decisions"] = sum(len(e["fns"]) for e in evs)
    for e, i in zip(evs, infos):
        e["i"] = i
    groups = [evs[g::NCPU] for g in range(NCPU)]
    validate(ctx, "SelectTrace", groups, lambda i, t, k: ("functions instrumented do not follow the selection rules: %s" % json.dumps(t[k]["i"])[:600], t[k]["i"]))
    ctx.finish(assumptions=["names in lists hold no white space", "the name given to --function holds no special characters", "sources are named without ./ or ../ parts"])
