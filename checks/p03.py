"""Exactly the operations asked for are instrumented: generated programs, whole tool chain."""
import random
from vlib import *
from rec import *
from genprog import Prog

FLAG = {"fma": "--inst-fma", "cmp": "--inst-fcmp", "cast": "--inst-cast"}
Z = dict(k="z", s=0, e=0, m=[])


def outputs(log):
    return [w[1:] for th, who, w in read_log(log) if who == "P" and w[0] == "out"]


def outval(t, x):
    return int(x) if t == "i" else fpval(x, t)


def events(prog, log):
    evs = [dict(o="run", nodes=[dict(k=n["k"], op=n["op"], t=n["t"], a=n["a"], p=n["p"], ft=n.get("ft", ""), v=Z if n["v"] is None else n["v"]) for n in prog.nodes],
                outs=prog.outs, on=sorted(prog.kinds), strict=prog.strict)]
    for th, who, w in read_log(log):
        if who == "P":
            evs.append(dict(o="out", t=w[1], v=outval(w[1], w[2])))
        elif w[0] == "op":
            name, t, xs = w[1], w[2], w[3:]
            if name.startswith("cmp"):
                evs.append(dict(o="cmp", p=int(name[3:]), t=t, a=[fpval(x, t) for x in xs[:2]], r=int(xs[2])))
            else:
                evs.append(dict(o="op", op=name, t=t, a=[fpval(x, "d" if name == "cast" else t) for x in xs[:-1]], r=fpval(xs[-1], t)))
    evs.append(dict(o="end"))
    return evs


def check(ctx):
    model_check(ctx, "InstrMC", "SPECIFICATION Spec\nINVARIANTS TypeOK Once Right Complete\nCHECK_DEADLOCK FALSE\nCONSTANTS N = %d\n" % (2 if ctx.thorough else 1))
    ctx.log("model checked")
    so = recorder(ctx)
    outs_o = ctx.path("outs.o")
    sh([CLANG, "-O1", "-c", VERIF + "/harness/outs.c", "-o", outs_o], check=True)
    N = 900 if ctx.thorough else 192
    seeds = [ctx.rng.getrandbits(40) for _ in range(N)]

    def one(j):
        r = random.Random(seeds[j])
        d = ctx.path("c%d" % j, "x")[:-2]
        opt = j % 4
        kinds = {k for i, k in enumerate(["fma", "cmp", "cast"]) if ((j // 4) >> i) & 1}
        ext = r.choice([".c", ".c", ".cc"])
        prog = Prog(r, opt, kinds)
        files = prog.build(r.choice([1, 1, 2, 3]), ext, r.randint(4, 9))
        for f, s in files.items():
            open(os.path.join(d, f), "w").write(s)
        fl = ["-O%d" % opt]
        if opt >= 2:
            fl.append("-fno-slp-vectorize")
        if r.random() < 0.25:
            fl.append("-march=native")
        if r.random() < 0.2:
            fl.append("-g")
        if r.random() < 0.1:
            fl.append("-fPIC")
        cc = "verificarlo-c++" if ext == ".cc" else "verificarlo-c"
        env = base_env()
        names = list(files)
        src = {f: (f if r.random() < 0.7 else os.path.join(d, f)) for f in names}
        nat = os.path.join(d, "nat")
        sh([CLANG + ("++" if ext == ".cc" else "")] + fl + names + [outs_o, "-lm", "-o", nat], cwd=d, env=env, check=True)
        nlog = os.path.join(d, "nlog")
        sh([nat], env=base_env(REC_LOG=nlog), check=True)
        no = outputs(nlog)
        if len(no) != len(prog.outs):
            raise Trouble("generated program has %d outputs, expected %d" % (len(no), len(prog.outs)))
        for n, o in zip(prog.outs, no):
            if prog.nodes[n - 1]["k"] == "x":
                prog.nodes[n - 1]["v"] = outval(*o)
        o = [FLAG[k] for k in sorted(kinds)]
        info = dict(opts=fl + o, files=names, cc=cc, seed=seeds[j])
        exe = os.path.join(d, "prog")
        steps = []
        if r.random() < 0.5:
            info["steps"] = "one"
            steps.append([cc] + fl + o + [src[f] for f in names] + [outs_o, "-lm", "-o", exe])
        else:
            info["steps"] = "separate"
            objs = []
            for f in names:
                ob = os.path.join(d, r.choice([f.rsplit(".", 1)[0] + ".o", f + ".obj.o"]))
                objs.append(ob)
                steps.append([cc] + fl + o + ["-c", src[f], "-o", ob])
            steps.append([cc] + fl + o + objs + [outs_o, "-lm", "-o", exe])
        for s in steps:
            p = sh(s, cwd=d, env=env, timeout=200)
            if p.returncode:
                return None, dict(info, what="compilation fails", cmd=s, err=p.stderr[-600:], source=files)
        log = os.path.join(d, "log")
        q = sh([exe], env=base_env(REC_LOG=log, VFC_BACKENDS="%s --id=r --tag=%d" % (so, r.choice([1, 3, 2])), VFC_BACKENDS_LOGGER="False"), timeout=60)
        if q.returncode:
            return None, dict(info, what="compiled program fails", rc=q.returncode, err=q.stderr[-500:], source=files)
        evs = events(prog, log)
        info["source"] = files
        shutil.rmtree(d, ignore_errors=True)
        return evs, info
    trs, infos = [], []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for ev, info in ex.map(one, range(N)):
            if ev is None:
                ctx.violation("%s: %s" % (info["what"], info["opts"]), info)
            else:
                trs.append(ev)
                infos.append(info)
    ctx.log("recorded")
    ctx.cov_note["programs"] = len(trs)
    ctx.cov_note["operations_recorded"] = sum(sum(1 for e in t if e["o"] in ("op", "cmp")) for t in trs)
    ctx.sample({k: v for k, v in infos[0].items() if k != "source"})
    ctx.sample(infos[1])
    # a program rejected somewhere is reported once; the others of its group are checked without it
    groups = [list(range(g, len(trs), NCPU)) for g in range(NCPU)]
    n = 0
    while any(groups) and n < 6:
        groups = [g for g in groups if g]
        traces, start = [], []
        for g in groups:
            t, s = [], []
            for k in g:
                s += [(k, x) for x in range(len(trs[k]))]
                t += trs[k]
            traces.append(t)
            start.append(s)
        nxt = []
        for (i, k, ev) in check_traces(ctx, "InstrTrace", traces):
            pk, x = start[i][k]
            n += 1
            ctx.violation("%s -> event %d of the run is no behaviour of the program: %s" % (" ".join([infos[pk]["cc"]] + infos[pk]["opts"]), x, json.dumps(ev)[:400]),
                          dict(infos[pk], event=ev, log=trs[pk][max(1, x - 8):x + 4], nodes=trs[pk][0]))
            nxt.append(groups[i][groups[i].index(pk) + 1:])
        groups = nxt
    ctx.finish(assumptions=["generated programs execute each operation on distinct operands, so optimisers cannot merge them", "SLP vectorisation is off at -O2 and above (it computes alternate operations speculatively)"])
