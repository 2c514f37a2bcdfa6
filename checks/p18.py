"""Probes."""
import random, struct, string
from vlib import *

ALPH = "abcABC_0123 .-+*/()[]{}:;!?'\"=&%$#@~<>|^\\" + "éλ"


def esc(b):
    return "".join("%c" % c if 33 <= c < 127 and c != 37 else "%%%02x" % c for c in b.encode())


def vtext(x):
    """canonical text of a value"""
    u = struct.unpack("<Q", struct.pack("<d", x))[0]
    return "nan" if x != x else "%016x" % u


def value(r):
    k = r.random()
    if k < 0.6:
        return struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]
    return r.choice([0.0, -0.0, 1.0, -1.5, 0.1, 1e300, 5e-324, -2.2250738585072014e-308, 1.7976931348623157e308, float("inf"), float("-inf"), float("nan"), 3.0, 1 / 3])


def check(ctx):
    model_check(ctx, "ProbesMC", "SPECIFICATION Spec\nINVARIANTS Distinct NoComma Counted Decided\nCHECK_DEADLOCK FALSE\nCONSTANTS Max=%d\n" % (2 if ctx.thorough else 2))
    ctx.log("model checked")
    exe = ctx.path("probedrv")
    sh([CLANG, "-O1", "-g", "-I", INST + "/include", "-I", INST + "/include/interflop", VERIF + "/harness/probedrv.c", "-Wl,-rpath," + INST + "/lib", "-L" + INST + "/lib",
        "-lvfc_probes", "-linterflop_hashmap", "-linterflop_stdlib", "-o", exe], check=True)
    N = 1000 if ctx.thorough else 160
    seeds = [ctx.rng.getrandbits(40) for _ in range(N)]
    HEAD = "test,variable,value,accuracy_threshold,check_mode"

    def one(j):
        r = random.Random(seeds[j])
        d = ctx.path("s%d" % j, "x")[:-2]
        coll = ["Aa", "BB", "aBAa", "aBBB", "b#Aa", "AaAa", "BBBB", "AaBB", "BBAa"]

        def name():
            k = r.random()
            if k < 0.25:
                return r.choice(["x", "y", "t1", "t2", "test", "res"]) + str(r.randrange(40))
            if k < 0.45:
                return r.choice(coll)
            if k < 0.5:
                return ""
            if k < 0.53:
                return "".join(r.choice(ALPH) for _ in range(r.choice([300, 1500])))
            return "".join(r.choice(ALPH) for _ in range(r.randint(1, 9)))
        cmds, evs = [], []
        have = []
        bad = ["none", "none", "dup", "comma", "none", "none", "dupcoll", "none"][j % 8]
        n = r.choice([0, 1, 3, 8, 20, 60, 150 if j % 4 == 0 else 20])
        names = set()
        todo = []
        while len(todo) < n:
            p = (name(), name())
            if p not in names:
                names.add(p)
                todo.append(p)
        if bad == "dupcoll":
            todo += [p for p in [("t", "Aa"), ("t", "BB")] if p not in names]
        at = len(todo) if bad == "dupcoll" else r.randint(0, len(todo)) if bad != "none" else None
        seq = []
        for k, p in enumerate(todo + [None]):
            if k == at:
                if bad == "comma":
                    x = r.choice(["a,b", ",", "a,", ",b"])
                    seq.append((x, name()) if r.random() < 0.5 else (name(), x))
                elif bad == "dupcoll":
                    seq.append(("t", r.choice(["Aa", "BB"])))
                elif k > 0:
                    seq.append(r.choice(todo[:k]))
            if p:
                seq.append(p)
        if r.random() < 0.3:
            cmds.append("I")
            evs.append(dict(o="count"))
            cmds.append("n")
        for (t, v) in seq:
            c = r.choice("parPAR")
            x, th = value(r), value(r)
            cmds.append("\t".join([c, esc(t), esc(v), "%016x" % struct.unpack("<Q", struct.pack("<d", x))[0], "%016x" % struct.unpack("<Q", struct.pack("<d", th))[0]]))
            evs.append(dict(o="probe", p=dict(test=list(t), var=list(v), val=vtext(x), thr=vtext(th if c not in "pP" else 0.0), mode={"p": "none", "a": "absolute", "r": "relative"}[c.lower()])))
            if r.random() < 0.15:
                cmds.append("n")
                evs.append(dict(o="count"))
        path = r.choice(["file"] * 6 + ["unset", "bad"])
        out = os.path.join(d, "out.csv")
        prev = r.choice([None, "", "old content\n" * 500])
        if prev is not None:
            open(out, "w").write(prev)
        cmds.append("d")
        env = base_env()
        env.pop("VFC_PROBES_OUTPUT", None)
        if path == "file":
            env["VFC_PROBES_OUTPUT"] = out
        elif path == "bad":
            env["VFC_PROBES_OUTPUT"] = os.path.join(d, "no", "such", "dir", "f.csv")
        p = sh([exe], env=env, inp="\n".join(cmds) + "\n", cwd=d, timeout=60)
        res = [int(l.split()[1]) for l in p.stdout.split("\n") if l.startswith("RES ")]
        now = open(out, errors="surrogateescape").read() if os.path.exists(out) else None
        unt = now == prev
        info = dict(cmds=cmds, path=path, rc=p.returncode, err=p.stderr[-300:], file=(now or "")[:2000])
        if p.returncode < 0:
            return None, dict(info, what="the program is killed by signal %d" % -p.returncode)
        evs = [e for e in evs]
        if cmds[0] == "I":
            res = res[1:]
        tr = [dict(o="new")]
        for k, e in enumerate(evs):
            if k < len(res):
                if e["o"] == "probe":
                    e["ok"] = res[k] == 0
                else:
                    e["n"] = res[k] & 0xffffffff
                tr.append(e)
            else:
                if e["o"] == "probe":
                    e["ok"] = False
                else:
                    e["n"] = 1000000
                tr.append(e)
                break
        if len(res) < len(evs):
            if p.returncode == 0:
                return None, dict(info, what="the program stops without a failing status")
            tr.append(dict(o="stopped", untouched=unt))
        else:
            ok = p.returncode == 0 and len(res) == len(evs) + 1 and res[-1] == 0
            ls = (now or "").split("\n")
            header = bool(ls) and ls[0] == HEAD and (now or "").endswith("\n")
            lines = []
            if path == "file":
                for l in ls[1:-1]:
                    f = l.split(",")
                    try:
                        lines.append(dict(test=list(f[0]), var=list(f[1]), val=vtext(float.fromhex(f[2])), thr=vtext(float.fromhex(f[3])), mode=",".join(f[4:])))
                    except (IndexError, ValueError, OverflowError):
                        lines.append(dict(test=list(l), var=[], val="?", thr="?", mode="?"))
            tr.append(dict(o="dump", path=path, header=header, lines=lines, untouched=unt, ok=ok))
        shutil.rmtree(d, ignore_errors=True)
        return tr, info
    trs, infos = [], []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for t, i in ex.map(one, range(N)):
            if t is None:
                ctx.violation(i["what"], i)
            else:
                trs.append(t)
                infos.append(i)
    ctx.cov_note["sessions"] = len(trs)
    ctx.cov_note["probes"] = sum(sum(1 for e in t if e["o"] == "probe") for t in trs)
    ctx.sample(trs[2][:6])
    own, groups = [[] for _ in range(NCPU)], [[] for _ in range(NCPU)]
    for k, t in enumerate(trs):
        groups[k % NCPU] += t
        own[k % NCPU] += [k] * len(t)
    def desc(i, t, k):
        e = t[k]
        inf = infos[own[i][min(k, len(own[i]) - 1)]]
        if e["o"] == "probe":
            s = "probe (%s, %s) %s" % ("".join(e["p"]["test"]), "".join(e["p"]["var"]), "accepted" if e["ok"] else "refused")
        elif e["o"] == "dump":
            s = "dump to path '%s' (status ok: %s, %d lines)" % (e["path"], e["ok"], len(e["lines"]))
        else:
            s = json.dumps(e)
        return "wrong: " + s[:300], dict(event=e, session=inf)
    validate(ctx, "ProbesTrace", groups, desc, heap="3g")
    ctx.finish(assumptions=["names hold no line breaks", "NaN payloads are not compared"])
