"""Delta-debug filters."""
import random
from vlib import *
from rec import *

SYM = {"add": "+", "sub": "-", "mul": "*", "div": "/"}
CT = {"f": "float", "d": "double"}


class DProg:
    """sites 1..n; site s is one operation on one source line, run by the program when its number is an argument"""
    def __init__(self, r, n, nfiles):
        self.r = r
        self.sites = {}
        self.lines = {}
        self.src = {}
        files = {"d%d.c" % k: ["#include <stdlib.h>", "void out_f(float); void out_d(double); void out_i(int);"] for k in range(nfiles)}
        for s in range(1, n + 1):
            t = r.choice("fd")
            T = CT[t]
            op = r.choice(["add", "sub", "mul", "div"] * 3 + ["fma", "fma"])
            lanes = r.choice([1, 1, 1, 1, 2, 4, 8, 16]) if op != "fma" else 1
            k = 3 if op == "fma" else 2
            vals = [[self.val(t) for _ in range(k)] for _ in range(lanes)]
            self.sites[s] = dict(t=t, op=op, lanes=lanes, vals=vals)
            f = r.choice(list(files))
            L = files[f]
            for j in range(k):
                L.append("static volatile %s i%d_%d[] = {%s};" % (T, s, j, ", ".join(v[j].hex() + ("f" if t == "f" else "") for v in vals)))
            L.append("static volatile %s r%d[%d];" % (T, s, lanes))
            if lanes > 1:
                L.append("typedef %s V%d __attribute__((ext_vector_type(%d)));" % (T, s, lanes))
            L.append("void s%d(void) {" % s)
            V = T if lanes == 1 else "V%d" % s
            for j in range(k):
                n_ = "abc"[j]
                L.append("  %s %s;" % (V, n_) + (" %s = i%d_%d[0];" % (n_, s, j) if lanes == 1 else " for (int i = 0; i < %d; i++) %s[i] = i%d_%d[i];" % (lanes, n_, s, j)))
            L.append("  %s x;" % V)
            e = "__builtin_fma%s(a, b, c)" % ("f" if t == "f" else "") if op == "fma" else "a %s b" % SYM[op]
            L.append("  x = %s;" % e)
            self.lines[(f, len(L))] = s
            L.append("  r%d[0] = x;" % s if lanes == 1 else "  for (int i = 0; i < %d; i++) r%d[i] = x[i];" % (lanes, s))
            L.append("  for (int i = 0; i < %d; i++) out_%s(r%d[i]);" % (lanes, t, s))
            L.append("}")
        f0 = files["d0.c"]
        f0 += ["void s%d(void);" % s for s in self.sites]
        f0.append("int main(int n, char **v) { for (int k = 1; k < n; k++) { int s = atoi(v[k]); out_i(s); switch (s) { %s } } return 0; }" % " ".join("case %d: s%d(); break;" % (s, s) for s in self.sites))
        self.src = {f: "\n".join(l) + "\n" for f, l in files.items()}

    def val(self, t):
        import struct
        x = self.r.choice([-1, 1]) * self.r.uniform(1, 2) * 2.0 ** self.r.randint(-6, 6)
        return struct.unpack("<f", struct.pack("<f", x))[0] if t == "f" else x

    def rec(self, x, t):
        import struct
        return fpval(struct.unpack("<I", struct.pack("<f", x))[0] if t == "f" else struct.unpack("<Q", struct.pack("<d", x))[0], t)


def check(ctx):
    model_check(ctx, "DdebugMC", "SPECIFICATION Spec\nINVARIANTS Partition GenRight Both\nCHECK_DEADLOCK FALSE\nCONSTANTS Sites = {%s}\n" % ("1,2,3,4" if ctx.thorough else "1,2,3"))
    ctx.log("model checked")
    so = recorder(ctx)
    outs_o = ctx.path("outs.o")
    sh([CLANG, "-O1", "-c", VERIF + "/harness/outs.c", "-o", outs_o], check=True)
    NP, NR = (64, 40) if ctx.thorough else (16, 16)
    seeds = [ctx.rng.getrandbits(40) for _ in range(NP)]

    def one(j):
        r = random.Random(seeds[j])
        d = ctx.path("c%d" % j, "x")[:-2]
        pr = DProg(r, r.choice([3, 8, 20, 45, 70]), r.choice([1, 2]))
        for f, s in pr.src.items():
            open(os.path.join(d, f), "w").write(s)
        exe = os.path.join(d, "prog")
        opt = r.choice(["-O0", "-O0", "-O1", "-O2"])
        p = sh(["verificarlo-c", "--ddebug", "--inst-fma", opt] + list(pr.src) + [outs_o, "-lm", "-o", exe], cwd=d, timeout=120)
        if p.returncode:
            return None, [dict(what="compilation fails", err=p.stderr[-500:])]
        evs, infos = [], []

        def run(sites, inc, exc, gen, prev=None):
            """inc, exc: None or dict(text, ok, sites)"""
            log = os.path.join(d, "log")
            if os.path.exists(log):
                os.unlink(log)
            env = base_env(REC_LOG=log, VFC_BACKENDS="%s --id=r --tag=%d" % (so, r.choice([1, 2, 3])), VFC_BACKENDS_LOGGER="False")
            for k, l in (("INCLUDE", inc), ("EXCLUDE", exc)):
                if l is not None:
                    fn = os.path.join(d, k.lower())
                    open(fn, "w").write(l["text"])
                    env["VFC_DDEBUG_" + k] = fn
            g = os.path.join(d, "gen.txt")
            if gen:
                if os.path.exists(g):
                    os.unlink(g)
                if prev is not None:
                    open(g, "w").write(prev)
                env["VFC_DDEBUG_GEN"] = g
            q = sh([exe] + [str(s) for s in sites], env=env, cwd=d, timeout=120)
            L = lambda l: dict(given=l is not None, ok=l["ok"] if l else True, sites=sorted(l["sites"]) if l else [])
            rl = read_log(log)
            started = any(w[0] == "out" for t, who, w in rl) or (q.returncode == 0)
            info = dict(opt=opt, sites=sites, inc=inc, exc=exc, gen=gen, rc=q.returncode, err=q.stderr[-300:], program=pr.src, prev=prev)
            es = [dict(o="start", inc=L(inc), exc=L(exc), gen=gen, ok=started)]
            if started and q.returncode != 0:
                return es, dict(info, what="the program fails"), None
            gl = []
            if started:
                cur = None
                for t, who, w in rl:
                    if who == "P" and w[1] == "i":
                        cur = int(w[2])
                        x = pr.sites[cur]
                        es.append(dict(o="exec", site=cur, op=x["op"], t=x["t"], lanes=[[pr.rec(v, x["t"]) for v in l] for l in x["vals"]], calls=[], res=[]))
                    elif who == "P":
                        es[-1]["res"].append(fpval(w[2], w[1]))
                    elif w[0] == "op":
                        if cur is None:
                            return es, dict(info, what="an operation outside every site: %s" % w), None
                        es[-1]["calls"].append(dict(op=w[1], a=[fpval(z, w[2]) for z in w[3:-1]], r=fpval(w[-1], w[2])))
                if gen:
                    for l in open(g, errors="replace").read().split("\n"):
                        if not l:
                            continue
                        m = re.match(r"(0x[0-9a-f]+): (\S+) at (\S+):(\d+)$", l)
                        s = pr.lines.get((os.path.basename(m.group(3)), int(m.group(4))), 0) if m else 0
                        gl.append((l, m.group(1) if m else "", s))
                    info["file"] = [x[0] for x in gl][:80]
                es.append(dict(o="end", file=[x[2] for x in gl]))
            return es, info, gl
        n = len(pr.sites)
        order = list(pr.sites)
        r.shuffle(order)
        es, info, gl = run(order, None, None, True)
        evs.append(es)
        infos.append(info)
        if gl is None or sorted(x[2] for x in gl) != sorted(order):
            return evs, infos  # the specification rejects the generated list
        addr = {s: (a, l) for l, a, s in gl}

        def mklist(S, bad):
            ls = []
            for s in S:
                a, l = addr[s]
                ls.append(r.choice([l, l, a, a + " ", "0x" + a[2:].upper(), a + ":", "0x0000" + a[2:] + ": x at y:1"]))
                if r.random() < 0.1:
                    ls.append(l)
            if r.random() < 0.3:
                ls.append("0x%x: other at z.c:1" % r.choice([1, 0x10, 0x7fffffffffff, int(addr[r.choice(list(addr))][0], 16) + r.choice([-1, 1, 5, -5, 4, 8])]))
            if bad:
                ls.insert(r.randint(0, len(ls)), r.choice(["hello there", "# comment", "main at d0.c:12", "", "??:0", ": 0x401136"]))
            r.shuffle(ls) if not bad else None
            return dict(text="".join(l + "\n" for l in ls)[:None if r.random() < 0.8 or bad else -1], ok=not bad, sites=list(S))
        sub = lambda: r.sample(order, r.choice([0, 1, n // 2, n, r.randint(0, n)]))
        for k in range(NR):
            ex = [r.choice(order) for _ in range(r.choice([0, 1, n, 2 * n]))] if k % 3 else r.sample(order, n)
            mode = ["inc", "exc", "both", "gen", "genexc", "inc", "exc", "both", "none", "badinc", "badexc", "incgen", "gen", "genexc", "inc", "both"][k % 16]
            inc = mklist(sub(), mode == "badinc") if mode in ("inc", "both", "badinc", "incgen") else None
            exc = mklist(sub(), mode == "badexc") if mode in ("exc", "both", "genexc", "badexc") else None
            gen = mode in ("gen", "genexc", "incgen")
            prev = r.choice([None, "", "junk\n" * 200, "".join(l + "\n" for l, a, s in gl), "x" * 10000]) if gen else None
            es, info, _ = run(ex, inc, exc, gen, prev)
            info["mode"] = mode
            evs.append(es)
            infos.append(info)
        # split the list in two parts, each used both ways: the same split seen from both sides
        part = set(sub())
        for S, as_inc in ((part, True), (set(order) - part, True), (part, False), (set(order) - part, False)):
            l = mklist(sorted(S), False)
            es, info, _ = run(order, l if as_inc else None, None if as_inc else l, False)
            evs.append(es)
            infos.append(info)
        shutil.rmtree(d, ignore_errors=True)
        return evs, infos
    trs, infos = [], []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for es, inf in ex.map(one, range(NP)):
            if es is None:
                ctx.violation("%s" % inf[0]["what"], inf[0])
                continue
            for e, i in zip(es, inf):
                if "what" in i:
                    ctx.violation("%s: %s" % (i["what"], str({k: v for k, v in i.items() if k not in ("program",)})[:500]), i)
                else:
                    trs.append(e)
                    infos.append(i)
    ctx.log("recorded")
    ctx.cov_note["runs"] = len(trs)
    ctx.cov_note["site_executions"] = sum(len(t) for t in trs)
    ctx.sample({k: v for k, v in infos[3].items() if k != "program"})
    owner = [[] for _ in range(NCPU)]
    traces = [[] for _ in range(NCPU)]
    for k, t in enumerate(trs):
        traces[k % NCPU] += t
        owner[k % NCPU] += [k] * len(t)
    validate(ctx, "DdebugTrace", traces, lambda i, t, k: (lambda inf: ("delta-debug run is no behaviour of the model at %s: %s" % (
        json.dumps(t[k])[:200], json.dumps({q: v for q, v in inf.items() if q not in ("program",)})[:500]), dict(inf, event=t[k])))(infos[owner[i][min(k, len(owner[i]) - 1)]]))
    ctx.finish(assumptions=["sites whose operation is not in tail position and is not merged by the optimiser with another one", "single-threaded programs in generation mode"])
