"""The compiler driver: commands (alone and side by side) have the effects specified, whatever the names."""
import random
from vlib import *
from rec import *

ODD = ["my dir", "it's", "a(b)", "$HOME", "semi;x", "x&y", 'q"t', "b`t`k", "two  sp", "#h", "st*r", "d|e", "t~", "br{a,b}", "w[0]", "ex!m", "lt<gt>", "bs\\n", "pc%d", "eq=1", "com,ma", "v1.2", "plain", "sub", "caf\u00e9", "+x", "at@", "^c", "q?"]
CEXT = [".c", ".c", ".c", ".cpp", ".cc", ".cxx", ".cp", ".c++", ".C"]
CHARS = list("abcXYZ019 ._-+*/=<>()[]{}|&;:,!?~^%#@$'`\"\\") + ["$HOME", "$(echo x)", "${PATH}", "\\n", "'\"'", "  ", "''", ".c", "-o", "%s"]
MAIN = 9
LIBU = 8


def csource(u, need, bad):
    main = u == MAIN
    body = ["#include <stdio.h>", "#if !defined(TXT) && __has_include(\"txt.h\")", "#include \"txt.h\"", "#endif", "#ifndef TXT", "#define TXT \"-\"", "#endif",
            "#ifdef __cplusplus", "extern \"C\" {", "#endif", "static const char *volatile mark_%d = TXT;" % u]
    body += ["void u%d(void)%s;" % (k, " __attribute__((weak))" if k != u and not (need and k == LIBU) else "") for k in range(6)] + ["void u%d(void);" % LIBU]
    ops = ["volatile double k = %d, x = 3, y = 0.5, z; volatile float f; volatile int c;" % (100 + u), "z = k + x; c = k < x; z = __builtin_fma(k, x, y); f = (float)k;",
           "(void)z; (void)f; (void)c; printf(\"U\\t%d\\t%%s\\n\", mark_%d);" % (u, u)]
    if need:
        ops.append("u%d();" % LIBU)
    if main:
        ops += ["if (u%d) u%d();" % (k, k) for k in range(6)]
        body.append("int main(void) { %s return 0; }" % " ".join(ops))
    else:
        body.append("void u%d(void) { %s }" % (u, " ".join(ops)))
    body += ["#ifdef __cplusplus", "}", "#endif"]
    if bad:
        body.insert(-3, "int syntax error here;")
    return "\n".join(body) + "\n"


def clit(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


class Sc:
    def __init__(self, ctx, seed, so, j):
        self.r = r = random.Random(seed)
        self.so = so
        self.top = ctx.path("s%d" % j, "x")[:-2]
        self.cwd = os.path.join(self.top, r.choice(ODD))
        os.makedirs(self.cwd, exist_ok=True)
        self.tr, self.cmds, self.known = [], 0, set()
        self.env = base_env(VFC_BACKENDS_LOGGER="False")
        self.kinds = [k for k in ("fcmp", "fma", "cast") if r.random() < 0.4]
        self.objs = []

    def text(self):
        r = self.r
        s = "".join(r.choice(CHARS) for _ in range(r.choice([1, 3, 6, 12])))
        return s.replace("??", "?") + r.choice(["", "", "z"])

    def odd(self, used):
        r = self.r
        while True:
            n = r.choice(ODD) + r.choice(["", "", "1", " 2", "'"])
            if n.lower() not in used:
                used.add(n.lower())
                return n

    def put(self, name, data, mode="w"):
        p = os.path.join(self.cwd, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, mode) as fh:
            fh.write(data)
        self.known.add(name)

    def add_source(self, u, need=False, bad=False, ext=None, b=None):
        r = self.r
        rb = b or self.odd(self.stems)
        d = r.choice(self.dirs)
        f = dict(b=(d + "/" if d else "") + rb, rb=rb, e=ext or r.choice(CEXT + [".ll", ".bc", ".s"]), u=u)
        lang = {".ll": "ll", ".bc": "ll", ".s": "s"}.get(f["e"], "c")
        x = dict(t="src", lang=lang, bad=bad, u=u, main=u == MAIN, need=need, text="-")
        code = csource(u, need, bad)
        if lang == "c":
            self.put(f["b"] + f["e"], code)
        else:
            x["text"], x["bad"] = self.text(), False
            t = os.path.join(self.top, "t.c")
            open(t, "w").write(csource(u, need, False))
            sh([CLANG, "-fPIC", r.choice(["-O1", "-O2"]), "-DTXT=" + clit(x["text"])] + {".ll": ["-S", "-emit-llvm"], ".bc": ["-c", "-emit-llvm"], ".s": ["-S"]}[f["e"]] + [t, "-o", t + "o"], check=True)
            self.put(f["b"] + f["e"], open(t + "o", "rb").read(), "wb")
        self.tr.append(dict(o="file", n=f["b"] + f["e"], x=x))
        self.srcs.append(f)
        return f

    def deco(self, n):
        return self.r.choice([n, n, "./" + n, os.path.join(self.cwd, n)])

    def command(self, mode, src, objs=(), out=None, lib=False, badsel=False, dash=False):
        r = self.r
        c = dict(mode=mode, src=[dict(b=f["b"], rb=f["rb"], e=f["e"]) for f in src], objs=list(objs), o=out or "", text="-", lib=self.lib if lib else "", dir=True, fun=False, lists=False,
                 readable=True, kinds=self.kinds, save=r.random() < 0.12, sel=dict(how="all", us=[]))
        if out and "/" in out and not os.path.isdir(os.path.join(self.cwd, os.path.dirname(out))):
            c["dir"] = False
        pre = [r.choice(["verificarlo-c", "verificarlo-c++", "verificarlo --linker=clang", "verificarlo --linker clang++", "verificarlo"])][0].split()
        opts = ["-O" + r.choice("0123")] + ["--inst-" + k for k in self.kinds]
        for o in ("-g", "-w", "-Wall", "--verbose", "--show-cmd", "-fno-math-errno", "-DUNUSED=some.c", "-DOTHER='x y'", "-I.", "-L.", "-Wl,-O1"):
            if r.random() < 0.12 and not (o == "-g" and mode == "S"):  # clang cannot assemble its own ./x.s with debug information
                opts.append(o)
        if c["save"]:
            opts.append("--save-temps")
        k = r.random()
        if k < 0.6:
            c["text"] = self.text()
            opts += r.choice([["-DTXT=" + clit(c["text"])], ["-D", "TXT=" + clit(c["text"])]])
        elif k < 0.8:
            c["text"] = self.htext
            opts += r.choice([["-I" + self.inc], ["-I", self.inc], ["-isystem", self.inc]])
        k = r.random()
        us = r.sample(list(range(6)) + [MAIN], r.choice([1, 2, 3]))
        fn = {u: "main" if u == MAIN else "u%d" % u for u in range(10)}
        lf = os.path.join(self.top, r.choice(ODD) + "%d.txt" % self.cmds)
        if badsel:
            q = r.choice(["both", "missing"])
            open(lf, "w").write("")
            if q == "both":
                c["fun"] = c["lists"] = True
                opts += ["--function", "u1", r.choice(["--include-file", "--exclude-file"]), lf]
            else:
                c["readable"], c["lists"] = False, True
                opts += [r.choice(["--include-file", "--exclude-file"]), lf + ".none"]
        elif k < 0.15:
            c["fun"], c["sel"] = True, dict(how="only", us=us[:1])
            opts += r.choice([["--function", fn[us[0]]], ["--function=" + fn[us[0]]]])
        elif k < 0.5:
            inc = k < 0.3
            c["lists"], c["sel"] = True, dict(how="only" if inc else "not", us=us)
            open(lf, "w").write("".join("* %s\n" % fn[u] for u in us))
            n = "--include-file" if inc else "--exclude-file"
            opts += r.choice([[n, lf], [n + "=" + lf]])
        if mode != "link":
            opts.append("-" + mode)
        if out:
            opts += ["-o" + self.deco(out)] if dash else ["-o", self.deco(out)]
        words = [self.deco(f["b"] + f["e"]) for f in src] + [self.deco(n) for n in objs]
        # keep option/value pairs together
        pairs, q = [], 0
        while q < len(opts):
            n = 2 if opts[q] in ("-D", "-I", "-isystem", "-o", "--function", "--include-file", "--exclude-file") else 1
            pairs.append(opts[q:q + n])
            q += n
        mix = pairs + [[w] for w in words]
        r.shuffle(mix)
        argv = pre + [w for p in mix for w in p]
        if mode == "link":
            argv += ["-lm"]
        if lib:
            argv += r.choice([["-L" + os.path.dirname(self.lib), "-lzz"], ["-L", os.path.dirname(self.lib), "-lzz"], [self.deco(self.lib)]])
        self.cmds += 1
        c["id"] = "c%d" % self.cmds
        c["argv"] = argv
        return c

    def batch(self, cs):
        ps = []
        for c in cs:
            self.tr.append(dict(o="start", id=c["id"], c={k: v for k, v in c.items() if k not in ("argv", "id")}, argv=c["argv"]))
        for c in cs:
            of = open(os.path.join(self.top, "out_" + c["id"]), "w+")
            ef = open(os.path.join(self.top, "err_" + c["id"]), "w+")
            ps.append((c, subprocess.Popen(c["argv"], cwd=self.cwd, env=self.env, stdin=subprocess.DEVNULL, stdout=of, stderr=ef), of, ef))
        okexe = []
        for c, p, of, ef in ps:
            rc = p.wait(timeout=300)
            of.seek(0), ef.seek(0)
            out, err = of.read(), ef.read()
            of.close(), ef.close()
            shown = []
            if rc == 0 and c["mode"] == "E":
                t = open(os.path.join(self.cwd, c["o"]), errors="replace").read() if c["o"] and os.path.exists(os.path.join(self.cwd, c["o"])) else out
                for m in re.finditer(r"mark_(\d) = (\"(?:[^\"\\]|\\.)*\");", t):
                    shown.append(dict(u=int(m.group(1)), text=re.sub(r"\\(.)", r"\1", m.group(2)[1:-1])))
            self.tr.append(dict(o="end", id=c["id"], ok=rc == 0, shown=shown, argv=c["argv"], err=err[-600:]))
            outs = [c["o"]] if c["o"] else ["a.out"] if c["mode"] == "link" else []
            outs += [f["b"] + ".o" for f in c["src"]] if c["mode"] == "link" or (c["mode"] == "c" and not c["o"]) else [f["rb"] + ".s" for f in c["src"]] if c["mode"] == "S" and not c["o"] else []
            self.known |= set(outs)
            if rc == 0 and c["mode"] == "link":
                okexe.append(c["o"] or "a.out")
            if rc == 0 and c["mode"] == "c":
                for f, s in zip(c["src"], c["srcs"]):
                    self.objs.append(dict(n=c["o"] or f["b"] + ".o", u=s["u"]))
        names, extra = [], []
        for dp, dn, fn in os.walk(self.cwd):
            for f in fn:
                n = os.path.relpath(os.path.join(dp, f), self.cwd)
                (names if n in self.known else extra).append(n)
        may = any(c["save"] for c in cs)
        self.tr.append(dict(o="ls", names=names, extra=len(extra), may=may, what=extra[:6], argv=[c["argv"] for c in cs]))
        for n in extra:
            os.remove(os.path.join(self.cwd, n))
        for e in okexe:
            self.run(e)

    def run(self, exe):
        log = os.path.join(self.top, "log")
        if os.path.exists(log):
            os.remove(log)
        try:
            p = sh([os.path.join(self.cwd, exe)], env=dict(self.env, REC_LOG=log, VFC_BACKENDS=self.so + " --id=r"), timeout=60)
        except OSError as e:
            self.tr.append(dict(o="run", n=exe, us=[dict(u=-1, text=str(e), inst=[])]))
            return
        us = {}
        for l in p.stdout.split("\n"):
            if l.startswith("U\t"):
                _, u, t = l.split("\t", 2)
                us.setdefault(int(u), []).append(t)
        ops = {}
        for th, who, w in read_log(log):
            if w and w[0] == "op":
                t = w[2]
                v = fpval(w[3], "d" if w[1] == "cast" else t)
                u = (unlimbs(v["m"]) << v["e"]) - 100 if v["e"] >= 0 else -1
                ops.setdefault(u, []).append({"add": "add", "fma": "fma", "cast": "cast"}.get(w[1], "fcmp" if w[1].startswith("cmp") else w[1]))
        ev = []
        for u in sorted(set(us) | set(ops)):
            k = ops.get(u, [])
            inst = sorted(set(k)) + ["twice " + x for x in sorted(set(k)) if k.count(x) > 1]
            ev.append(dict(u=u, text="|".join(us.get(u, ["(not run)"])), inst=inst))
        if p.returncode:
            ev.append(dict(u=-1, text="exit status %d: %s" % (p.returncode, p.stderr[-200:]), inst=[]))
        self.tr.append(dict(o="run", n=exe, us=ev))

    def play(self, kind):
        r = self.r
        self.stems, self.srcs = set(), []
        self.dirs = ["", "", r.choice(ODD), r.choice(ODD) + "/" + r.choice(ODD)]
        self.stems |= {q.lower() for d in self.dirs for q in d.split("/")}  # outputs are not named like directories
        self.inc = os.path.join(self.top, "inc " + r.choice(ODD))
        os.makedirs(self.inc, exist_ok=True)
        self.htext = self.text()
        open(os.path.join(self.inc, "txt.h"), "w").write("#define TXT %s\n" % clit(self.htext))
        # a library with one unit, not instrumented
        ld = r.choice(ODD) + " lib"
        self.lib = ld + "/libzz.a"
        t = os.path.join(self.top, "zz.c")
        ltext = self.text()
        open(t, "w").write(csource(LIBU, False, False))
        sh([CLANG, "-c", "-fPIC", "-O1", "-DTXT=" + clit(ltext), t, "-o", t + ".o"], check=True)
        os.makedirs(os.path.join(self.cwd, ld))
        sh(["ar", "rc", os.path.join(self.cwd, self.lib), t + ".o"], check=True)
        self.known.add(self.lib)
        self.tr.append(dict(o="lib", n=self.lib, units=[dict(u=LIBU, main=False, need=False, text=ltext, inst=[])]))
        need = r.random() < 0.3
        m = self.add_source(MAIN, ext=r.choice(CEXT))
        un = [self.add_source(k, need=need and k == 0) for k in range(r.choice([1, 2, 3, 4]))]
        if r.random() < 0.4 and len(un) > 1:  # the same file name in two directories
            u = len(un)
            f = dict(un[0])
            nd = "other " + r.choice(ODD)
            if not f["b"].startswith(nd):
                self.dirs = [nd]
                un.append(self.add_source(u, ext=un[0]["e"], b=f["rb"]))
        allsrc = [m] + un

        def C(mode, src, **k):
            c = self.command(mode, src, **k)
            c["srcs"] = src
            return c

        def wr(c):
            return set([c["o"] or "a.out"] if c["mode"] == "link" else []) | set([f["b"] + ".o" for f in c["src"]] if c["mode"] == "link" or not c["o"] else [c["o"]])
        newout = lambda e: r.choice(["", r.choice(ODD) + " out/"]) + self.odd(self.stems) + e
        lib = need
        if kind == "oneshot":
            out = r.choice([None, newout("")])
            if out and "/" in out:
                os.makedirs(os.path.join(self.cwd, os.path.dirname(out)), exist_ok=True)
            self.batch([C("link", allsrc, out=out, lib=lib, dash=r.random() < 0.3)])
            f = r.choice(un)  # build again with one unit as an object
            self.batch([C("link", [s for s in allsrc if s is not f], objs=[f["b"] + ".o"], out=out, lib=lib)])
        elif kind in ("parallel", "makej"):
            cs = []
            for s in allsrc:
                cs.append(C("c", [s], out=None if r.random() < 0.7 else self.odd(self.stems) + ".o", dash=r.random() < 0.3))
            if kind == "parallel" and len(cs) > 2:
                self.batch(cs[:2])
                self.batch(cs[2:])
            else:
                self.batch(cs)
            obs = [o["n"] for o in self.objs]
            self.batch([C("link", [], objs=obs, out=newout("").split("/")[-1], lib=lib)])
            if r.random() < 0.5:  # one unit again with another text, linked again
                s = r.choice(allsrc)
                self.objs = [o for o in self.objs if o["u"] != s["u"]]
                self.batch([C("c", [s])])
                self.batch([C("link", [], objs=[o["n"] for o in self.objs], lib=lib)])
        elif kind == "stages":
            cu = [s for s in un if s["e"] not in (".ll", ".bc", ".s")]
            if cu:
                self.batch([C("E", cu, out=None if len(cu) > 1 or r.random() < 0.5 else self.odd(self.stems) + ".i")])
                s = r.choice(cu)
                o = None if r.random() < 0.5 else self.odd(self.stems) + ".s"
                clash = s["rb"] + ".s" in self.known
                if not clash:
                    self.batch([C("S", [s], out=o)])
                    n = o or s["rb"] + ".s"
                    f = dict(b=n[:-2], rb=n[:-2], e=".s", u=s["u"])
                    if r.random() < 0.5:
                        self.batch([C("c", [x for x in allsrc if x is not s])])
                        obs = [x["n"] for x in self.objs]
                        self.batch([C("link", [f], objs=obs, lib=lib)])
                    else:
                        self.batch([C("link", [f] + [x for x in allsrc if x is not s], lib=lib, out=newout("").split("/")[-1])])
                else:
                    self.batch([C("link", allsrc, lib=lib)])
            else:
                self.batch([C("link", allsrc, lib=lib)])
        elif kind == "fail":
            q = r.choice(["bad", "missing", "nomain", "dup", "multi-o", "sel", "nolib", "nodir", "none", "badc", "missobj", "two"])
            good = C("link", allsrc, lib=lib)
            if r.random() < 0.5:
                self.batch([good])
            if q in ("bad", "badc"):
                b = self.add_source(5, bad=True, ext=r.choice(CEXT))
                l = allsrc + [b]
                r.shuffle(l)
                self.batch([C("link" if q == "bad" else "c", l, lib=lib and q == "bad")])
            elif q == "missing":
                f = dict(b=self.odd(self.stems), e=".c", u=5)
                f["rb"] = f["b"]
                l = allsrc + [f]
                r.shuffle(l)
                self.batch([C(r.choice(["link", "c", "E"]) if all(s["e"] in CEXT for s in l) else r.choice(["link", "c"]), l)])
            elif q == "nomain":
                self.batch([C("link", un, lib=lib)])
            elif q == "dup":
                d = self.add_source(0, ext=r.choice(CEXT), need=need)
                self.batch([C("link", allsrc + [d], lib=lib)])
            elif q == "two":
                d = self.add_source(MAIN, ext=r.choice(CEXT))
                self.batch([C("link", allsrc + [d], lib=lib)])
            elif q == "multi-o":
                self.batch([C("c", allsrc[:2], out=self.odd(self.stems) + ".o")])
            elif q == "sel":
                self.batch([C(r.choice(["link", "c"]), allsrc, badsel=True)])
            elif q == "nolib":
                d = self.add_source(4, need=True, ext=r.choice(CEXT))
                self.batch([C("link", allsrc + [d])])
            elif q == "nodir":
                self.batch([C("link", allsrc, out="nowhere/x", lib=lib)])
            elif q == "none":
                self.batch([C("c", [])])
            elif q == "missobj":
                self.batch([C("link", allsrc, objs=["gone.o"], lib=lib)])
            self.batch([C("link", allsrc, lib=lib, out=self.odd(self.stems))])
        return self.tr


KINDS = ["oneshot", "makej", "stages", "fail", "parallel", "fail", "makej", "oneshot", "fail", "stages"]


def check(ctx):
    cfg = "SPECIFICATION Spec\nINVARIANTS EffectOK StatusOK NoLeft\nCHECK_DEADLOCK FALSE\nCONSTANTS NCmd = %d Fault = \"%s\"\n"
    model_check(ctx, "DriverMC", cfg % (3 if ctx.thorough else 2, "none"))
    for f in ("fixed", "flat", "leak", "status"):
        model_check(ctx, "DriverMC", cfg % (2, f), expect_ok=False)
    ctx.log("model checked")
    so = recorder(ctx)
    N = 600 if ctx.thorough else 60
    seeds = [ctx.rng.getrandbits(40) for _ in range(N)]

    def one(j):
        s = Sc(ctx, seeds[j], so, j)
        t = s.play(KINDS[j % len(KINDS)])
        shutil.rmtree(s.top, ignore_errors=True)
        return t
    trs = pmap(one, range(N))
    ctx.cov_note["commands"] = sum(1 for t in trs for e in t if e["o"] == "start")
    ctx.cov_note["commands_refused"] = sum(1 for t in trs for e in t if e["o"] == "end" and not e["ok"])
    ctx.cov_note["executables_run"] = sum(1 for t in trs for e in t if e["o"] == "run")
    for t in trs[:3]:
        ctx.sample(str([e["argv"] for e in t if e["o"] == "start"][:1])[:400])
    ctx.log("recorded")

    def desc(i, t, k):
        e = t[k]
        last = [x for x in t[:k + 1] if x["o"] in ("start", "end")][-1:]
        a = (last[0].get("argv") if last else None)
        if e["o"] == "end":
            return "the command %s %s: %s" % (e["argv"], "succeeds and should not, or shows other text" if e["ok"] else "fails and should not", json.dumps(e["shown"])[:200] if e["ok"] else e["err"][-300:]), t[:k + 1]
        if e["o"] == "ls":
            return "files left by %s: %s, others %s" % (e["argv"], sorted(e["names"]), e["what"]), t[:k + 1]
        return "program %r built by %s has %s" % (e.get("n"), a, json.dumps(e.get("us", e))[:500]), t[:k + 1]
    validate(ctx, "DriverTrace", trs, desc)
    ctx.finish(assumptions=["object files are linked with the same --inst-* options they were compiled with", "two sources of one command do not differ in their extensions only",
                            "C, C++, assembly and LLVM IR sources (flang and PRISM are not built here)"])
