"""Sessions of instrumented calls for the function-instrumentation checks: hooks called directly, and whole programs."""
import os
from vlib import *
import gen

TY = {0: "f", 1: "d", 3: "pf", 4: "pd"}
RTY = {v: k for k, v in TY.items()}
MAXP, MAXR = dict(f=23, d=52), dict(f=8, d=11)
elt = lambda ty: ty[-1]
IMAX, IMIN = 2147483647, -2147483648


# -- profile files ------------------------------------------------------------------------------
def write_profile(path, recs):
    with open(path, "w") as f:
        for r in recs:
            f.write("%s\t%d\t%d\t%d\t%d\t%d\t%d\t%d\t%d\t%d\t%d\t%d\n" % (
                r["id"], r["lib"], r["intr"], r["uf"], r["ud"], r["ops"]["d"]["p"], r["ops"]["d"]["r"], r["ops"]["f"]["p"], r["ops"]["f"]["r"],
                len(r["ins"]), len(r["outs"]), r["n"]))
            for k, w in (("ins", "input:"), ("outs", "output:")):
                for a in r[k]:
                    f.write("%s\t%s\t%d\t%d\t%d\t%d\t%d\n" % (w, a["name"], RTY[a["ty"]], a["p"], a["r"], a["lo"], a["hi"]))


def read_profile(path):
    """Records in file order; None if the file does not have the documented structure."""
    recs = []
    try:
        for l in open(path, errors="replace").read().split("\n"):
            if not l:
                continue
            w = l.split("\t")
            if w[0] in ("input:", "output:"):
                a = dict(name=w[1], ty=TY[int(w[2])], p=int(w[3]), r=int(w[4]), lo=int(w[5]), hi=int(w[6]))
                recs[-1]["ins" if w[0] == "input:" else "outs"].append(a)
                if len(w) != 7:
                    return None
            else:
                v = [int(x) for x in w[1:]]
                if len(v) != 11:
                    return None
                recs.append(dict(id=w[0], lib=bool(v[0]), intr=bool(v[1]), uf=bool(v[2]), ud=bool(v[3]),
                                 ops=dict(d=dict(p=v[4], r=v[5]), f=dict(p=v[6], r=v[7])), ins=[], outs=[], n=v[10], nin=v[8], nout=v[9]))
        for r in recs:
            if r.pop("nin") != len(r["ins"]) or r.pop("nout") != len(r["outs"]):
                return None
    except (ValueError, IndexError, KeyError, OSError):
        return None
    return recs


def edit(rng, recs, mins=(1, 2)):
    """Random formats in a copy of a profile."""
    out = []
    for r in recs:
        r = json.loads(json.dumps(r))
        for t in "fd":
            if rng.random() < 0.8:
                r["ops"][t] = dict(p=rng.randint(mins[0], MAXP[t]), r=rng.randint(mins[1], MAXR[t]))
        for a in r["ins"] + r["outs"]:
            if rng.random() < 0.8:
                t = elt(a["ty"])
                a["p"], a["r"] = rng.randint(mins[0], MAXP[t]), rng.randint(mins[1], MAXR[t])
        out.append(r)
    return out


# -- direct sessions ----------------------------------------------------------------------------
def value(rng, t, a=None):
    k = rng.random()
    if a is not None and k < 0.5:
        return rng.choice(gen.boundary(rng, t, a["p"], a["r"], n=1))
    if k < 0.8:
        return gen.rnd_mid(rng, t, -4, 33)
    if k < 0.85:
        return mkfp(t, rng.getrandbits(1), (1 << FMT[t][1]) - 1, rng.choice([0, 1, 1 << (FMT[t][0] - 1)]))
    return gen.rnd_val(rng, t)


class Sites:
    def __init__(self, rng, n):
        self.rng, self.sites = rng, []
        for i in range(n):
            style = rng.random()
            base = "src/%s.c/f%d/%s/%d/%d" % (rng.choice(["a", "main"]), i % 3, rng.choice(["g", "Fdouble", "pow"]), 10 + i // 2, i)
            if style < 0.15:
                base = "p" * rng.choice([200, 260, 300, 400, 480]) + "/" + base
            elif style < 0.3:  # names that many string hashes confuse
                base = "m.c/" + rng.choice(["Aa", "BB"]) + rng.choice(["Aa", "BB"]) + "/f/%d/%d" % (i // 2, i)
            lib = rng.random() < 0.2
            intr = not lib and rng.random() < 0.15
            nin = rng.choice([0, 1, 1, 2, 2, 3, 5])
            ins = [dict(name=(rng.choice("xyz") + str(j)) * rng.choice([1, 1, 1, 30]), ty=rng.choice(["f", "d", "f", "d", "pf", "pd"])) for j in range(nin)]
            outs = ([dict(name="return_value", ty=rng.choice("fd"))] if rng.random() < 0.8 else []) + [a for a in ins if a["ty"][0] == "p"]
            tys = [elt(a["ty"]) for a in ins + outs]
            uf, ud = "f" in tys or rng.random() < 0.2, "d" in tys or rng.random() < 0.2
            self.sites.append(dict(s=dict(id=base, lib=lib, intr=intr, uf=uf, ud=ud), ins=ins, outs=outs, size={a["name"]: (rng.choice([1, 2, 5]) if a["ty"][0] == "p" else 1) for a in ins + outs}))

    def default_recs(self):
        return [dict(s["s"], ops={t: dict(p=MAXP[t], r=MAXR[t]) for t in "fd"},
                     ins=[dict(a, p=MAXP[elt(a["ty"])], r=MAXR[elt(a["ty"])], lo=IMAX, hi=IMIN) for a in s["ins"]],
                     outs=[dict(a, p=MAXP[elt(a["ty"])], r=MAXR[elt(a["ty"])], lo=IMAX, hi=IMIN) for a in s["outs"]], n=0)
                for s in self.sites if s["s"]["uf"] or s["s"]["ud"]]


def script(rng, sites, recs, length, maxdepth=6):
    """A balanced history: list of ('enter', site, values) / ('exit', site, values) / ('op',...) / ('setp'...)"""
    conf = {r["id"]: r for r in recs}
    out, stack = [], []
    fm = [dict(p=23, r=8), dict(p=52, r=11)]
    while len(out) < length or stack:
        k = rng.random()
        if (len(out) >= length and k < 0.5) or (stack and k < 0.25):
            s = stack.pop()
            r = conf.get(s["s"]["id"])
            out.append(("exit", s, [[value(rng, elt(a["ty"]), r["outs"][i] if r and r["outs"] else None) for _ in range(s["size"][a["name"]])] for i, a in enumerate(s["outs"])]))
        elif k < 0.5 and len(stack) < maxdepth and len(out) < length:
            s = rng.choice(sites.sites)
            if stack and rng.random() < 0.15:
                s = rng.choice(stack)  # recursion
            r = conf.get(s["s"]["id"])
            stack.append(s)
            out.append(("enter", s, [[value(rng, elt(a["ty"]), r["ins"][i] if r and r["ins"] else None) for _ in range(s["size"][a["name"]])] for i, a in enumerate(s["ins"])]))
        elif k < 0.53:
            t = rng.choice("fd")
            out.append(rng.choice([("setp", t, rng.randint(1, MAXP[t])), ("setr", t, rng.randint(2, MAXR[t]))]))
        else:
            t = rng.choice("fd")
            top = conf.get(stack[-1]["s"]["id"]) if stack else None
            q = top["ops"][t] if top else dict(p=rng.randint(1, MAXP[t]), r=MAXR[t])
            op = rng.choice(["add", "mul", "sub", "div"])
            u = rng.choice(gen.boundary(rng, t, q["p"], q["r"], n=1)) if rng.random() < 0.7 else gen.rnd_mid(rng, t, -20, 20)
            v = mkfp(t, rng.getrandbits(1), (1 << (FMT[t][1] - 1)) - 1, 0) if op in ("mul", "div") else mkfp(t, 0, 0, 0)
            if rng.random() < 0.4:
                v = gen.rnd_mid(rng, t, -5, 5)
            out.append(("op", op, t, [word(u, t), word(v, t)]))
    return out


def optstrings(opts):
    return " ".join("--" + o["o"] if o["o"] in ("daz", "ftz") else "--%s=%s" % (o["o"], o["s"] or o["v"]) for o in opts)


def ser(kind, s, vals):
    args = s["ins" if kind == "enter" else "outs"]
    f = s["s"]
    t = "%s %s %d %d %d %d %d" % (kind, f["id"], f["lib"], f["intr"], f["uf"], f["ud"], len(args))
    for a, v in zip(args, vals):
        t += " %d %s %d %s" % (RTY[a["ty"]], a["name"], len(v), " ".join(word(x, elt(a["ty"])) for x in v))
    return t


def session(ctx, exe, opts, imode, recs, scr, tag, dump=True):
    """Runs the script under VPREC; returns (trace, records of the profile written)."""
    fin, fout = ctx.path("prof_in_" + tag), ctx.path("prof_out_" + tag)
    be = "libinterflop_vprec.so " + optstrings(opts) + " --instrument=" + imode
    if recs:
        write_profile(fin, recs)
        be += " --prec-input-file=" + fin
    if os.path.exists(fout):
        os.unlink(fout)
    if dump:
        be += " --prec-output-file=" + fout
    cmds = []
    for x in scr:
        if x[0] in ("enter", "exit"):
            cmds.append(ser(*x))
        elif x[0] == "op":
            cmds.append("%s %s 1 %s" % (x[1], x[2], " ".join(x[3])))
        else:
            cmds.append("call %d i %d" % (CALL["SET_%s_BINARY%d" % ("PRECISION" if x[0] == "setp" else "RANGE", 32 if x[1] == "f" else 64)], x[2]))
    lines = drive(ctx, exe, be, cmds)
    desc = "[%s]" % be
    tr = [dict(o="start", opts=opts, imode=imode, recs=recs, raw=desc)]
    for x, c, l in zip(scr, cmds, lines):
        raw = "%s %s -> %s" % (desc, c, l)
        if x[0] == "op":
            tr.append(dict(ev_op(x[1], x[2], x[3], l), raw=raw))
        elif x[0] in ("setp", "setr"):
            tr.append(dict(o=x[0], t=x[1], v=x[2], raw=raw))
        else:
            w = l.split()[1:]
            args, seen = [], []
            for a, v in zip(x[1]["ins" if x[0] == "enter" else "outs"], x[2]):
                t = elt(a["ty"])
                args.append(dict(name=a["name"], ty=a["ty"], vals=[fpval(word(u, t), t) for u in v]))
                seen.append([fpval(h, t) for h in w[:len(v)]])
                w = w[len(v):]
            tr.append(dict(o=x[0], s=x[1]["s"], args=args, seen=seen, raw=raw))
    prof = None
    if dump:
        prof = read_profile(fout)
        if prof is None:
            tr.append(dict(o="dump", recs=[dict(id="unreadable profile")], raw="%s wrote no well-formed profile" % desc))
        else:
            tr.append(dict(o="dump", recs=prof, raw="%s wrote the profile" % desc))
    return tr, prof


# -- whole programs -----------------------------------------------------------------------------
IN, CALLK, OPK, RET, GOT, ABS, MAIN, MEND = 2, 1, 4, 5, 6, 7, 8, 9
CT = dict(d="double", f="float")
LIBF = [("pow", "d", "dd"), ("atan2", "d", "dd"), ("sin", "d", "d"), ("exp", "d", "d"), ("powf", "f", "ff"), ("sinf", "f", "f"), ("expf", "f", "f")]
OPC = ["add", "sub", "mul", "div"]
ARR = 3


def show(v, t):
    return "lv(*(unsigned%s *)&%s);" % (" long" if t == "d" else "", v)


class Prog:
    """A generated program: every call on its own line, everything observable logged by uninstrumented code."""

    def __init__(self, rng, k):
        self.rng, self.k = rng, k
        self.nf = rng.randint(2, 5)
        self.two = rng.random() < 0.4
        self.file = ["p%d_%d.c" % (k, (i % 2) if self.two else 0) for i in range(self.nf)]
        self.main_file = "p%d_0.c" % k
        self.funcs = []
        for i in range(self.nf):
            kind = rng.random()
            if kind < 0.15:
                ps, ret, body = [], "", False      # no floating point at all
            else:
                ps = [rng.choice(["d", "f", "d", "f", "pd", "pf"]) for _ in range(rng.choice([0, 1, 2, 2, 3]))]
                ret, body = rng.choice(["d", "f", "d", "f", ""]), True
            self.funcs.append(dict(name="f%d" % i, ps=ps, ret=ret, fp=body))
        self.sites = {}   # number -> (file, parent, callee, line, tracked arguments)
        self.src = {}
        for fn in sorted(set(self.file + [self.main_file])):
            self.cur, self.lines = fn, []
            self.emit("void lg(int, int); void lv(unsigned long); void lend(void); extern volatile double gd[64]; extern volatile float gf[64];")
            for n, r, a in LIBF:
                self.emit("%s %s(%s);" % (CT[r], n, ", ".join(CT[x] for x in a)))
            for f in self.funcs:
                self.emit(self.proto(f) + ";")
            for i, f in enumerate(self.funcs):
                if self.file[i] == fn:
                    self.function(i, f)
            if fn == self.main_file:
                self.main()
            self.src[fn] = "\n".join(self.lines) + "\n"

    def emit(self, s):
        self.lines.append(s)

    def proto(self, f):
        return "__attribute__((noinline)) %s %s(int n%s)" % (CT[f["ret"]] if f["ret"] else "int", f["name"],
                                                         "".join(", %s%s a%d" % (CT[p[-1]], " *" if p[0] == "p" else "", j) for j, p in enumerate(f["ps"])))

    def op(self):
        rng = self.rng
        t = rng.choice("fd")
        o = rng.randrange(4)
        v = [x for x in self.vars if x[1] == t]
        g = "gd" if t == "d" else "gf"
        a = rng.choice(v)[0] if v and rng.random() < 0.6 else "%s[%d]" % (g, rng.randrange(64))
        b = rng.choice(v)[0] if v and rng.random() < 0.3 else "%s[%d]" % (g, rng.randrange(64))
        r = "v%d" % self.nv
        self.nv += 1
        c = CT[t]
        self.emit("  %s %sx = %s, %sy = %s, %s = %sx %s %sy; lg(%d, %d); %s %s %s" % (
            c, r, a, r, b, r, r, "+-*/"[o], r, OPK, o + (4 if t == "d" else 0), show(r + "x", t), show(r + "y", t), show(r, t)))
        self.vars.append((r, t))

    def arg(self, t):
        """a scalar to pass"""
        v = [x for x in self.vars if x[1] == t]
        c = "c%d" % self.nv
        self.nv += 1
        src = self.rng.choice(v)[0] if v and self.rng.random() < 0.6 else "%s[%d]" % ("gd" if t == "d" else "gf", self.rng.randrange(64))
        self.emit("    %s %s = %s;" % (CT[t], c, src))
        return c

    def call(self, parent):
        rng = self.rng
        k = rng.random()
        site = len(self.sites)
        if parent["fp"] and k < 0.2:  # library function
            name, ret, ps = rng.choice(LIBF)
            ps = list(ps)
        elif parent["fp"] and k < 0.3:
            t = rng.choice("fd")
            self.emit("  {")
            c = self.arg(t)
            self.emit("    lg(%d, %d); %s" % (CALLK, site, show(c, t)))
            self.emit("    %s r = %s(%s);" % (CT[t], "__builtin_fabs" if t == "d" else "__builtin_fabsf", c))
            self.sites[site] = (self.cur, parent["name"], "llvm.fabs.f64" if t == "d" else "llvm.fabs.f32", len(self.lines), [("a0", t)], t)
            self.emit("    lg(%d, %d); %s" % (ABS, site, show("r", t)))
            self.emit("  }")
            return
        else:
            fs = [f for f in self.funcs if parent["fp"] or not (f["ps"] or f["ret"])]
            if not fs:
                return
            f = rng.choice(fs)
            name, ret, ps = f["name"], f["ret"], f["ps"]
        lib = name[0] != "f" or not name[1:].isdigit()
        self.emit("  {" if lib else "  if (n > 0) {")
        args, tracked, logs, after = [], [], [], []
        for j, p in enumerate(ps):
            if p[0] == "p":
                mine = [x for x in self.ptrs if x[1] == p]
                t = p[-1]
                if mine and rng.random() < 0.4:
                    c = rng.choice(mine)[0]      # handed on: nothing is known about it
                    args.append(c)
                else:
                    c = "w%d" % self.nv
                    self.nv += 1
                    extra = rng.choice([0, 0, 1, 2])
                    self.emit("    %s %s[%d];" % (CT[t], c, ARR + extra))
                    for e in range(ARR + extra):
                        self.emit("    %s[%d] = %s[%d];" % (c, e, "gd" if t == "d" else "gf", rng.randrange(64)))
                    self.emit("    __asm__ volatile(\"\" : : \"r\"(%s) : \"memory\");" % c)   # reachable from elsewhere: calls may change it
                    args.append(c + (" + %d" % extra if extra else ""))
                    tracked.append(("a%d" % j, p))
                    for e in range(ARR):
                        logs.append(show("%s[%d]" % (c, extra + e), t))
                        after.append(show("%s[%d]" % (c, extra + e), t))
            else:
                c = self.arg(p)
                args.append(c)
                tracked.append(("a%d" % j, p))
                logs.append(show(c, p))
        self.emit("    lg(%d, %d); %s" % (CALLK, site, " ".join(logs)))
        r = "g%d" % self.nv
        self.nv += 1
        self.emit("    %s %s = %s(%s);" % (CT[ret] if ret else "int", r, name, ", ".join(([] if lib else ["n - 1"]) + args)))
        self.sites[site] = (self.cur, parent["name"], name, len(self.lines), tracked, ret)
        self.emit("    __asm__ volatile(\"\" : : : \"memory\");")
        self.emit("    lg(%d, %d); %s" % (GOT, site, " ".join(([show(r, ret)] if ret else []) + after)))
        if ret and rng.random() < 0.5:
            self.emit("    %s = %s;" % (self.acc[ret], r))
        self.emit("  }")

    def body(self, parent):
        self.acc = {}
        if parent["fp"]:
            for t in "fd":
                self.acc[t] = "acc" + t
                self.emit("  %s acc%s = %s[%d];" % (CT[t], t, "gd" if t == "d" else "gf", self.rng.randrange(64)))
                self.vars.append(("acc" + t, t))
        for _ in range(self.rng.randint(2, 5)):
            if parent["fp"] and self.rng.random() < 0.6:
                self.op()
            else:
                self.call(parent)
                if parent["fp"]:
                    self.op()

    def function(self, i, f):
        self.vars = [("a%d" % j, p) for j, p in enumerate(f["ps"]) if p[0] != "p"]
        self.ptrs = [("a%d" % j, p) for j, p in enumerate(f["ps"]) if p[0] == "p"]
        self.nv = 0
        self.emit(self.proto(f) + " {")
        el = lambda: " ".join(show("a%d[%d]" % (j, e), p[-1]) if p[0] == "p" else show("a%d" % j, p) for j, p in enumerate(f["ps"]) for e in range(ARR if p[0] == "p" else 1))
        self.emit("  lg(%d, %d); %s" % (IN, i, el()))
        self.body(f)
        for j, p in enumerate(f["ps"]):
            if p[0] == "p" and self.rng.random() < 0.6:
                self.emit("  a%d[%d] = %s[%d];" % (j, self.rng.randrange(ARR), "gd" if p == "pd" else "gf", self.rng.randrange(64)))
        r = [x[0] for x in self.vars if x[1] == f["ret"]]
        self.emit("  %s ret = %s;" % (CT[f["ret"]] if f["ret"] else "int", self.rng.choice(r) if r else "n"))
        if f["ret"]:  # not known to the caller by other means
            self.emit("  __asm__ volatile(\"\" : \"+x\"(ret));")
        self.emit("  lg(%d, %d); %s %s" % (RET, i, show("ret", f["ret"]) if f["ret"] else "", el()))
        self.emit("  return ret;")
        self.emit("}")

    def main(self):
        self.vars, self.ptrs, self.nv = [], [], 0
        m = dict(name="main", fp=self.rng.random() < 0.85)
        self.mainfp = m["fp"]
        self.emit("int main(void) {")
        self.main_line = len(self.lines)
        self.emit("  int n = 3; lg(%d, 0);" % MAIN)
        self.body(m)
        for _ in range(3):
            self.call(m)
        if m["fp"]:
            self.op()
        self.emit("  lg(%d, 0); lend();" % MEND)
        self.emit("  return 0;")
        self.emit("}")

    # -- build and run
    def build(self, ctx, flags):
        self.dir = ctx.path("prog%d" % self.k, "x")[:-2]
        rng = self.rng
        for f, s in self.src.items():
            with open(os.path.join(self.dir, f), "w") as h:
                h.write(s)
        vals = lambda t: ", ".join(("%r" if t == "d" else "%rf") % x for x in [float("%.9g" % (rng.uniform(-4, 4) * 10 ** rng.choice([0, 0, 0, 1, 2, -2, 5, 9]))) for _ in range(64)])
        open(os.path.join(self.dir, "globals.c"), "w").write("volatile double gd[64] = {%s};\nvolatile float gf[64] = {%s};\n" % (vals("d"), vals("f")))
        sh([CLANG, "-O0", "-c", "globals.c", "-o", "globals.o"], cwd=self.dir, check=True)
        sh([CLANG, "-O1", "-fno-builtin", "-c", VERIF + "/harness/filog.c", "-o", "filog.o"], cwd=self.dir, check=True)
        p = sh([INST + "/bin/verificarlo-c", "--inst-func", "-fno-builtin", "-fno-strict-aliasing"] + flags + sorted(self.src) + ["globals.o", "filog.o", "-o", "prog"], cwd=self.dir, env=base_env(), timeout=200)
        return p.returncode == 0, p.stdout[-1500:] + p.stderr[-1500:]

    def run(self, ctx, opts, imode, recs, names, tag, chain=""):
        """names: site number -> full identifier known so far"""
        fin, fout, log = [os.path.join(self.dir, x + tag) for x in ("in", "out", "log")]
        be = "libinterflop_vprec.so " + optstrings(opts) + " --instrument=" + imode + " --prec-output-file=" + fout
        if recs:
            write_profile(fin, recs)
            be += " --prec-input-file=" + fin
        for f in (fout, log):
            if os.path.exists(f):
                os.unlink(f)
        p = sh(["./prog"], cwd=self.dir, env=base_env(VFC_BACKENDS=chain + be, VFC_BACKENDS_LOGGER="False", FI_LOG=log), timeout=60)
        desc = "program %d [%s]" % (self.k, be)
        if p.returncode != 0 or not os.path.exists(log):
            return None, "%s ended with status %s: %s" % (desc, p.returncode, p.stderr[-500:]), None
        prof = read_profile(fout)
        return self.trace(opts, imode, recs, open(log).read(), prof, names, desc), None, prof

    def trace(self, opts, imode, recs, log, prof, names, desc):
        unk = prof or []
        byid = {r["id"]: r for r in list(recs) + unk}
        pre = {}
        for i in byid:
            pre[i.rsplit("/", 1)[0]] = i

        def site(num):
            f, par, cal, line, tr, ret = self.sites[num]
            key = "%s/%s/%s/%d" % (f, par, cal, line)
            i = pre.get(key, "unrecorded:" + key)
            r = byid.get(i)
            lib = cal in [x[0] for x in LIBF]
            intr = cal.startswith("llvm.")
            # a function defined elsewhere handles floating point as far as its signature tells
            fp = lib or intr or bool(tr) or bool(ret) or (self.funcs[int(cal[1:])]["fp"] and self.file[int(cal[1:])] == f)
            return dict(id=i, lib=lib, intr=intr, uf=r["uf"] if r else fp, ud=r["ud"] if r else fp)

        def canon(rs):
            """parameter names the compiler could not know"""
            out = []
            for r in rs:
                r = json.loads(json.dumps(r))
                num = [k for k, v in self.sites.items() if "%s/%s/%s/%d" % v[:4] == r["id"].rsplit("/", 1)[0]]
                if num:
                    tr = self.sites[num[0]][4]
                    lib = self.sites[num[0]][2][0] != "f"
                    for a in r["ins"] + r["outs"]:
                        for nm, _ in tr:
                            if a["name"] == "parameter_%d" % (int(nm[1:]) + (1 if lib else 2)):
                                a["name"] = nm
                out.append(r)
            return out

        def take(w, descs):
            out = []
            for nm, ty in descs:
                k = ARR if ty[0] == "p" else 1
                out.append([fpval(int(x, 16), ty[-1]) for x in w[:k]])
                w = w[k:]
            return out

        tr = [dict(o="start", opts=opts, imode=imode, recs=canon(recs), raw=desc)]
        mid = pre.get("%s//main/%d" % (self.main_file, self.main_line), "unrecorded:main")
        mr = byid.get(mid)
        ms = dict(id=mid, lib=False, intr=False, uf=mr["uf"] if mr else self.mainfp, ud=mr["ud"] if mr else self.mainfp)
        pend, stack, told = None, [], []
        for l in log.split("\n"):
            if not l.strip():
                continue
            w = l.split()
            k, i, w = int(w[0]), int(w[1]), w[2:]
            raw = "%s %s" % (desc, l)
            if k == MAIN:
                tr.append(dict(o="enter", s=ms, args=[], seen=[], raw=raw))
            elif k == MEND:
                tr.append(dict(o="exit", s=ms, args=[], seen=[], raw=raw))
            elif k == OPK:
                t = "d" if i >= 4 else "f"
                h = [word(int(x, 16), t) for x in w]
                tr.append(dict(ev_op(OPC[i % 4], t, h[:2], h[2]), raw=raw))
            elif k == CALLK:
                pend = (i, w)
            elif k == IN:
                num, cw = pend
                sites = self.sites[num]
                trk = sites[4]
                full = trk if i < 0 else [("a%d" % j, p) for j, p in enumerate(self.funcs[i]["ps"])]
                got = dict(zip([x[0] for x in full], take(w, full)))
                args = [dict(name=nm, ty=ty, vals=v) for (nm, ty), v in zip(trk, take(cw, trk))]
                tr.append(dict(o="enter", s=site(num), args=args, seen=[got[nm] for nm, _ in trk], raw="%s call of %s %s" % (desc, sites[:4], l)))
                stack.append((num, i))
            elif k == RET:
                num, fi = stack[-1]
                ret, trk = self.sites[num][5], self.sites[num][4]
                full = [] if fi < 0 else [("a%d" % j, p) for j, p in enumerate(self.funcs[fi]["ps"])]
                d = ([("return_value", ret)] if ret else []) + full
                outs = dict(zip([x[0] for x in d], take(w, d)))
                stack[-1] = (num, fi, outs)
            elif k == GOT:
                num, fi, outs = stack.pop()
                ret, trk = self.sites[num][5], self.sites[num][4]
                d = ([("return_value", ret)] if ret else []) + [x for x in trk if x[1][0] == "p"]
                tr.append(dict(o="exit", s=site(num), args=[dict(name=nm, ty=ty, vals=outs[nm]) for nm, ty in d], seen=take(w, d), raw="%s return of %s %s" % (desc, self.sites[num][:4], l)))
            elif k == ABS:
                num, cw = pend
                trk = self.sites[num][4]
                tr.append(dict(o="abs", s=site(num), args=[dict(name=trk[0][0], ty=trk[0][1], vals=take(cw, trk)[0])], seen=take(w, trk), raw="%s intrinsic %s %s" % (desc, self.sites[num][:4], l)))
        if prof is None:
            tr.append(dict(o="dump", recs=[dict(id="unreadable profile")], raw="%s wrote no well-formed profile" % desc))
        else:
            tr.append(dict(o="dump", recs=canon(prof), raw="%s wrote the profile" % desc))
        return tr

    # -- notifications
    def notify(self, ctx, so, ids, tag, tail=""):
        """Runs the program on a chain of recorders; ids: identifiers of the sites (records of a profile)."""
        rng = self.rng
        log, rl = [os.path.join(self.dir, x + tag) for x in ("nlog", "rec")]
        for f in (log, rl):
            if os.path.exists(f):
                os.unlink(f)
        who = ["B%d" % i for i in range(rng.choice([1, 2, 3, 5]))]
        has = {w: (rng.random() < 0.85, rng.random() < 0.85) for w in who}
        be = "; ".join("%s --id=%s --ops=%x" % (so, w, 0x1ffff & ~(0 if has[w][0] else 8192) & ~(0 if has[w][1] else 16384)) for w in who) + tail
        p = sh(["./prog"], cwd=self.dir, env=base_env(VFC_BACKENDS=be, VFC_BACKENDS_LOGGER="False", FI_LOG=log, REC_LOG=rl), timeout=60)
        desc = "program %d [%s]" % (self.k, be)
        if p.returncode != 0 or not os.path.exists(log):
            return None, "%s ended with status %s: %s" % (desc, p.returncode, p.stderr[-500:])
        pre = {r["id"].rsplit("/", 1)[0]: r for r in ids}
        canon = {r["id"]: {} for r in ids}
        for f, par, cal, line, trk, ret in self.sites.values():
            r = pre.get("%s/%s/%s/%d" % (f, par, cal, line))
            if r:
                lib = cal[0] != "f"
                canon[r["id"]] = {"parameter_%d" % (int(nm[1:]) + (1 if lib else 2)): nm for nm, _ in trk}

        def rec(num):
            return pre.get("%s/%s/%s/%d" % self.sites[num][:4])

        told = []
        for th, w, x in __import__("rec").read_log(rl):
            if x and x[0] in ("enter", "exit"):
                args, y = [], x[5:]
                try:
                    for _ in range(int(x[4])):
                        k = int(y[2])
                        args.append([canon.get(x[1], {}).get(y[1], y[1]), TY[int(y[0])], y[3:3 + k]])
                        y = y[3 + k:]
                except (ValueError, IndexError, KeyError):
                    args = [["malformed", " ".join(x[4:]), []]]
                told.append(dict(o="told", id=w, kind=x[0], site=[x[1], x[2] == "1", x[3] == "1"], args=args, raw="%s %s %s" % (desc, w, " ".join(x))))
        told.reverse()
        takers = dict(enter=[w for w in who if has[w][0]], exit=[w for w in who if has[w][1]])
        tr = [dict(o="start", takers=takers, raw=desc)]

        def add(o, r, args, raw):
            if not (r["uf"] or r["ud"]):
                return
            tr.append(dict(o=o, site=[r["id"], r["lib"], r["intr"]], args=args, raw=raw))
            for _ in takers["enter" if o == "call" else "exit"]:
                if told:
                    tr.append(told.pop())

        def shape(trk, w):
            out = []
            for nm, ty in trk:
                k = ARR if ty[0] == "p" else 1
                out.append([nm, ty, [word(int(x, 16), ty[-1]) for x in w[:k]]])
                w = w[k:]
            return out

        pend, stack = None, []
        for l in open(log).read().split("\n"):
            if not l.strip():
                continue
            w = l.split()
            k, i, w = int(w[0]), int(w[1]), w[2:]
            raw = "%s %s" % (desc, l)
            if k in (MAIN, MEND):
                r = pre.get("%s//main/%d" % (self.main_file, self.main_line))
                if r:
                    add("call" if k == MAIN else "return", r, [], raw)
            elif k == CALLK:
                pend = (i, w)
            elif k == IN:
                stack.append(pend[0])
                r = rec(pend[0])
                if r:
                    add("call", r, shape(self.sites[pend[0]][4], pend[1]), raw)
            elif k == GOT:
                num = stack.pop()
                r = rec(num)
                if r:
                    trk, ret = self.sites[num][4], self.sites[num][5]
                    add("return", r, shape(([("return_value", ret)] if ret else []) + [x for x in trk if x[1][0] == "p"], w), raw)
            elif k == ABS:
                r = rec(pend[0])
                if r:
                    trk = self.sites[pend[0]][4]
                    add("call", r, shape(trk, pend[1]), raw)
                    add("return", r, shape([("return_value", trk[0][1])], w), raw)
        tr += told[::-1] + [dict(o="end", raw=desc)]
        return tr, None
