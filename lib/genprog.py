"""Random C programs together with the graph of floating-point operations they execute."""
import struct
from vlib import fpval, word

CT = {"f": "float", "d": "double", "i": "int"}
SYM = {"add": "+", "sub": "-", "mul": "*", "div": "/"}
PRED = {"<": 4, "<=": 5, ">": 2, ">=": 3, "==": 1, "!=": 14}   # ordered, != is unordered-or-not-equal


def bits(x, t):
    return struct.unpack("<I", struct.pack("<f", x))[0] if t == "f" else struct.unpack("<Q", struct.pack("<d", x))[0]


def rec(x, t):
    return fpval(word(bits(x, t), t), t)


class Prog:
    def __init__(self, rng, opt, kinds):
        self.r, self.opt, self.kinds = rng, opt, kinds
        self.nodes, self.outs, self.used = [], [], set()
        self.files = []
        self.nf = 0
        self.strict = opt == 0

    # -- graph
    def node(self, **k):
        n = dict(k="in", op="", t="d", a=[], v=None, p=0)
        n.update(k)
        self.nodes.append(n)
        return len(self.nodes)

    def val(self, t):
        r = self.r
        x = r.choice([-1, 1]) * r.uniform(1, 2) * 2.0 ** r.randint(-6, 6)
        if t == "f":
            x = struct.unpack("<f", struct.pack("<f", x))[0]
        return x

    def input(self, t, fn):
        """an opaque input of the function being built; returns (node, C expression)"""
        x = self.val(t)
        fn["in_" + t].append(x.hex())
        return self.node(k="in", t=t, v=rec(x, t)), "%sin_%s[%d]" % (fn["name"], t, len(fn["in_" + t]) - 1)

    def op(self, o, t, a, b):
        key = (o, t) + (tuple(sorted((a, b))) if o in ("add", "mul") else (a, b))
        if a == b or key in self.used:
            return None
        self.used.add(key)
        return self.node(k="op", op=o, t=t, a=[a, b])

    def out(self, n, e, fn):
        t = self.nodes[n - 1]["t"]
        self.outs.append(n)
        fn["body"].append("out_%s(%s);" % (t, e))

    # -- function templates; each appends to fn["body"]
    def func(self):
        self.nf += 1
        return dict(name="g%d_" % self.nf, in_f=[], in_d=[], in_i=[], body=[], pre=[])

    def pick(self, o=None):
        return self.r.choice(["add", "sub", "mul", "div"])

    def straight(self, fn, n=None, types="fd"):
        r = self.r
        pool = {"f": [], "d": []}
        for k in range(n or r.randint(4, 14)):
            t = r.choice(types)
            P = pool[t]

            def operand():
                if P and r.random() < 0.6:
                    return r.choice(P)
                nd, e = self.input(t, fn)
                v = "x%d" % nd
                fn["body"].append("%s %s = %s;" % (CT[t], v, e))
                P.append((nd, v))
                return nd, v
            (a, ea), (b, eb) = operand(), operand()
            o = self.pick()
            if r.random() < 0.13:  # a constant first operand
                o = r.choice(["sub", "div"] if self.opt else ["add", "sub", "mul", "div"])
                c = 0.0 if o == "sub" and r.random() < 0.4 else r.choice([1.0, 3.7, -2.5, 0.1] if self.opt else [1.0, 2.0, -1.0, 0.5, -2.5, 3.0] + ([0.0, -0.0] if o in ("add", "sub") else []))
                if t == "f":
                    c = struct.unpack("<f", struct.pack("<f", c))[0]
                if self.opt and (o, t, c, b) in self.used:
                    continue
                self.used.add((o, t, c, b))
                a, ea = self.node(k="in", t=t, v=rec(c, t)), ("%sf" if t == "f" else "%s") % c.hex()
            elif r.random() < 0.14:  # a constant operand
                c = r.choice([3.7, 0.1, 11.0] + ([] if self.opt else [-2.5, 1.0, 2.0, 4.0, -1.0, 0.5] + ([0.0, -0.0] if o in ("add", "sub") else [])))
                if t == "f":
                    c = struct.unpack("<f", struct.pack("<f", c))[0]
                b, eb = self.node(k="in", t=t, v=rec(c, t)), ("%sf" if t == "f" else "%s") % c.hex()
                if o == "sub" and self.opt:
                    o = "mul"
                if self.opt and (o, t, a, c) in self.used:
                    continue
                self.used.add((o, t, a, c))
            q = self.op(o, t, a, b)
            if q is None:
                continue
            v = "x%d" % q
            k = r.random()
            if k < 0.2 and o in SYM:  # compound assignment
                fn["body"].append("%s %s = %s; %s %s= %s;" % (CT[t], v, ea, v, SYM[o], eb))
            else:
                fn["body"].append("%s %s = %s %s %s;" % (CT[t], v, ea, SYM[o], eb))
            P.append((q, v))
            if r.random() < 0.3:
                self.out(q, v, fn)
        for t in types:
            for q, v in pool[t]:
                if self.nodes[q - 1]["k"] != "in" and (q not in self.outs):
                    self.out(q, v, fn)

    def loop_map(self, fn):
        r = self.r
        t = r.choice("fd")
        n = r.choice([3, 4, 7, 8, 16, 19, 33])
        na = r.randint(2, 3)
        arr = {}
        for k in range(na):
            arr["a%d" % k] = []
            fn["body"].append("%s a%d[%d];" % (CT[t], k, n))
            start = len(fn["in_" + t])
            arr["a%d" % k] = [self.input(t, fn)[0] for _ in range(n)]
            fn["body"].append("for (int i = 0; i < %d; i++) a%d[i] = %sin_%s[%d + i];" % (n, k, fn["name"], t, start))
        names = list(arr)
        stm = []
        for k in range(r.randint(1, 3)):
            o = self.pick()
            x, y = r.sample(names, 2)
            z = "z%d" % k
            res = [self.op(o, t, arr[x][i], arr[y][i]) for i in range(n)]
            if None in res:
                break
            fn["body"].append("%s %s[%d];" % (CT[t], z, n))
            stm.append("%s[i] = %s[i] %s %s[i];" % (z, x, SYM[o], y))
            arr[z] = res
            names.append(z)
        style = r.randrange(3)
        if style == 0:
            fn["body"].append("for (int i = 0; i < %d; i++) { %s }" % (n, " ".join(stm)))
        elif style == 1:
            fn["body"] += ["for (int i = 0; i < %d; i++) %s" % (n, s) for s in stm]
        else:
            fn["body"].append("{ int i = 0; while (i < %d) { %s i++; } }" % (n, " ".join(stm)))
        for z in [q for q in names if q[0] == "z"]:
            fn["body"].append("for (int i = 0; i < %d; i++) out_%s(%s[i]);" % (n, t, z))
            self.outs += arr[z]

    def reduction(self, fn):
        r = self.r
        t = r.choice("fd")
        n = r.choice([2, 5, 9, 16])
        o = r.choice(["add", "mul", "sub", "div"])
        s, e = self.input(t, fn)
        fn["body"].append("%s s = %s;" % (CT[t], e))
        start = len(fn["in_" + t])
        xs = [self.input(t, fn)[0] for _ in range(n)]
        for x in xs:
            s = self.op(o, t, s, x)
        fn["body"].append("for (int i = 0; i < %d; i++) s = s %s %sin_%s[%d + i];" % (n, SYM[o], fn["name"], t, start))
        self.out(s, "s", fn)

    def vector(self, fn):
        r = self.r
        t = r.choice("fd")
        n = r.choice([2, 4, 8, 16])
        T = "v%s%d" % (t, n)
        vs = []
        for k in range(r.randint(2, 3)):
            start = len(fn["in_" + t])
            nd = [self.input(t, fn)[0] for _ in range(n)]
            v = "u%d" % nd[0]
            fn["body"].append("%s %s; for (int i = 0; i < %d; i++) %s[i] = %sin_%s[%d + i];" % (T, v, n, v, fn["name"], t, start))
            vs.append((v, nd))
        for k in range(r.randint(1, 4)):
            (x, nx), (y, ny) = r.sample(vs, 2)
            if "cmp" in self.kinds and r.random() < 0.3:
                s = r.choice(list(PRED))
                key = ("vc", t) + tuple(sorted((nx[0], ny[0])))
                if key in self.used:
                    continue
                self.used.add(key)
                z = [self.node(k="cmp", op="cmp", t="i", a=[nx[i], ny[i]], p=PRED[s], ft=t) for i in range(n)]
                v = "c%d" % z[0]
                fn["body"].append("w%s%d %s = %s %s %s; for (int i = 0; i < %d; i++) out_i(%s[i] != 0);" % (t, n, v, x, s, y, n, v))
                self.outs += z
                continue
            o = self.pick()
            z = [self.op(o, t, nx[i], ny[i]) for i in range(n)]
            if None in z:
                break
            v = "u%d" % z[0]
            fn["body"].append("%s %s = %s %s %s;" % (T, v, x, SYM[o], y))
            vs.append((v, z))
            fn["body"].append("for (int i = 0; i < %d; i++) out_%s(%s[i]);" % (n, t, v))
            self.outs += z

    def branch(self, fn):
        r = self.r
        t = r.choice("fd")
        c = r.randint(0, 3)
        fn["in_i"].append(str(c))
        fn["body"].append("%s y;" % CT[t])
        taken = None
        cases = []
        for k in range(4):
            st = len(self.nodes)
            (a, ea), (b, eb) = self.input(t, fn), self.input(t, fn)
            o = self.pick()
            if k == c:
                taken = self.op(o, t, a, b)
            cases.append("y = %s %s %s;" % (ea, SYM[o], eb))
        e = "%sin_i[%d]" % (fn["name"], len(fn["in_i"]) - 1)
        if r.random() < 0.5:
            fn["body"].append("switch (%s) { case 0: %s break; case 1: %s break; case 2: %s break; default: %s }" % ((e,) + tuple(cases)))
        else:
            fn["body"].append("int c = %s; if (c == 0) { %s } else if (c == 1) { %s } else if (c == 2) { %s } else { %s }" % ((e,) + tuple(cases)))
        self.out(taken, "y", fn)

    def calls(self, fn):
        r = self.r
        t = r.choice("fd")
        T = CT[t]
        h = "h%d" % self.nf
        o1, o2 = self.pick(), self.pick()
        attr = r.choice(["static", "static __attribute__((noinline))", "", "static inline"])
        kind = r.randrange(3)
        if kind == 0:  # helper of two operations, called with different arguments
            fn["pre"].append("%s %s %s(%s a, %s b) { %s q = a %s b; return q %s a; }" % (attr, T, h, T, T, T, SYM[o1], SYM[o2]))
            for _ in range(r.randint(1, 3)):
                (a, ea), (b, eb) = self.input(t, fn), self.input(t, fn)
                q = self.op(o1, t, a, b)
                w = self.op(o2, t, q, a)
                fn["body"].append("out_%s(%s(%s, %s));" % (t, h, self.bind(fn, t, a, ea), self.bind(fn, t, b, eb)))
                self.outs.append(w)
        elif kind == 1:  # recursion
            n = r.randint(1, 5)
            fn["pre"].append("static __attribute__((noinline)) %s %s(int n, %s x) { if (n == 0) return x; %s y = %s(n - 1, x); return y %s %sin_%s[n]; }" % (T, h, T, T, h, SYM[o1], fn["name"], t))
            x, e = self.input(t, fn)
            assert len(fn["in_" + t]) == 1
            acc = x
            for k in range(n):
                b, _ = self.input(t, fn)
                acc = self.op(o1, t, acc, b)
            fn["in_i"].append(str(n))
            fn["body"].append("out_%s(%s(%sin_i[%d], %s));" % (t, h, fn["name"], len(fn["in_i"]) - 1, e))
            self.outs.append(acc)
        else:  # through a function pointer and memory
            fn["pre"].append("%s void %s(const %s *a, const %s *b, %s *c) { *c = *a %s *b; }" % ("static", h, T, T, T, SYM[o1]))
            (a, ea), (b, eb) = self.input(t, fn), self.input(t, fn)
            q = self.op(o1, t, a, b)
            fn["body"].append("struct { %s u[2]; %s w; } m; m.u[0] = %s; m.u[1] = %s; void (*volatile fp)(const %s *, const %s *, %s *) = %s; fp(&m.u[0], &m.u[1], &m.w);" % (T, T, ea, eb, T, T, T, h))
            self.out(q, "m.w", fn)
            c, ec = self.input(t, fn)
            w = self.op(o2, t, c, q)
            fn["body"].append("%s fin = %s %s m.w;" % (T, self.bind(fn, t, c, ec), SYM[o2]))
            self.out(w, "fin", fn)

    def cxx(self, fn):
        """templates, virtual calls, lambdas, exceptions, overloaded operators, static locals"""
        r = self.r
        t = r.choice("fd")
        T = CT[t]
        h = "h%d" % self.nf
        o1, o2 = self.pick(), self.pick()
        (a, ea), (b, eb) = self.input(t, fn), self.input(t, fn)
        va, vb = self.bind(fn, t, a, ea), self.bind(fn, t, b, eb)
        k = r.randrange(7)
        q = self.op(o1, t, a, b)
        if k == 0:
            fn["pre"].append("template <class T> static T %s(T a, T b) { T q = a %s b; return q; }" % (h, SYM[o1]))
            fn["body"].append("%s y%d = %s(%s, %s);" % (T, q, h, va, vb))
        elif k == 1:
            fn["pre"].append("struct %sB { virtual %s f(%s a, %s b) { return a; } virtual ~%sB() {} }; struct %s : %sB { %s f(%s a, %s b) override { return a %s b; } };" % (h, T, T, T, h, h, h, T, T, T, SYM[o1]))
            fn["body"].append("%sB *p = new %s; %s y%d = p->f(%s, %s); delete p;" % (h, h, T, q, va, vb))
        elif k == 2:
            fn["body"].append("auto l = [&](%s z) { return %s %s z; }; %s y%d = l(%s);" % (T, va, SYM[o1], T, q, vb))
        elif k == 3:
            fn["body"].append("%s y%d = 0; try { throw %s %s %s; } catch (%s e) { y%d = e; }" % (T, q, va, SYM[o1], vb, T, q))
        elif k == 5:    # in a handler
            fn["in_i"].append("3")
            fn["pre"].append("static __attribute__((noinline)) void %s(int n) { if (n) throw n; }" % h)
            fn["body"].append("%s y%d = 0; try { %s(%sin_i[%d]); } catch (%s) { y%d = %s %s %s; }" % (T, q, h, fn["name"], len(fn["in_i"]) - 1, r.choice(["...", "int"]), q, va, SYM[o1], vb))
        elif k == 6:    # in a destructor run while unwinding
            fn["in_i"].append("3")
            fn["pre"].append("static __attribute__((noinline)) void %s(int n) { if (n) throw n; } struct %sD { %s &r; %s a, b; ~%sD() { r = a %s b; } };" % (h, h, T, T, h, SYM[o1]))
            fn["body"].append("%s y%d = 0; try { %sD g = {y%d, %s, %s}; %s(%sin_i[%d]); } catch (...) { }" % (T, q, h, q, va, vb, h, fn["name"], len(fn["in_i"]) - 1))
        else:
            fn["pre"].append("struct %s { %s v; }; static %s operator%s(%s a, %s b) { %s c; c.v = a.v %s b.v; return c; }" % (h, T, h, SYM[o1], h, h, h, SYM[o1]))
            fn["body"].append("%s sa = {%s}, sb = {%s}; %s y%d = (sa %s sb).v;" % (h, va, vb, T, q, SYM[o1]))
        w = self.op(o2, t, b, q)
        fn["body"].append("%s y%d = %s %s y%d;" % (T, w, vb, SYM[o2], q))
        self.out(q, "y%d" % q, fn)
        self.out(w, "y%d" % w, fn)

    def thread(self, fn):
        """operations of another thread"""
        t = self.r.choice("fd")
        T, h, o = CT[t], "h%d" % self.nf, self.pick()
        n = self.r.randint(1, 4)
        fn["pre"].append("static %s %sr[%d]; static void *%s(void *p) { int i = *(int *)p; %sr[i] = %sin_%s[2 * i] %s %sin_%s[2 * i + 1]; return 0; }" % (T, h, n, h, h, fn["name"], t, SYM[o], fn["name"], t))
        fn["body"].append("for (int i = 0; i < %d; i++) { pthread_t th; pthread_create(&th, 0, %s, &i); pthread_join(th, 0); out_%s(%sr[i]); }" % (n, h, t, h))
        for k in range(n):
            (a, _), (b, _) = self.input(t, fn), self.input(t, fn)
            self.outs.append(self.op(o, t, a, b))

    def vecother(self, fn):
        """vector shapes and operations that are never handed over (only as written: optimisers may split them)"""
        if self.opt:
            return self.special(fn)
        r = self.r
        t = r.choice("fd")
        k = r.choice(["size", "fma", "cast"])
        n = r.choice([3, 5, 6, 32]) if k == "size" else r.choice([2, 4, 8])
        T = "v%s%d" % (t, n)
        fn["pre"].append("typedef %s %s_%s __attribute__((ext_vector_type(%d)));" % (CT[t], T, fn["name"], n))
        T += "_" + fn["name"]
        for v in ("u", "v", "w"):
            start = len(fn["in_" + t])
            for _ in range(n):
                self.input(t, fn)
            fn["body"].append("%s %s; for (int i = 0; i < %d; i++) %s[i] = %sin_%s[%d + i];" % (T, v, n, v, fn["name"], t, start))
        rt = t
        if k == "size":
            fn["body"].append("%s z = u %s v;" % (T, SYM[self.pick()]))
        elif k == "fma":
            fn["body"].append("%s z = __builtin_elementwise_fma(u, v, w);" % T)
        else:
            rt = "f" if t == "d" else "d"
            fn["pre"].append("typedef %s c_%s __attribute__((ext_vector_type(%d)));" % (CT[rt], fn["name"], n))
            fn["body"].append("c_%s z = __builtin_convertvector(u, c_%s);" % (fn["name"], fn["name"]))
        for i in range(n):
            self.outs.append(self.node(k="x", t=rt))
        fn["body"].append("for (int i = 0; i < %d; i++) out_%s(z[i]);" % (n, rt))

    def bind(self, fn, t, n, e):
        v = "b%d" % n
        fn["body"].append("%s %s = %s;" % (CT[t], v, e))
        return v

    def special(self, fn):
        """fused multiply-adds, comparisons and casts: instrumented or native depending on the options"""
        r = self.r
        for _ in range(r.randint(2, 6)):
            k = r.choice(["fma", "fma2", "cmp", "cmp", "cast", "ext", "neg", "int", "exotic"])
            t = r.choice("fd")
            (a, ea), (b, eb) = self.input(t, fn), self.input(t, fn)
            ea, eb = self.bind(fn, t, a, ea), self.bind(fn, t, b, eb)
            if k in ("fma", "fma2"):
                c, ec = self.input(t, fn)
                ec = self.bind(fn, t, c, ec)
                if k == "fma":
                    q = self.node(k="fma", op="fma", t=t, a=[a, b, c])
                    fn["body"].append("out_%s(__builtin_fma%s(%s, %s, %s));" % (t, "f" if t == "f" else "", ea, eb, ec))
                    self.outs.append(q)
                elif "fma" in self.kinds:  # contracted expression; fused only when handed to a backend
                    q = self.node(k="fma", op="fma", t=t, a=[a, b, c])
                    fn["body"].append("out_%s(%s * %s + %s);" % (t, ea, eb, ec))
                    self.outs.append(q)
            elif k == "cmp":
                s = r.choice(list(PRED))
                if r.random() < 0.15:
                    b, eb = a, ea
                    if self.opt:
                        continue
                q = self.node(k="cmp", op="cmp", t="i", a=[a, b], p=PRED[s], ft=t)
                fn["body"].append(r.choice(["out_i(%s %s %s);", "{ int c; if (%s %s %s) c = 1; else c = 0; out_i(c); }"]) % (ea, s, eb))
                self.outs.append(q)
            elif k == "cast":
                c, ec = self.input("d", fn)
                ec = self.bind(fn, "d", c, ec)
                q = self.node(k="cast", op="cast", t="f", a=[c])
                fn["body"].append("float y%d = (float)%s;" % (q, ec))
                self.out(q, "y%d" % q, fn)
                c, ec = self.input("f", fn)
                ec = self.bind(fn, "f", c, ec)
                o = self.pick()
                w = self.op(o, "f", q, c)
                fn["body"].append("float y%d = y%d %s %s;" % (w, q, SYM[o], ec))
                self.out(w, "y%d" % w, fn)
            elif k == "ext":
                c, ec = self.input("f", fn)
                ec = self.bind(fn, "f", c, ec)
                q = self.node(k="ext", op="ext", t="d", a=[c])
                d, ed = self.input("d", fn)
                ed = self.bind(fn, "d", d, ed)
                o = self.pick()
                w = self.op(o, "d", q, d)
                fn["body"].append("double y%d = %s %s %s;" % (w, ec, SYM[o], ed))
                self.out(w, "y%d" % w, fn)
            elif k == "neg":
                q = self.node(k="neg", op="neg", t=t, a=[a])
                fn["body"].append("out_%s(-%s);" % (t, ea))
                self.outs.append(q)
            elif k == "int":
                x, y = r.randint(-1000, 1000), r.randint(1, 1000)
                fn["in_i"] += [str(x), str(y)]
                i = len(fn["in_i"])
                e, z = r.choice([("%s + %s", x + y), ("%s * %s", x * y), ("%s ^ %s", x ^ y), ("(%s > %s)", int(x > y)), ("(%s - %s) << 2", (x - y) * 4)])
                q = self.node(k="int", t="i", v=z)
                fn["body"].append("out_i(%s);" % (e % ("%sin_i[%d]" % (fn["name"], i - 2), "%sin_i[%d]" % (fn["name"], i - 1))))
                self.outs.append(q)
            else:  # types that are never instrumented
                o = self.pick()
                T = r.choice(["bool3"] if self.opt and t == "f" else ["long double", "bool3"] if self.opt else ["long double", "__float128", "bool3"])
                if T == "bool3":
                    q = self.node(k="x", t=t)
                    fn["body"].append("out_%s((%s)(int)(%s * 0 == 0 ? 7 : 9));" % (t, CT[t], "(long double)" + ea))
                else:
                    q = self.node(k="x", t=t)
                    fn["body"].append("out_%s((%s)((%s)%s %s (%s)%s));" % (t, CT[t], T, ea, SYM[o], T, eb))
                self.outs.append(q)

    # -- whole program
    TEMPLATES = ["straight", "straight", "loop_map", "reduction", "vector", "vector", "branch", "calls", "calls", "special", "special", "thread", "vecother"]

    def build(self, nfiles, ext=".c", nfunc=7):
        r = self.r
        files = [[] for _ in range(nfiles)]
        order, before, after = [], r.random() < 0.4, r.random() < 0.4
        cxx = ["cxx"] * 4 if ext == ".cc" else []
        for k in range(nfunc):
            fn = self.func()
            getattr(self, r.choice(self.TEMPLATES + cxx))(fn)
            fl = r.randrange(nfiles)
            src = []
            for t in "fdi":
                vals = fn["in_" + t] or ["0"]
                src.append("static volatile %s %sin_%s[] = {%s};" % (CT[t], fn["name"], t, ", ".join(v + ("f" if t == "f" and "x" in v else "") for v in vals)))
            src += fn["pre"]
            pos = "__attribute__((constructor)) " if before and k == 0 else "__attribute__((destructor)) " if after and k == nfunc - 1 else ""
            if r.random() < 0.25:
                pos += "__attribute__((%s)) " % r.choice(["section(\".text.part\")", "hot", "weak", "used", "visibility(\"hidden\")", "flatten", "aligned(64)"] + ([] if self.opt else ["cold", "minsize"]))  # small code pads vectors
            src.append(pos + "void %s(void) {\n  %s\n}" % (fn["name"], "\n  ".join(fn["body"])))
            files[fl].append("\n".join(src))
            order.append(fn["name"])
        body = order[1 if before else 0:len(order) - (1 if after else 0)]
        head = "#include <pthread.h>\n#ifdef __cplusplus\nextern \"C\" {\n#endif\nvoid out_f(float); void out_d(double); void out_i(int);\n" + "".join("void %s(void);\n" % n for n in order) + "#ifdef __cplusplus\n}\n#endif\n"
        for n in (2, 4, 8, 16):
            head += "typedef float vf%d __attribute__((ext_vector_type(%d)));typedef double vd%d __attribute__((ext_vector_type(%d)));typedef int wf%d __attribute__((ext_vector_type(%d)));typedef long wd%d __attribute__((ext_vector_type(%d)));\n" % ((n,) * 8)
        res = {}
        for i, f in enumerate(files):
            s = head + "\n".join(f) + "\n"
            if i == 0:
                s += "int main(void) { %s return 0; }\n" % " ".join("%s();" % n for n in body)
            res["p%d%s" % (i, ext)] = s
        return res
