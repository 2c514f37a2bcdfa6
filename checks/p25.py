"""vfc_vtk: the merged output of generated sets of VTK files."""
import hashlib
import random
import xml.etree.ElementTree as ET
from fractions import Fraction
from xml.sax.saxutils import quoteattr
from vlib import *

NAMES = ["p", "v", "T", "velocity", "a b", "caf\u00e9", "x.y", "p_vfc", "it's", 'q"t', "a]b", "<t>", "1", "p[0]", "Points"]
DIRS = ["output01", "output02", "run 3", "r'4", "x", "10", "9", "z.d", "out(1)", "a+b"]
SUF = "_vfc_accuracy"


def arrays(r, names, n, floats):
    out = []
    for nm in r.sample(names, n):
        t = r.choice(["Float32", "Float32", "Float64", "Int32", "UInt8"]) if floats else "Int32"
        out.append(dict(name=nm, type=t, e=r.choice([0, 0, -2, 3, -30, 30, -60]) if t[0] == "F" else 0, comps=r.choice(["1", "3", None])))
    return out


def template(r):
    """the structure of one file: [piece: [section, arrays]]"""
    pieces = []
    for _ in range(r.choice([1, 1, 1, 2])):
        secs = [["Points", [dict(name=r.choice(["Points", "p", "xyz"]), type=r.choice(["Float32", "Float64"]), e=0, comps="3")]],
                ["Cells", arrays(r, ["connectivity", "offsets", "types"], 3, False)],
                ["PointData", arrays(r, NAMES, r.randint(0, 3), True)], ["CellData", arrays(r, NAMES, r.randint(0, 3), True)]]
        secs = [s for s in secs if s[0] != "CellData" or r.random() < 0.8]
        if r.random() < 0.4:
            secs = [secs[0]] + r.sample(secs[1:], len(secs) - 1)
        for s in secs:
            for a in s[1]:
                k = r.choice([1, 2, 3, 5])
                a["n"] = k
                a["base"] = [r.choice([0, r.randint(-2000, 2000), r.randint(-40, 40), r.randint(1, 9)]) for _ in range(k)]
                a["spread"] = [r.choice([0, 0, 1, 2, 10, 100]) for _ in range(k)]
        pieces.append(secs)
    return pieces


def document(r, tpl, mixed):
    """the numbers of one run and the text of its file"""
    arrs, x = [], ['<?xml version="1.0"?>', '<VTKFile type="UnstructuredGrid" version="0.1">', " <UnstructuredGrid>"]
    for pi, secs in enumerate(tpl):
        x.append('  <Piece NumberOfPoints="%d" NumberOfCells="%d">' % (4, 2))
        for sec, al in secs:
            x.append("   <%s>" % sec)
            for a in (r.sample(al, len(al)) if mixed else al):
                vals = [b if a["type"][0] != "F" else b + r.randint(-s, s) for b, s in zip(a["base"], a["spread"])]
                txt = [str(v) if a["e"] == 0 and r.random() < 0.8 else "%de%d" % (v, a["e"]) if a["type"][0] == "F" else str(v) for v in vals]
                attr = dict(type=a["type"], Name=a["name"], **({"NumberOfComponents": a["comps"]} if a["comps"] else {}), format="ascii")
                x.append("    <DataArray %s>%s%s%s</DataArray>" % (" ".join("%s=%s" % (k, quoteattr(v)) for k, v in attr.items()), r.choice(["", " ", "\n     "]), r.choice([" ", "\n", "  "]).join(txt), r.choice(["", "\n    "])))
                arrs.append(dict(at=dict(piece=pi + 1, sec=sec), name=a["name"], type=a["type"], attr=attrs(attr), vals=vals, of=""))
            x.append("   </%s>" % sec)
        x.append("  </Piece>")
    return arrs, "\n".join(x + [" </UnstructuredGrid>", "</VTKFile>"]) + "\n"


def attrs(d):
    return "|".join("%s=%s" % (k, v) for k, v in sorted(d.items()) if k not in ("Name", "type"))


def skeleton(tree):
    return [(n.tag, sorted(n.attrib.items()), (n.text or "").strip()) for n in tree.iter() if n.tag != "DataArray"]


def number(tok, e):
    x = float(tok)
    z = dict(v=0, exact=False, m64=9999999, s8=5000, lo=-1, hi=-1)
    if x != x or abs(x) == float("inf"):
        return z
    q = Fraction(x) / Fraction(10) ** e
    cl = lambda y, m: max(-m, min(m, y))
    v = cl(round(q), 10**7)
    d = lambda y: cl(int(y // 1), 200)
    y = cl(x, 1000.0)
    return dict(v=v, exact=float("%de%d" % (v, e)) == x, m64=cl(round(q * 64), 9999999), s8=cl(round(q * 8), 5000), lo=d(8 * y - 1e-6), hi=d(8 * y + 1e-6))


def read(path, tpl):
    """arrays of an output file"""
    t = ET.parse(path).getroot()
    out = []
    seen = {id(a) for p in t.iter("Piece") for s in p for a in s.findall("DataArray")}
    if {id(a) for a in t.iter("DataArray")} != seen:
        out.append(dict(at=dict(piece=0, sec="elsewhere"), name="?", type="?", attr="?", vals=[], of="?"))
    for pi, piece in enumerate(t.iter("Piece")):
        for s in piece:
            for a in s.findall("DataArray"):
                name = a.get("Name") or ""
                of = name[:-len(SUF)] if name.endswith(SUF) else ""
                e = 0
                if pi < len(tpl):
                    for sec, al in tpl[pi]:
                        for b in al:
                            if b["name"] == (of or name) and (sec == s.tag or (of and sec == "Points" and s.tag == "PointData" and not any(c["name"] == of and c["type"][0] == "F" for q, l in tpl[pi] if q == "PointData" for c in l))):
                                e = b["e"]
                try:
                    vals = [number(k, e) for k in (a.text or "").split()]
                except ValueError:
                    vals = []
                out.append(dict(at=dict(piece=pi + 1, sec=s.tag), name=name, type=a.get("type"), attr=attrs(a.attrib), vals=vals, of=of))
    return out, skeleton(t)


def files(d):
    """everything under d"""
    h = {}
    for root, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            h[os.path.relpath(p, d)] = hashlib.sha256(open(p, "rb").read()).hexdigest()
        for f in ds:
            h[os.path.relpath(os.path.join(root, f), d) + "/"] = ""
    if os.path.isfile(d):
        h[""] = hashlib.sha256(open(d, "rb").read()).hexdigest()
    return h


def case(ctx, seed, j):
    r = random.Random(seed)
    d = os.path.join(ctx.scratch, "c%d" % j)
    inp = os.path.join(d, r.choice(["in", "in put", "i.n"]))
    os.makedirs(inp)
    kind = r.choices(["ok", "none", "exists", "existsfile"], [30, 1, 1, 1])[0]
    opt = dict(std=r.random() < 0.35, mean=r.random() < 0.35)
    nruns = 0 if kind == "none" else r.choice([1, 2, 2, 3, 4, 6])
    vt = [r.choice(["a.vtu", "b c.vtu", "deep.x.vtu"]) for _ in range(r.choice([1, 1, 2]))]
    vt = sorted(set(vt))
    tpls = [template(r) for _ in vt]
    for t in tpls:   # an accuracy next to that of Points of the same name would be ambiguous only in reading
        for secs in t:
            pts = secs[0][1][0]
            for sec, al in secs:
                if sec == "PointData":
                    al[:] = [a for a in al if a["name"] != pts["name"]]
    mixed = r.random() < 0.2
    withref = r.random() < 0.4
    extra = r.random() < 0.6

    def write(path, tag):
        os.makedirs(path)
        run = []
        for f, t in zip(vt, tpls):
            arrs, x = document(r, t, mixed)
            run.append(arrs)
            with open(os.path.join(path, f), "w") as h:
                h.write(x)
        with open(os.path.join(path, "series.pvd"), "w") as h:
            h.write("<same/>")
        if extra:
            os.makedirs(os.path.join(path, "logs"))
            with open(os.path.join(path, "logs", "log.txt"), "w") as h:
                h.write(tag)
        return run
    names = r.sample(DIRS, nruns)
    runs = [write(os.path.join(inp, n), n) for n in names]
    ref = [write(os.path.join(d, "refdir"), "ref")] if withref else []
    if r.random() < 0.3:
        open(os.path.join(inp, "readme.vtu"), "w").write("not a directory")
    cmd = [PY, "-W", "ignore", "-m", "verificarlo.vtk", inp]
    out = os.path.join(d, "vfc_postprocess")
    if r.random() < 0.6:
        out = os.path.join(d, "res ult")
        cmd += ["-o", r.choice([out, "res ult"])]
    if withref:
        cmd += ["-r", os.path.join(d, "refdir")]
    cmd += ["--std"] * opt["std"] + ["--mean"] * opt["mean"]
    if kind == "exists":
        os.makedirs(out)
        open(os.path.join(out, vt[0]), "w").write("old")
    elif kind == "existsfile":
        open(out, "w").write("old")
    before, obefore = files(inp), files(out)
    rbefore = files(os.path.join(d, "refdir"))
    p = subprocess.run(cmd, cwd=d, env=base_env(PYTHONPATH=ctx.pytools), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200)
    res = dict(status=p.returncode if p.returncode >= 0 else 200, inputs=files(inp) == before and files(os.path.join(d, "refdir")) == rbefore, touched=files(out) != obefore, outs=[], which=[])
    if res["status"] == 0 and kind == "ok":
        after = files(out)
        skel = []
        for f, t in zip(vt, tpls):
            if f in after:
                try:
                    a, s = read(os.path.join(out, f), t)
                except ET.ParseError:
                    a, s = [], None
                res["outs"].append(a)
                skel.append(s)
        cands = [(k + 1, os.path.join(inp, n)) for k, n in enumerate(names)] + ([(0, os.path.join(d, "refdir"))] if withref else [])
        for k, path in cands:
            c = files(path)
            if set(c) == set(after) and all(after[x] == c[x] for x in c if x not in vt) and [skeleton(ET.parse(os.path.join(path, f)).getroot()) for f in vt] == skel:
                res["which"].append(k)
    what = "%s (%d runs of %s)" % (" ".join(cmd[4:]), nruns, [[(a["at"]["piece"], a["at"]["sec"], a["name"], a["type"]) for a in f] for f in (ref + runs)[:1][0]] if ref + runs else [])
    if not ctx.thorough:
        shutil.rmtree(d)
    return [dict(o="setup", runs=runs, ref=ref, there=kind in ("exists", "existsfile"), opt=opt), dict(o="merge", res=res, what=what, err=p.stderr[-300:])]


def check(ctx):
    base = 'SPECIFICATION Spec\nINVARIANTS Complete\nCHECK_DEADLOCK FALSE\nCONSTANTS Names={"a","b"%s}\nSecs={"Points","PointData"%s}\nMaxArr=%d\nVals={0,1,2,5}\n' % ((', "c"', ', "CellData"', 3) if ctx.thorough else ("", "", 3))
    model_check(ctx, "VtkMC", base + 'How="collected"\n')
    for how in ("name", "position"):
        model_check(ctx, "VtkMC", base + 'How="%s"\n' % how, expect_ok=False)
    ctx.log("model checked")
    ctx.pytools = os.path.join(ctx.scratch, "py")
    os.makedirs(ctx.pytools)
    os.symlink(os.path.join(REPO, "src", "tools"), os.path.join(ctx.pytools, "verificarlo"))
    n = 700 if ctx.thorough else 110
    seeds = [ctx.rng.getrandbits(40) for _ in range(n)]
    got = pmap(lambda j: case(ctx, seeds[j], j), range(n))
    ctx.log("recorded")
    ctx.sample([dict(cmd=t[1]["what"], status=t[1]["res"]["status"]) for t in got[:4]])
    traces = [[e for t in c for e in t] for c in chunk(got, 14)]

    def desc(i, t, k):
        e = t[k]
        return "merged output is not the one specified: %s" % e.get("what", "")[:400], dict(setup=t[k - 1], merge=e)
    validate(ctx, "VtkTrace", traces, desc)
    ctx.cov_note.update(cases=n, merged=sum(t[1]["res"]["status"] == 0 for t in got))
    ctx.finish(assumptions=["the runs hold the same arrays of the same lengths; ascii data; every piece has PointData", "an accuracy of samples that are all zero may be 0 or 17 digits"])
