"""The runtime hash map."""
import random
from vlib import *


def check(ctx):
    for ks, b in (("0,4,8,3", 2), ("0,1,2,3,4", 2)) if not ctx.thorough else (("0,4,8,12,3", 2), ("0,1,2,3,4,8", 2), ("0,8,16,1,5,3", 3)):
        model_check(ctx, "HashTable", "SPECIFICATION Spec\nINVARIANTS Refines Counts OneEach Room\nCHECK_DEADLOCK FALSE\nCONSTANTS Keys={%s}\nVals={5,6}\nBits0=%d\nMaxLen=%d\nStep1=5009\n" % (ks, b, 8 if ctx.thorough else 6))
    ctx.log("model checked")
    exe = ctx.path("hashdrv")
    sh([CLANG, "-O1", "-g", "-fsanitize=address", "-I", INST + "/include", VERIF + "/harness/hashdrv.c", "-Wl,-rpath," + INST + "/lib", "-L" + INST + "/lib",
        "-linterflop_hashmap", "-linterflop_stdlib", "-o", exe], check=True)
    N = 120 if ctx.thorough else 24
    seeds = [ctx.rng.getrandbits(40) for _ in range(N)]

    def one(j):
        r = random.Random(seeds[j])
        evs, cmds = [dict(o="new")], ["N"]
        kind = j % 6
        space = {0: lambda: r.randrange(12), 1: lambda: r.randrange(64) << r.choice([0, 3, 4, 5, 32]), 2: lambda: r.choice([0, 1, 2, (1 << 64) - 1, 1 << 63, 0x400000 + 4 * r.randrange(300)]),
                 3: lambda: 0x401000 + r.randrange(2000), 4: lambda: r.getrandbits(64), 5: lambda: 512 * r.randrange(40)}[kind]
        m = {}
        vals = [2, 3, 4, (1 << 64) - 1, 0x5000, 0x6000] if r.random() < 0.5 else None  # values shared by several keys, or not
        steps = r.choice([40, 150, 600 if not ctx.thorough else 2500])
        grow = r.choice([0.3, 0.5, 0.8])
        for _ in range(steps):
            x = r.random()
            k = space() if r.random() < 0.6 or not m else r.choice(list(m))
            if x < grow:
                if k in m:
                    k = space()
                if k in m:
                    continue
                v = r.choice(vals) if vals else r.randint(2, 1 << 62)
                m[k] = v
                evs.append(dict(o="ins", k="%x" % k, v="%x" % v))
                cmds.append("i %x %x" % (k, v))
                if r.random() < 0.2:   # a present entry again
                    k = r.choice(list(m))
                    evs.append(dict(o="ins", k="%x" % k, v="%x" % m[k]))
                    cmds.append("i %x %x" % (k, m[k]))
            elif x < grow + 0.2:
                m.pop(k, None)
                evs.append(dict(o="rem", k="%x" % k))
                cmds.append("r %x" % k)
            elif x < 0.97:
                w = r.choice("hg")
                evs.append(dict(o={"h": "have", "g": "get"}[w], k="%x" % k))
                cmds.append("%s %x" % (w, k))
            elif x < 0.985:
                evs.append(dict(o="num"))
                cmds.append("n")
            else:
                evs.append(dict(o="walk"))
                cmds.append("w")
        for k in list(m)[:50]:
            evs.append(dict(o="get", k="%x" % k))
            cmds.append("g %x" % k)
        evs += [dict(o="num"), dict(o="walk")]
        cmds += ["n", "w"]
        p = sh([exe], env=base_env(ASAN_OPTIONS="detect_leaks=0"), inp="\n".join(cmds) + "\n", timeout=60)
        out = p.stdout.split("\n")[:-1]
        if p.returncode or len(out) != len(cmds):
            return dict(what="the map %s at %r" % ("hangs" if p.returncode == -999 else "fails", cmds[min(len(out), len(cmds) - 1)]), rc=p.returncode, cmds=cmds, err=p.stderr[-800:])
        for e, o in zip(evs, out):
            if e["o"] == "have":
                e["r"] = o == "1"
            elif e["o"] == "get":
                e["r"] = o
            elif e["o"] == "num":
                e["n"] = int(o)
            elif e["o"] == "walk":
                w = o.split()[:-1]
                e["ks"], e["vs"] = w[0::2], w[1::2]
        return evs
    trs = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for t in ex.map(one, range(N)):
            if isinstance(t, dict):
                ctx.violation(t["what"], t)
            else:
                trs.append(t)
    ctx.cov_note["histories"] = len(trs)
    ctx.cov_note["map_operations"] = sum(map(len, trs))
    ctx.sample(trs[0][:12] if trs else None)
    groups = [sum(trs[g::NCPU], []) for g in range(NCPU)]
    validate(ctx, "HashMapTrace", groups, lambda i, t, k: ("no map behaves so: after %s, %s" % (json.dumps([e for e in t[max(0, k - 400):k] if e.get("k") == t[k].get("k")][-6:]), json.dumps(t[k])[:300]), t[max(0, k - 60):k + 1]))
    # many entries; entries owned by the map are released once each, whatever was removed before
    big, extra = [(300, 1), (1000, 4), (5000, 1), (40000, 16), (150000, 4096)] + ([(2000000, 1)] if ctx.thorough else []), []
    for n, k in big + [(ctx.rng.randint(1, 9000), ctx.rng.choice([1, 5, 512, 5009, 1 << 20, (1 << 40) + 1])) for _ in range(6)]:
        p = sh([exe], inp="B %x %x\n" % (n, k), env=base_env(ASAN_OPTIONS="detect_leaks=0"), timeout=60)
        w = p.stdout.split()
        if p.returncode or len(w) != 5:
            ctx.violation("a map of %d entries whose keys are %d apart %s" % (n, k, "hangs" if p.returncode == -999 else "fails"), dict(rc=p.returncode, err=p.stderr[-1500:]))
            break
        else:
            extra.append(dict(o="bulk", n=n, step=str(k), size=int(w[0]), found=int(w[1]), size2=int(w[2]), found2=int(w[3]), gone=int(w[4])))
    for n, k in ((0, 0), (1, 0), (1, 1), (5, 2), (40, 17), (200, 200), (700, 3)):
        p = sh([exe], inp="F %x %x\n" % (n, k), env=base_env(ASAN_OPTIONS="detect_leaks=0"), timeout=60)
        if p.returncode or not p.stdout.strip().isdigit():
            ctx.violation("freeing a map of %d entries, %d of them removed, goes wrong" % (n, k), dict(err=p.stderr[-1500:]))
        else:
            extra.append(dict(o="release", n=n, k=k, freed=int(p.stdout)))
    ctx.cov_note["largest_map"] = max(n for n, k in big)
    validate(ctx, "HashMapTrace", [extra], lambda i, t, k: ("no map behaves so: %s" % json.dumps(t[k]), t[k]))
    ctx.finish(assumptions=["values are neither 0 nor 1, which the table reserves", "a key is inserted again only with the same value"])
