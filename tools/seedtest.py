#!/usr/bin/env python3
"""Development tool: seedtest.py <seed id> [--tests] -- applies seeded/<id>/patch.diff to /repo, rebuilds, runs the demo and
the property's check (and the test suite), and restores /repo."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, VERIF_SEED="1")
def run(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build():
    p = run("bash /opt/vp/build.sh")
    if p.returncode: print(p.stdout[-2000:]); raise SystemExit("build failed")
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
if not ids: ids = sorted(os.listdir(here + "/seeded"))
for i in ids:
    d = here + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    assert not run("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    res = {}
    if "--nodemo" not in sys.argv:
        build()
        p = run("bash %s/demo.sh" % d, cwd="/repo"); res["demo_clean"] = p.returncode
        if p.returncode: print(p.stdout[-1500:])
    p = run("git -C /repo apply %s/patch.diff" % d)
    if p.returncode: print(i, "PATCH FAILS", p.stdout); continue
    try:
        build()
        if "--nodemo" not in sys.argv:
            p = run("bash %s/demo.sh" % d, cwd="/repo"); res["demo_bug"] = p.returncode
        if "--tests" in sys.argv:
            run("bash /opt/vp/test.sh /tmp/seed_out.json")
            o = json.load(open("/tmp/seed_out.json")); b = json.load(open("/opt/vp/BASELINE.json"))
            good = set(b.get("passed", b.get("stable", b.get("tests", []))))
            res["lost"] = sorted(good - set(o["passed"]))
        p = run("python3 %s/checks/run.py %s quick" % (here, meta["property"]), cwd=here, env=env)
        res["check"] = p.returncode
        res["line"] = [l for l in p.stdout.split("\n") if l.startswith("VIOLATION") or "violation:" in l][:1]
        if p.returncode not in (0, 1): res["out"] = p.stdout[-800:]
    finally:
        run("git -C /repo checkout -- .")
    ok = res.get("demo_clean", 0) == 0 and res.get("demo_bug", 1) != 0 and not res.get("lost")
    print(i, "VALID" if ok else "INVALID", "CAUGHT" if res["check"] == 1 else "MISSED", json.dumps(res), flush=True)
build()
