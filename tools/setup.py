#!/usr/bin/env python3
"""Nothing has to be installed: check that the tools the checks use are there, and parse the specifications."""
import glob, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("java", "python3", "clang"):
    if subprocess.run(["which", t], stdout=subprocess.DEVNULL).returncode:
        sys.exit("missing " + t)
os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
os.makedirs(os.path.join(here, "out"), exist_ok=True)
bad = 0
for f in sorted(glob.glob(here + "/spec/*.tla")):
    p = subprocess.run(["java", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tla2sany.SANY", f],
                       cwd=here + "/spec", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode or "rrors" in p.stdout:
        print(f, p.stdout[-500:])
        bad = 1
sys.exit(bad)
