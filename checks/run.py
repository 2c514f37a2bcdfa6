#!/usr/bin/env python3
"""run.py <property> [quick|thorough]"""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "..", "lib"), HERE]
import vlib
pid = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
mod = importlib.import_module(pid.lower())
vlib.run_main(pid, mod.check, tier)
