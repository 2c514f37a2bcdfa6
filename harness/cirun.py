"""Runs vfc_ci test in the current directory, then prints the tables it wrote as JSON on fd 3."""
import glob, json, os, sys, traceback
from verificarlo.ci.__main__ import main
out = os.fdopen(3, "w")
res = dict(status=0, error="")
try:
    main()
except SystemExit as e:
    res["status"] = e.code or 0
except BaseException:
    res["status"] = 1
    res["error"] = traceback.format_exc()[-600:]
import pandas as pd
def num(x):
    try:
        return float(x).hex()
    except (TypeError, ValueError):
        return "?"
def table(f, key, cols, raw):
    t = pd.read_hdf(f, key=key)
    rows = []
    if len(t) == 0:
        return rows
    for idx, r in zip(t.index, t.to_dict("records")):
        d = dict(key=[str(x) if isinstance(x, str) else "?%r" % (x,) for x in idx], check=bool(r["check"]))
        for c in cols:
            d[c] = num(r[c])
        if raw:
            d["values"] = [num(x) for x in r["values"]]
        rows.append(d)
    return rows
try:
    runs, raws = glob.glob("*.vfcrun.h5"), glob.glob("*.vfcraw.h5")
    res["files"] = [len(runs), len(raws)]
    if runs:
        st = ["mu", "sigma", "min", "max", "quantile25", "quantile50", "quantile75", "nsamples"]
        res["data"] = table(runs[0], "data", st, False)
        res["det"] = table(runs[0], "deterministic_data", ["value", "reference_value"], False)
    if raws:
        res["rawdata"] = table(raws[0], "data", [], True)
        res["rawdet"] = table(raws[0], "deterministic_data", ["value", "reference_value"], False)
except Exception:
    res["read_error"] = traceback.format_exc()[-600:]
json.dump(res, out)
