"""Run the executable contracts of one property against /repo's working tree.
usage: run.py PROP --tier T --seed S --out FILE [--case ID]"""
import argparse
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default="quick")
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--out", default=None)
ap.add_argument("--case", default=None)
ap.add_argument("--max-fail", type=int, default=5)
a = ap.parse_args()
t0 = time.time()
import io
import contextlib

res = dict(prop=a.prop, tier=a.tier, seed=a.seed, ok=False, import_error=None)
rec = None
try:
    import common
    rec = common.Recorder(a.prop, a.tier, a.seed, only=a.case, max_fail=a.max_fail)
    import models_cases as mc
    import cond_cases as cc
    import graph_cases as gc
    import misc_cases as xc
    table = {
        "C01": mc.c01, "C02": mc.c02, "C03": mc.c03, "C04": xc.c04, "C05": mc.c05, "C06": mc.c06, "C07": mc.c07,
        "C08": mc.c08, "C09": mc.c09, "C10": mc.c10, "C11": mc.c11, "C12": mc.c12, "C13": mc.c13,
        "C14": gc.c14, "C15": gc.c15, "C16": cc.c16, "C17": mc.c17, "C18": xc.c18, "C19": xc.c19,
    }
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        try:
            table[a.prop](rec)
        except common.Stop:
            pass
        if a.prop == "C16" and a.case is None:
            res["known"] = cc.known_findings(rec)
    res["ok"] = True
except Exception as err:
    import traceback
    res["import_error"] = traceback.format_exc()
if rec is not None:
    res.update(cases=rec.cases, evals=rec.evals, failures=rec.failures, obligations=rec.names,
               samples=rec.samples, skipped=rec.skipped[:20], n_skipped=len(rec.skipped), jit=common.JIT)
res["wall"] = time.time() - t0
s = json.dumps(res, default=str)
if a.out:
    open(a.out, "w").write(s)
else:
    print(s)
