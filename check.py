#!/usr/bin/env python3
"""Decide one property of graph-ensembles on /repo's current working tree.

  check.py PROP [--tier quick|thorough]     run, write evidence/PROP.json
  check.py PROP --replay FILE               re-run the failing input of FILE

1. deductive part (engine/run.py, under python3-vt): contracts over the
   functions extracted from /repo's source, every obligation sent to the solvers;
2. executable contracts (replay/run.py, under /opt/venv/bin/python): the same
   contracts evaluated on the real code for concrete inputs.  They replay
   refuted obligations and are the labelled bounded stand-in where an
   obligation is out of the verifier's reach."""
import argparse
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.path.join(HERE, "evidence")
VT = "/opt/veriftools/pyvenv/bin/python"
PY = "/opt/venv/bin/python"

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
ap.add_argument("--replay", default=None)
ap.add_argument("--no-replay", action="store_true")
ap.add_argument("--no-engine", action="store_true")
ap.add_argument("-v", action="store_true")
a = ap.parse_args()
T0 = time.time()
PROP = a.prop
os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
WORK = os.path.join(EVID, "work")
os.makedirs(WORK, exist_ok=True)


def env(jit):
    e = dict(os.environ)
    e["VERIF_REPO"] = REPO
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["NUMBA_CACHE_DIR"] = os.path.join(WORK, "numba-%s" % PROP)
    e["OMP_NUM_THREADS"] = e["OPENBLAS_NUM_THREADS"] = "2"
    e["NUMBA_DISABLE_JIT"] = "0" if jit else "1"
    e["PYTHONHASHSEED"] = "0"
    return e


def start_replay(jit, extra=()):
    out = os.path.join(WORK, "%s-%d-%d.json" % (PROP, jit, os.getpid()))
    cmd = [PY, os.path.join(HERE, "replay", "run.py"), PROP, "--tier", a.tier, "--seed", str(a.seed), "--out", out, *extra]
    return out, subprocess.Popen(cmd, env=env(jit), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, cwd=WORK)


def finish(job, limit):
    out, p = job
    try:
        _, err = p.communicate(timeout=max(5, limit - (time.time() - T0)))
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return dict(ok=False, import_error="time limit", timeout=True)
    try:
        r = json.load(open(out))
        os.remove(out)
        return r
    except Exception as e:
        return dict(ok=False, import_error="no result (%r): %s" % (e, (err or "")[-1500:]))


if a.replay:
    d = json.load(open(a.replay))
    bad = False
    for f in d.get("failures", []):
        r = finish(start_replay(bool(f.get("jit")), ["--case", f["case"]]), 600)
        for g in r.get("failures", []):
            bad = True
            print("reproduced:", json.dumps(g, indent=1)[:3000])
    for o in d.get("obligations", []):
        print("failed obligation:", json.dumps(o, indent=1)[:3000])
    sys.exit(1 if bad else 0)

LIMIT = 800 if a.tier == "quick" else 6 * 3600
jobs = []
if not a.no_replay:
    jobs = [start_replay(False), start_replay(True)]
eng = None
engine = os.path.join(HERE, "engine", "run.py")
if os.path.exists(engine) and not a.no_engine:
    out = os.path.join(WORK, "%s-eng-%d.json" % (PROP, os.getpid()))
    cmd = [VT, engine, PROP, "--tier", a.tier, "--repo", REPO, "--out", out]
    eng = (out, subprocess.Popen(cmd, env=env(False), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, cwd=WORK))

res = [finish(j, LIMIT) for j in jobs]
if eng and any(r.get("failures") for r in res):
    open(eng[0] + ".stop", "w").close()     # a failing input decides: no need to start further proof tasks
er = finish(eng, LIMIT) if eng else None

known_file = json.load(open(os.path.join(HERE, "known-findings.json")))
KNOWN = {k["id"]: k for k in known_file["findings"]}
violations, messages = [], []
failures = [f for r in res for f in r.get("failures", []) or []]
broken = [r for r in res if r.get("import_error") and not r.get("timeout")]
for r in broken:
    # the working tree cannot even be loaded, or the harness itself failed
    failures.append(dict(obligation="the package can be imported and exercised", case=None, input=None,
                         detail=r["import_error"][-2500:], jit=None))
if failures:
    path = os.path.join(EVID, "replay", "%s-failing-input.json" % PROP)
    json.dump(dict(property=PROP, failures=failures, rerun="python3 %s %s --replay %s" % (os.path.abspath(__file__), PROP, path)),
              open(path, "w"), indent=1, default=str)
    violations.append((path, ""))

obl = (er or {}).get("obligations", [])
refuted = [o for o in obl if o["status"] == "refuted"]
if refuted and not failures:
    path = os.path.join(EVID, "replay", "%s-obligation.json" % PROP)
    json.dump(dict(property=PROP, obligations=refuted, failures=[]), open(path, "w"), indent=1, default=str)
    violations.append((path, " no-failing-input-found"))

known_seen = []
for r in res:
    for k in r.get("known", []) or []:
        if k in KNOWN and k not in known_seen:
            known_seen.append(k)
for k in known_seen:
    print("KNOWN-FINDING: property=%s %s" % (PROP, KNOWN[k]["what"]))

proved = [o for o in obl if o["status"] == "proved"]
bounded = [o for o in obl if o["status"] not in ("proved", "refuted")]
evals = sum(r.get("evals", 0) for r in res)
cases = sum(r.get("cases", 0) for r in res)
level = "proof" if proved and not bounded else ("proof" if proved else "exploration")
def by_task(obl):
    """Per task: obligations discharged, solver time, and their names (the
    safety obligations of the code as one number)."""
    out = {}
    for o in obl:
        t, _, n = o["name"].partition(": ")
        if n.startswith("safety ") or ": safety " in o["name"]:
            t, n = o["name"].split(": safety ")[0], None
        d = out.setdefault(t, dict(discharged=0, safety=0, seconds=0.0, names=[]))
        d["discharged"] += o["status"] == "proved"
        d["seconds"] = round(d["seconds"] + (o.get("t") or 0), 3)
        if n is None:
            d["safety"] += 1
        elif n not in d["names"]:
            d["names"].append(n)
    return out


cov = dict(
    obligations=len(obl),
    discharged=len(proved),
    refuted=len(refuted),
    undecided_bounded=len(bounded),
    checker_cmd="%s engine/run.py %s --tier %s --repo %s" % (VT, PROP, a.tier, REPO),
    trusted_base=(er or {}).get("trusted", []),
    functions_under_contract=(er or {}).get("functions", []),
    back_ends=(er or {}).get("backends", {}),
    solver_seconds=(er or {}).get("solver_s", 0),
    obligation_list=by_task(obl),
    not_discharged=[dict(name=o["name"], status=o["status"], backend=o.get("backend"), seconds=o.get("t"), why=o.get("why")) for o in obl if o["status"] != "proved"][:200],
    bounded_skipped=[s for r in res for s in r.get("skipped", []) or []][:20],
    bounded_contracts=sorted({k for r in res for k in (r.get("obligations") or {})}),
    evaluations=evals,
    distinct_nontrivial=cases,
    rule="bounded stand-in: one evaluation per executable contract checked on the real code; a case is one distinct input (run with the JIT off and on)",
    bounds="executable contracts: %d concrete cases (JIT off and on), sizes as in replay/*.py" % cases,
    samples=[s for r in res for s in r.get("samples", []) or []][:4],
    engine_error=(er or {}).get("import_error"),
)
ev = dict(
    property=PROP, tier=a.tier, seed=a.seed, level=level, coverage=cov,
    assumptions=(er or {}).get("assumptions", []) + [
        "bounded stand-ins decide only the concrete cases counted under coverage.distinct_nontrivial",
    ],
    wall_s=round(time.time() - T0, 2),
    violations=len(violations),
)
json.dump(ev, open(os.path.join(EVID, PROP + ".json"), "w"), indent=1, default=str)
print("%s tier=%s obligations=%d discharged=%d refuted=%d bounded-only=%d; executable contracts: %d cases, %d evaluations; %.1fs" % (
    PROP, a.tier, len(obl), len(proved), len(refuted), len(bounded), cases, evals, time.time() - T0))
if a.v:
    for o in obl:
        if o["status"] != "proved":
            print("  ", o["status"], o["name"], (o.get("why") or "")[:300])
if not violations and cases == 0 and not proved:
    print("nothing was checked", [r.get("import_error") for r in res])
    sys.exit(2)
if violations:
    for f in failures[:5]:
        print("  failing: %s | %s | %s" % (f["obligation"], f["case"], str(f["detail"])[-400:]))
    for o in refuted[:5]:
        print("  failed obligation:", o["name"], (o.get("why") or "")[:300])
    path, suf = violations[0]
    print("VIOLATION property=%s replay=%s%s" % (PROP, path, suf))
    sys.exit(1)
sys.exit(0)
