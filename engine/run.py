#!/usr/bin/env python3
"""Deductive part of the check of one property: run every proof task that
serves the property over /repo's current source and report each obligation.

  run.py PROP --tier quick|thorough --repo /repo --out FILE"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import resource
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)


def child(repo, entry, conn, mem):
    sys.setrecursionlimit(20000)
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    from engine import contract, prover
    try:
        r = contract.run_task(repo, entry)
        r["solver_s"] = prover.STAT.get("z3_s", 0.0)
        r["queries"] = prover.STAT.get("z3_calls", 0)
    except MemoryError:
        r = None
    conn.send(r)
    conn.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--out", default=None)
    ap.add_argument("--only", default=None)
    ap.add_argument("-j", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    T0 = time.time()
    os.environ["VERIF_TIER"] = a.tier
    total = 640 if a.tier == "quick" and a.prop != "all" else 5 * 3600
    per = 240 if a.tier == "quick" else 3600
    import contracts
    from engine import contract
    for m in pkgutil.iter_modules(contracts.__path__):
        importlib.import_module("contracts." + m.name)
    todo = [e for e in contract.TASKS if (a.prop == "all" or a.prop in e[1]) and (a.only is None or a.only in e[0])]
    todo.sort(key=lambda e: -e[3].get("cost", 1) if isinstance(e[3], dict) else 0)
    running, done = [], []
    queue = list(todo)
    ctx = mp.get_context("fork")
    while queue or running:
        while queue and len(running) < a.j and time.time() - T0 < total:
            e = queue.pop(0)
            rx, tx = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(a.repo, e, tx, 6 << 30))
            p.start()
            tx.close()
            running.append((e, p, rx, time.time()))
        bad = sum(1 for _, r, _ in done if r and any(o["status"] == "refuted" for o in r["obligations"]))
        if os.path.exists(a.out + ".stop" if a.out else "/nonexistent"):
            bad = max(bad, 8)
        if queue and (time.time() - T0 >= total or (bad >= 8 and time.time() - T0 > 120)):
            for e in queue:
                done.append((e, None, "not started: %s" % ("time budget used up" if bad < 8 else "violation already established")))
            queue = []
        for it in list(running):
            e, p, rx, t0 = it
            if rx.poll(0):
                try:
                    r = rx.recv()
                except EOFError:
                    r = None
                p.join()
                running.remove(it)
                done.append((e, r, None if r else "worker ended (memory or crash)"))
            elif time.time() - t0 > per or time.time() - T0 > total + 60:
                p.kill()
                p.join()
                running.remove(it)
                done.append((e, None, "time limit"))
            elif not p.is_alive() and not rx.poll(0):
                running.remove(it)
                done.append((e, None, "worker ended"))
        time.sleep(0.01)
    obl, funcs, assumed, solver_s, queries, backends = [], {}, set(), 0.0, 0, {}
    for e, r, why in sorted(done, key=lambda x: x[0][0]):
        if r is None:
            obl.append(dict(name=e[0] + ": all obligations", status="unknown", backend="engine", t=0.0, why=why))
            continue
        obl += r["obligations"]
        for k, v in r["functions"].items():
            funcs[str(k)] = v
        assumed |= set(r["assumed"])
        solver_s += r.get("solver_s", 0)
        queries += r.get("queries", 0)
        if a.v:
            st = [o["status"] for o in r["obligations"]]
            print("%-70s %6.1fs proved %d of %d" % (r["name"], r["t"], st.count("proved"), len(st)), [(o["name"].split(": ", 1)[1], o["status"], (o["why"] or "")[:160]) for o in r["obligations"] if o["status"] != "proved"][:4])
    for o in obl:
        backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    from engine import trusted
    out = dict(ok=True, obligations=obl, functions=sorted(funcs), tasks=len(todo), solver_s=round(solver_s, 2), queries=queries,
               backends=backends, trusted=trusted.TRUSTED, assumptions=trusted.ASSUMPTIONS + sorted(assumed), wall_s=round(time.time() - T0, 2))
    if a.out:
        json.dump(out, open(a.out, "w"), indent=1, default=str)
    else:
        c = {}
        for o in obl:
            c[o["status"]] = c.get(o["status"], 0) + 1
        print(c, "tasks", len(todo), "solver", out["solver_s"], "queries", queries, "wall", out["wall_s"])


if __name__ == "__main__":
    main()
