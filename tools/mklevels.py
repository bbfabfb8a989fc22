"""tools/levels.json: level, technique and notes per property."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
TE = "contract-based deductive verification: contracts on the functions extracted from /repo on every run, obligations discharged by an own VC generator (sum normal form + z3)"
BO = "executable contracts on the real code, bounded (graphs up to 6 vertices, all option combinations)"
A = "Assumes exact extended-real arithmetic, numba = Python source, assumed contracts for numpy/scipy/pandas/Spark (engine/trusted.py)."
D = {}


def add(i, level, decided, bounded, why=None):
    note = ("Proved: " if level == "proof" else "Contracts: ") + decided + " Bounded only: " + (bounded or "nothing.") + " " + A
    D[i] = dict(level=level, technique=TE if level == "proof" else TE + "; bounded stand-in: " + BO, note=note, decided=decided, bounded=bounded or "nothing.")
    if why:
        D[i]["why"] = why


exec(open(os.path.join(H, "levels.txt")).read())
json.dump(D, open(os.path.join(H, "levels.json"), "w"), indent=1)
