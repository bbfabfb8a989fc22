"""Contracts as proof tasks: a task runs real functions symbolically under a
precondition and discharges postconditions and safety obligations."""
import os
import time
import traceback
from . import terms as T
from . import prover as P
from . import evalt
from .terms import TRUE, FALSE
from .values import *
from .interp import Interp, Diverge, Exc

TASKS = []          # (name, props, func, kwargs)


def task(props, name=None, **kw):
    def deco(f):
        TASKS.append((name or f.__name__, tuple(props), f, kw))
        return f
    return deco


def add_task(props, name, f, **kw):
    TASKS.append((name, tuple(props), f, kw))


class Res:
    def __init__(self, val, st, raises):
        self.val, self.st, self.raises = val, st, raises

    @property
    def ok(self):
        return self.st is not None


class Ctx:
    def __init__(self, repo, name, cross=False):
        self.repo, self.name = repo, name
        self.I = Interp(repo)
        self.out = []
        self.assumed = []
        self.cross = cross
        self.nsafe = 0
        self.per_goal = 100.0 if os.environ.get("VERIF_TIER", "quick") == "quick" else 1200.0
        self.deep = 40.0            # seconds of deep refutation search left

    # ------------------------------------------------------------- running
    def call(self, f, args=(), st=None, kw=None):
        I = self.I
        if isinstance(f, str):
            f = I.fn(f)
        st = (st or St()).copy()
        I.pend = []
        try:
            v = I.call(f, list(args), dict(kw or {}), st)
            r = Res(v, st, list(I.pend))
        except Diverge:
            r = Res(None, None, list(I.pend))
        I.pend = []
        return r

    # ----------------------------------------------------------- obligations
    def check(self, name, hyps, goal, cases=(), hints=None, iff=None):
        t0 = time.time()
        hyps = [h for h in list(self.I.facts) + list(hyps) if h is not TRUE]

        def attempt(limit):
            """(status, information, whether the time was enough)"""
            P.GOAL_LIMIT[0] = time.process_time() + limit
            try:
                st, info = P.prove_u(hyps, goal, hints) if hints is not None else P.prove_cases(hyps, goal, tuple(cases)) if cases else P.prove(hyps, goal)
                if st != "proved" and not cases and hints is None:
                    st, info = P.prove_cases(hyps, goal)
                if st != "proved" and iff and P.split_paths(hyps + [iff[0]], iff[1]) and P.split_paths(hyps + [iff[1]], iff[0]):
                    st = "proved"
            except P.Unknown as e:
                st, info = "unknown", str(e)
            except RecursionError:
                st, info = "unknown", "recursion"
            over = time.process_time() > P.GOAL_LIMIT[0]
            P.GOAL_LIMIT[0] = float("inf")
            return st, info, not over

        def falsify():
            if self.I.inexact:
                return None
            t1 = time.time()
            cex = evalt.falsify(hyps, goal, deep=max(0.0, min(6.0, self.deep)))
            self.deep -= max(0.0, time.time() - t1 - 3)
            return cex
        cex = None
        st, info, done = attempt(12.0)
        if st != "proved":
            cex = falsify()
            if cex is None and not done:
                st, info, _ = attempt(self.per_goal)
            if st != "proved":
                st = "refuted" if cex is not None else "unknown"
        self.out.append(dict(name=self.name + ": " + name, status=st, backend="z3+sum-nf",
                             t=round(time.time() - t0, 3), why=None if st == "proved" else str(info)[:1500], cex=cex))
        return st == "proved"

    def unknown(self, name, why):
        self.out.append(dict(name=self.name + ": " + name, status="unknown", backend="engine", t=0.0, why=str(why)[:1500], cex=None))

    def refute(self, name, why):
        self.out.append(dict(name=self.name + ": " + name, status="refuted", backend="engine", t=0.0, why=str(why)[:1500], cex=None))

    def sc(self, name, hyps, got, want, cases=(), hints=None):
        """Extended-real equality of two scalars (never NaN)."""
        if not isinstance(got, Sc):
            self.unknown(name, "result is not a number: %r" % (got,))
            return
        hyps = list(hyps)
        if not (got.finite and want.finite):
            self.check(name + " [+inf]", hyps, T.eq(got.pinf, want.pinf), hints=hints, iff=(got.pinf, want.pinf))
            self.check(name + " [-inf]", hyps, T.eq(got.ninf, want.ninf), hints=hints, iff=(got.ninf, want.ninf))
            self.check(name + " [not NaN]", hyps, T.eq(got.nan, want.nan), hints=hints, iff=(got.nan, want.nan))
        fin = T.not_(want.special)
        self.check(name, hyps + [fin, T.not_(got.special)], T.eq(T.toreal(got.e), T.toreal(want.e)), cases, hints)

    def sums(self, pre, basis, exprs):
        """Replacement of closed sums by the basis variables they provably equal."""
        pre = [h for h in list(self.I.facts) + list(pre) if h is not TRUE]
        ren = {}
        for e in exprs:
            for s in P.top_binders(e):
                if s in ren or s.op != "sum" or any(v.args[0].startswith("#") for v in s.fv if v.op == "var"):
                    continue
                for t, v in basis:
                    try:
                        if P.prove(pre, T.eq(T.toreal(s), T.toreal(t)))[0] == "proved":
                            ren[s] = T.toreal(v) if s.sort == "R" else v
                            break
                    except P.Unknown:
                        pass
        return ren

    def sc_abs(self, name, pre, hyps, got, want, basis, facts):
        """As sc, with sums proved equal (under pre) to basis terms replaced by
        unknowns satisfying the (proved) facts."""
        hyps = [h for h in hyps if h not in pre]
        fs = lambda s: [s.e, s.pinf, s.ninf, s.nan]
        ren = self.sums(pre, basis, hyps + fs(got) + fs(want) + list(facts))
        f = lambda e: P.replace(e, ren)
        g, w = [Sc(*[f(x) for x in fs(s)]) for s in (got, want)]
        n = len(self.out)
        self.sc(name, [f(h) for h in list(pre) + hyps + list(facts)], g, w)
        if any(o["status"] != "proved" for o in self.out[n:]):
            del self.out[n:]
            self.sc(name, list(pre) + hyps + list(facts), got, want)

    def no_raise(self, name, r, pre=(), hints=None):
        for o in r.raises:
            self.check("%s raises no %s" % (name, o.val.name), list(pre) + list(o.st.pc), FALSE, hints=hints)

    def safety(self):
        I = self.I
        seen = set()
        n = 0
        for nm, h, g in I.obl[self.nsafe:]:
            key = (nm, tuple(x.id for x in h), g.id)
            if key in seen:
                continue
            seen.add(key)
            n += 1
            self.check("safety %d: %s" % (n, nm), h, g)
        self.nsafe = len(I.obl)

    def sane(self, hyps):
        """Vacuity guard: the precondition is satisfiable."""
        hyps = [h for h in list(self.I.facts) + list(hyps) if h is not TRUE]
        st = P.valid(hyps, FALSE)
        ok = st != "proved"
        self.out.append(dict(name=self.name + ": precondition is satisfiable", status="proved" if ok else "unknown",
                             backend="z3", t=0.0, why=None if ok else "vacuous", cex=None, meta=True))


def run_task(repo, entry):
    name, props, f, kw = entry
    C = Ctx(repo, name)
    t0 = time.time()
    try:
        f(C, **kw)
        C.safety()
    except Unsupported as e:
        C.unknown("within the verifier's reach", "Unsupported: %s" % e)
    except P.Unknown as e:
        C.unknown("within the verifier's reach", "Unknown: %s" % e)
    except Exception as e:
        C.unknown("within the verifier's reach", "engine error: %s\n%s" % (e, traceback.format_exc()[-900:]))
    return dict(name=name, props=props, obligations=C.out, functions=dict(C.I.used), assumed=C.assumed,
                t=round(time.time() - t0, 2))


# ------------------------------------------------------------- input makers
def real(n):
    return Sc(T.var(n, "R"))


def nonneg_ext(n):
    """Non-negative extended real: value and its facts."""
    e, inf = T.var(n, "R"), T.var(n + ".inf", "B")
    return Sc(e, pinf=inf), [T.le(T.R(0), e)]


def vec(I, st, name, n, sort="R", kind=None):
    return I.alloc(st, Arr((n,), lambda ix: Sc(T.app(name, ix, sort)), kind or {"R": "f", "I": "i", "B": "b"}[sort]))


def mat(I, st, name, n, m, sort="R", kind=None):
    return I.alloc(st, Arr((n, m), lambda ix: Sc(T.app(name, ix, sort)), kind or {"R": "f", "I": "i", "B": "b"}[sort]))
