"""Executable side of the contracts: builders for the real objects of /repo,
reference values (the specification functions, written independently of the
code) and the recorder of failing inputs.  Runs under /opt/venv/bin/python with
the working tree of /repo first on sys.path; nothing here is imported by the
deductive engine."""
import copy
import itertools
import json
import math
import os
import signal
import sys
import traceback
import warnings
import zlib

os.environ.setdefault("PYSPARK_PYTHON", "/opt/venv/bin/python")
os.environ.setdefault("SPARK_LOCAL_IP", "127.0.0.1")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
import numpy as np
import pandas as pd
import scipy.sparse as sp

warnings.simplefilter("ignore")
import graph_ensembles as ge
import graph_ensembles.sparse as gs
import graph_ensembles.models as dm
import graph_ensembles.graphs as dgraphs
import graph_ensembles.sparse.graphs as sgraphs
import graph_ensembles.sparse.models as sm
import graph_ensembles.solver as solver_mod
import graph_ensembles.lib as ge_lib

JIT = os.environ.get("NUMBA_DISABLE_JIT", "0") != "1"
INF = math.inf
NOSHIP = False

_spark = None


def spark():
    global _spark
    if _spark is None:
        import graph_ensembles.spark.models as km

        _spark = km
    return _spark


# ---------------------------------------------------------------- stand-in RDD
_fake = {}


def fake_sc():
    """A SparkContext whose parallelize() returns an in-process RDD: every
    element is one partition, closures are pickled with Spark's own pickler and
    data is copied, as the real scheduler does."""
    if "sc" in _fake:
        return _fake["sc"]
    import pickle

    from pyspark import SparkContext, cloudpickle

    class RDD:
        def __init__(self, get):
            self._get = get

        def _ship(self, f):
            if JIT or NOSHIP:
                return f
            try:
                return pickle.loads(cloudpickle.dumps(f))
            except Exception as err:  # what the real scheduler would raise
                raise RuntimeError("closure cannot be shipped: %r" % err)

        def map(self, f, preservesPartitioning=False):
            return RDD(lambda: [self._ship(f)(x) for x in self._get()])

        def flatMap(self, f, preservesPartitioning=False):
            return RDD(lambda: [y for x in self._get() for y in self._ship(f)(x)])

        def filter(self, f):
            return RDD(lambda: [x for x in self._get() if self._ship(f)(x)])

        def collect(self):
            return list(self._get())

        def cache(self):
            return self

        persist = unpersist = cache

        def count(self):
            return len(self._get())

        def fold(self, zero, op):
            parts = [op(copy.deepcopy(zero), x) for x in self._get()]
            acc = copy.deepcopy(zero)
            for x in parts:
                acc = op(acc, x)
            return acc

        def reduce(self, op):
            it = self._get()
            acc = it[0]
            for x in it[1:]:
                acc = op(acc, x)
            return acc

        def aggregate(self, zero, sop, cop):
            parts = [sop(copy.deepcopy(zero), x) for x in self._get()]
            acc = copy.deepcopy(zero)
            for x in parts:
                acc = cop(acc, x)
            return acc

        def treeReduce(self, op, depth=2):
            return self.reduce(op)

        def sum(self):
            return sum(self._get())

    class FakeContext(SparkContext):
        def __init__(self):
            pass

        def parallelize(self, c, numSlices=None):
            data = list(c)
            return RDD(lambda: copy.deepcopy(data) if not JIT else list(data))

        def broadcast(self, value):
            class B:
                pass

            b = B()
            b.value = value
            return b

    _fake["sc"] = FakeContext()
    return _fake["sc"]


# ------------------------------------------------------------------- recorder
class Stop(Exception):
    pass


CASE_LIMIT = 200            # seconds; the slowest case takes a few


class Hung(BaseException):
    pass


def hung(*a):
    raise Hung()


class Recorder:
    def __init__(self, prop, tier, seed, only=None, max_fail=5):
        self.prop, self.tier, self.seed, self.only = prop, tier, seed, only
        self.evals = 0
        self.cases = 0
        self.failures = []
        self.findings = []
        self.names = {}
        self.samples = []
        self.max_fail = max_fail
        self.case_id = None
        self.case_in = None
        self.skipped = []

    def fail(self, obl, detail):
        self.failures.append(
            {
                "obligation": obl,
                "case": self.case_id,
                "input": self.case_in,
                "detail": detail,
                "jit": JIT,
            }
        )
        if len(self.failures) >= self.max_fail:
            raise Stop()

    def true(self, obl, cond, detail=""):
        self.evals += 1
        self.names[obl] = self.names.get(obl, 0) + 1
        if not cond:
            self.fail(obl, str(detail)[:2000])
        return bool(cond)

    def eq(self, obl, got, want, rtol=1e-8, atol=1e-11, detail=""):
        self.evals += 1
        self.names[obl] = self.names.get(obl, 0) + 1
        try:
            g = dense(got)
            w = np.asarray(want)
            ok = g.shape == w.shape
            if ok:
                g = g.astype(float)
                w = w.astype(float)
                with np.errstate(all="ignore"):
                    ok = bool(
                        np.all(
                            (g == w)
                            | (np.isfinite(g) & np.isfinite(w)
                               & (np.abs(g - w) <= atol + rtol * np.abs(w)))
                        )
                    )
        except Exception as err:
            self.fail(obl, "not comparable: %r vs %r (%r) %s" % (got, want, err, detail))
            return False
        if not ok:
            self.fail(obl, "got %s expected %s %s" % (short(got), short(want), detail))
        return ok

    def raises(self, obl, exc, fun, detail=""):
        self.evals += 1
        self.names[obl] = self.names.get(obl, 0) + 1
        try:
            r = fun()
        except exc:
            return True
        except Exception as err:
            self.fail(obl, "raised %r instead of %s %s" % (err, exc, detail))
            return False
        self.fail(obl, "accepted (%s) %s" % (short(r), detail))
        return False

    def run(self, case_id, fun, inp=None):
        """Run one case; an exception of the code under test is a failure."""
        if self.only is not None and case_id != self.only:
            return
        self.case_id = case_id
        self.case_in = describe(inp)
        self.cases += 1
        if len(self.samples) < 3:
            self.samples.append({"case": case_id, "input": self.case_in})
        signal.signal(signal.SIGALRM, hung)
        signal.alarm(CASE_LIMIT)
        try:
            fun()
            signal.alarm(0)
        except Stop:
            raise
        except Hung:
            self.evals += 1
            self.fail("terminates", "still running after %d s" % CASE_LIMIT)
            raise Stop()
        except Skip as s:
            self.skipped.append("%s: %s" % (case_id, s))
        except Exception as err:
            self.evals += 1
            self.fail("no-exception", "%r\n%s" % (err, traceback.format_exc()[-1500:]))
        finally:
            signal.alarm(0)


class Skip(Exception):
    pass


def dense(a):
    if sp.issparse(a):
        return np.asarray(a.toarray())
    if isinstance(a, (list, tuple)) and len(a) and sp.issparse(a[0]):
        return np.array([x.toarray() for x in a])
    return np.asarray(a)


def short(a):
    try:
        return np.array2string(dense(a), threshold=40, precision=12).replace("\n", " ")[:900]
    except Exception:
        return repr(a)[:900]


def describe(x):
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    if isinstance(x, dict):
        return {str(k): describe(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [describe(v) for v in x][:60]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray) or sp.issparse(x):
        d = dense(x)
        return d.tolist() if d.size <= 400 else short(d)
    if isinstance(x, pd.DataFrame):
        return x.to_dict("list") if len(x) <= 60 else repr(x)
    return repr(x)[:300]


def gen(*key):
    """Deterministic generator for a named case."""
    return np.random.RandomState(zlib.crc32(repr(key).encode()) % (2**31))


# ------------------------------------------------------------ specification
def p_spec(kind, d, x, y, z=1.0):
    """Link probability of the model definition on [0, inf]."""
    if d == 0 or x == 0 or y == 0 or z == 0:
        return 0.0
    t = float(d) * float(x) * float(y) * float(z)
    if math.isinf(t):
        return 1.0
    if kind == "fit":
        return t / (1.0 + t)
    return -math.expm1(-t)


def odds_spec(d, x, y, z=1.0):
    if d == 0 or x == 0 or y == 0 or z == 0:
        return 0.0
    return float(d) * float(x) * float(y) * float(z)


def logp_spec(kind, d, x, y, z=1.0):
    t = odds_spec(d, x, y, z)
    if t == 0:
        return -INF
    if math.isinf(t):
        return 0.0
    return math.log(t) - math.log1p(t) if kind == "fit" else math.log(-math.expm1(-t))


def log1mp_spec(kind, d, x, y, z=1.0):
    t = odds_spec(d, x, y, z)
    return -math.log1p(t) if kind == "fit" else -t


def dp_spec(kind, d, x, y, z=1.0):
    """Derivative of the link probability with respect to the parameter."""
    if x == 0 or y == 0 or z == 0:
        return 0.0
    v = float(x) * float(y) * float(z)
    if d == 0:
        return v
    t = d * v
    if math.isinf(t):
        return 0.0
    return v / (1.0 + t) ** 2 if kind == "fit" else v * math.exp(-t)


def p_multi_spec(kind, d, x, y):
    q = 1.0
    for dl, a, b in zip(d, x, y):
        q *= 1.0 - p_spec(kind, dl, a, b)
    return 1.0 - q


def log1mp_multi_spec(kind, d, x, y):
    return sum(log1mp_spec(kind, dl, a, b) for dl, a, b in zip(d, x, y))


def logp_multi_spec(kind, d, x, y):
    l = log1mp_multi_spec(kind, d, x, y)
    if l == 0:
        return -INF
    if math.isinf(l):
        return 0.0
    return math.log(-math.expm1(l))


def dp_multi_spec(kind, d, x, y):
    """Derivative of the multi-label probability for one common parameter."""
    tot = 0.0
    for l in range(len(x)):
        t = dp_spec(kind, d, x[l], y[l])
        for m in range(len(x)):
            if m != l:
                t *= 1.0 - p_spec(kind, d, x[m], y[m])
        tot += t
    return tot


KIND = {
    "FitnessModel": "fit",
    "ScaleInvariantModel": "inv",
    "MultiFitnessModel": "fit",
    "MultiInvariantModel": "inv",
}
SINGLE = ("FitnessModel", "ScaleInvariantModel")
MULTI = ("MultiFitnessModel", "MultiInvariantModel")
BACKENDS = ("dense", "sparse", "spark")


def cls_of(backend, name):
    return getattr({"dense": ge, "sparse": gs}[backend] if backend != "spark" else spark(), name)


def make(backend, name, **kw):
    c = cls_of(backend, name)
    if backend == "spark":
        m = c(fake_sc(), **kw)
    else:
        kw.pop("p_blocks", None)
        m = c(**kw)
    return m


class Case:
    """A fully specified fitness-type model with its reference matrices."""

    def __init__(self, backend, name, x, y, param, selfloops=False, **kw):
        self.backend, self.name = backend, name
        self.kind = KIND[name]
        self.multi = name in MULTI
        self.x, self.y = np.asarray(x, float), np.asarray(y, float)
        self.N = self.x.shape[0]
        self.L = self.x.shape[1] if self.multi else None
        self.selfloops = selfloops
        self.kw = kw
        if self.multi:
            self.param = np.array([float(p) for p in np.broadcast_to(param, (self.L,))])
        else:
            self.param = np.array([float(np.ravel(param)[0])])

    def desc(self):
        return dict(backend=self.backend, model=self.name, prop_out=self.x,
                    prop_in=self.y, param=self.param, selfloops=self.selfloops, **self.kw)

    def model(self, **over):
        kw = dict(num_vertices=self.N, prop_out=self.x.copy(), prop_in=self.y.copy(),
                  param=self.param.copy(), selfloops=self.selfloops)
        if self.multi:
            kw["num_labels"] = self.L
        kw.update(self.kw)
        kw.update(over)
        kw = {k: v for k, v in kw.items() if v is not None}
        return make(self.backend, self.name, **kw)

    def adm(self, selfloops=None):
        sl = self.selfloops if selfloops is None else selfloops
        m = np.ones((self.N, self.N), bool)
        if not sl:
            np.fill_diagonal(m, False)
        return m

    def P(self):
        """N x N matrix of pair probabilities (diagonal included)."""
        f = (lambda i, j: p_multi_spec(self.kind, self.param, self.x[i], self.y[j])) if self.multi else (
            lambda i, j: p_spec(self.kind, self.param[0], self.x[i], self.y[j]))
        return np.array([[f(i, j) for j in range(self.N)] for i in range(self.N)])

    def PL(self):
        """L x N x N tensor of per-label probabilities."""
        return np.array([[[p_spec(self.kind, self.param[l], self.x[i, l], self.y[j, l])
                           for j in range(self.N)] for i in range(self.N)] for l in range(self.L)])

    def LP(self):
        f = (lambda i, j: logp_multi_spec(self.kind, self.param, self.x[i], self.y[j])) if self.multi else (
            lambda i, j: logp_spec(self.kind, self.param[0], self.x[i], self.y[j]))
        return np.array([[f(i, j) for j in range(self.N)] for i in range(self.N)])

    def LQ(self):
        f = (lambda i, j: log1mp_multi_spec(self.kind, self.param, self.x[i], self.y[j])) if self.multi else (
            lambda i, j: log1mp_spec(self.kind, self.param[0], self.x[i], self.y[j]))
        return np.array([[f(i, j) for j in range(self.N)] for i in range(self.N)])

    def LPL(self):
        return np.array([[[logp_spec(self.kind, self.param[l], self.x[i, l], self.y[j, l])
                           for j in range(self.N)] for i in range(self.N)] for l in range(self.L)])

    def LQL(self):
        return np.array([[[log1mp_spec(self.kind, self.param[l], self.x[i, l], self.y[j, l])
                           for j in range(self.N)] for i in range(self.N)] for l in range(self.L)])


def degrees_of(P, adm):
    Q = np.where(adm, P, 0.0)
    U = Q + Q.T - Q * Q.T
    d = np.diag(Q)
    U = U.copy()
    np.fill_diagonal(U, d)
    return U.sum(axis=1), Q.sum(axis=1), Q.sum(axis=0)


def avnn_of(P, adm, prop, ndir):
    Q = np.where(adm, P, 0.0)
    if ndir == "out":
        W = Q
    elif ndir == "in":
        W = Q.T
    else:
        W = Q + Q.T - Q * Q.T
        W = W.copy()
        np.fill_diagonal(W, np.diag(Q))
    deg = W.sum(axis=1)
    num = W.dot(prop)
    return np.array([n / d if d != 0 else 0.0 for n, d in zip(num, deg)])


# constants of the tree the contracts were written against
USUAL = {0: 10 ** 6, 1: 10 ** 6, 2: 10 ** 6, 3: 10 ** 6, 8: 2, 10: 12, 20: 2, 100: 10, 1e-24: 8, 1e-12: 1, 1e-9: 8, 1e-6: 11, 1e-3: 1, 0.85: 1}
_mined = []


def mined():
    """Unusual numeric constants of the working tree's source (candidate
    thresholds): sizes to exceed and magnitudes to straddle."""
    if not _mined:
        import ast
        import glob
        vals = {}
        add = lambda v: vals.__setitem__(v, vals.get(v, 0) + 1)
        for f in glob.glob(os.path.join(REPO, "src", "graph_ensembles", "**", "*.py"), recursive=True):
            try:
                tree = ast.parse(open(f).read())
            except SyntaxError:
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and type(n.value) in (int, float):
                    add(abs(n.value))
                elif (isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Pow, ast.LShift)) and isinstance(n.left, ast.Constant)
                      and isinstance(n.right, ast.Constant) and type(n.left.value) is int and type(n.right.value) is int
                      and 0 <= n.right.value < 64):
                    add(float(n.left.value) ** n.right.value if isinstance(n.op, ast.Pow) else float(n.left.value << n.right.value))
        vals = {v for v, k in vals.items() if not math.isinf(v) and k > USUAL.get(v, 0)}
        _mined.append((sorted(int(v) for v in vals if v == int(v) and 3 < v <= 300)[:3], sorted(float(v) for v in vals)[:8]))
    return _mined[0]


def around(vals):
    return tuple(sorted({v * f for v in vals for f in (0.4, 1.0, 2.3)}))


def large_cases(backends, names):
    """More vertices than any constant of the code, and fitness values over many
    orders of magnitude."""
    sizes, vals = mined()
    for b in backends:
        for name in names:
            multi = name in MULTI
            for N in [70] + [v + 3 for v in sizes]:
                g = gen("large", name, N)
                size = (N, 3) if multi else (N,)
                x = np.round(g.uniform(0.05, 1.0, size), 3)
                y = np.round(g.uniform(0.05, 1.0, size), 3)
                x[g.uniform(size=size) < 0.2] = 0
                y[g.uniform(size=size) < 0.2] = 0
                kw = dict(p_blocks=2) if b == "spark" else {}
                yield "%s/%s/large/%d" % (b, name, N), Case(b, name, x, y, 0.4, bool(N % 2), **kw)
            g = gen("wide", name)
            size = (11, 4) if multi else (11,)
            # several labels: 1 - prod(1 - p) cancels for tiny p in any evaluation
            x = np.round(10.0 ** g.uniform(-3 if multi else -9, 3, size), 12)
            y = np.round(10.0 ** g.uniform(-2 if multi else -6, 3, size), 12)
            if multi:
                x[g.uniform(size=size) < 0.3] = 0
                y[g.uniform(size=size) < 0.3] = 0
            yield "%s/%s/pwide" % (b, name), Case(b, name, x, y, 0.7, True)
            for v in vals:
                if not 1e-15 < v < 1e15:
                    continue
                z = around([v, math.sqrt(v)]) + (1.0,)
                x = np.array(z)
                y = np.array(z[::-1])
                if multi:
                    x, y = np.stack([x, 0 * x], 1), np.stack([y, y], 1)
                    x[0, 1] = 1.0
                yield "%s/%s/pvalue/%r" % (b, name, v), Case(b, name, x, y, 1.0, True)


def fitness_cases(tier, backends=BACKENDS, names=SINGLE + MULTI, big=True):
    """Generator of Case objects: asymmetric, zeros, empty supports, one vertex,
    more labels than vertices and the reverse, self-loops on and off."""
    shapes1 = [1, 2, 3, 5, 8] if tier == "quick" else [1, 2, 3, 4, 5, 7, 9, 12]
    shapesm = [(1, 1), (2, 3), (3, 2), (5, 4), (4, 1)] if tier == "quick" else [
        (1, 1), (1, 3), (2, 3), (3, 2), (4, 4), (5, 4), (4, 1), (7, 3), (6, 6)]
    reps = 1 if tier == "quick" else 4
    for b in backends:
        for name in names:
            multi = name in MULTI
            for shp in (shapesm if multi else shapes1):
                for sl in (False, True):
                    for r in range(reps):
                        g = gen("fit", name, shp, sl, r)
                        size = shp if multi else (shp,)
                        x = np.round(g.uniform(0.05, 3.0, size), 3)
                        y = np.round(g.uniform(0.05, 3.0, size), 3)
                        if multi:
                            x[g.uniform(size=size) < 0.35] = 0
                            y[g.uniform(size=size) < 0.35] = 0
                            par = np.round(g.uniform(0.05, 2.0, shp[1]), 3)
                        else:
                            if shp > 2:
                                x[g.randint(shp)] = 0
                                y[g.randint(shp)] = 0
                            par = np.round(g.uniform(0.05, 2.0, 1), 3)
                        kw = {}
                        yield "%s/%s/%s/sl=%d/%d" % (b, name, shp, sl, r), Case(b, name, x, y, par, sl, **kw)
            # special parameters
            g = gen("special", name)
            for tag, par in (("p0", 0.0), ("pbig", 1e6), ("psmall", 1e-6)):
                size = (4, 3) if multi else (4,)
                x = np.round(g.uniform(0.1, 2.0, size), 3)
                y = np.round(g.uniform(0.1, 2.0, size), 3)
                if multi:
                    x[0, :] = 0
                    y[:, 1] = 0
                yield "%s/%s/%s" % (b, name, tag), Case(b, name, x, y, par, True)
    # ragged block partitions of the distributed implementation
    if "spark" in backends:
        for name in names:
            multi = name in MULTI
            for N, pb in ([(23, 2), (21, 7)] if tier == "quick" else [(23, 2), (21, 7), (31, 3), (25, 1), (37, 10)]):
                g = gen("blocks", name, N, pb)
                size = (N, 3) if multi else (N,)
                x = np.round(g.uniform(0.05, 1.0, size), 3)
                y = np.round(g.uniform(0.05, 1.0, size), 3)
                if multi:
                    x[g.uniform(size=size) < 0.4] = 0
                    y[g.uniform(size=size) < 0.4] = 0
                yield "spark/%s/blocks/%d/%d" % (name, N, pb), Case(
                    "spark", name, x, y, 0.3, bool(N % 2 and pb > 2), p_blocks=pb)
    if big:
        yield from large_cases(backends, names)


# ------------------------------------------------------------------- graphs
def digraph_of(backend, A, weighted=False):
    """Graph object of the right module for a directed adjacency matrix."""
    N = A.shape[0]
    v = pd.DataFrame({"id": np.arange(N)})
    s, t = np.nonzero(A)
    e = pd.DataFrame({"s": s, "t": t, "w": np.asarray(A)[s, t].astype(float)})
    mod = ge if backend == "dense" else gs
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return mod.DiGraph(v, e, v_id="id", src="s", dst="t", weight="w" if weighted else None)


def multidigraph_of(backend, T, weighted=False):
    """MultiDiGraph for an L x N x N tensor; every label must have an edge."""
    L, N, _ = T.shape
    v = pd.DataFrame({"id": np.arange(N)})
    l, s, t = np.nonzero(T)
    if len(set(l)) != L:
        raise Skip("label without edges")
    e = pd.DataFrame({"s": s, "t": t, "l": l, "w": np.asarray(T)[l, s, t].astype(float)})
    mod = ge if backend == "dense" else gs
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return mod.MultiDiGraph(v, e, v_id="id", src="s", dst="t", edge_label="l",
                                weight="w" if weighted else None)
