"""Executable contracts: solver (C04), random-walk measures (C18), input
validation (C19)."""
from common import *
import itertools
import models_cases as mc


# ------------------------------------------------------------------------ C04
def functions():
    """(name, f, f', increasing/decreasing, domain lower, upper, image hints)"""
    e = math.exp

    def safe(f):
        def g(x):
            v = float(np.ravel(x)[0])
            return np.array([f[0](v)]), np.array([f[1](v)])
        return g

    sig = (lambda x: 5 * x / (1 + x) if not math.isinf(x) else 5.0,
           lambda x: 5 / (1 + x) ** 2 if not math.isinf(x) else 0.0)
    sat = (lambda x: 3 * (1 - e(-x)), lambda x: 3 * e(-x))
    mix = (lambda x: (2 * x / (1 + 2 * x) + 1 - e(-x)) if not math.isinf(x) else 2.0,
           lambda x: (2 / (1 + 2 * x) ** 2 + e(-x)) if not math.isinf(x) else 0.0)
    lin = (lambda x: 2 * x - 3, lambda x: 2.0)
    cub = (lambda x: x ** 3 + x, lambda x: 3 * x * x + 1)
    cub0 = (lambda x: x ** 3, lambda x: 3 * x * x)
    dec = (lambda x: 10 - x, lambda x: -1.0)
    decx = (lambda x: 4 * e(-x), lambda x: -4 * e(-x))
    step = (lambda x: min(max(x, 0.0), 2.0), lambda x: 1.0 if 0 <= x < 2 else 0.0)
    atan = (lambda x: math.atan(x), lambda x: 1 / (1 + x * x) if not math.isinf(x) else 0.0)
    decat = (lambda x: -math.atan(x - 1), lambda x: -1 / (1 + (x - 1) ** 2) if not math.isinf(x) else 0.0)
    zero = (lambda x: 0.0, lambda x: 0.0)
    return [
        ("odds", safe(sig), 0.0, INF, (0.0, 0.5, 100.0), (0.0, 0.01, 2.0, 4.9, 4.999999, 5.0, 7.0)),
        ("expo", safe(sat), 0.0, INF, (0.0, 1.0, 20.0), (0.0, 1.0, 2.9999, 3.0, 4.0)),
        ("mix", safe(mix), 0.0, INF, (0.0, 3.0), (0.1, 1.0, 1.99)),
        ("linear", safe(lin), -INF, INF, (0.0, 5.0, -7.0), (0.0, 2.0, 9.0)),
        ("linear-box", safe(lin), 0.0, 4.0, (0.0, 2.0, 4.0), (0.0, 2.0, 4.5)),
        ("linear-box-out", safe(lin), 0.0, 4.0, (0.0, 2.0), (20.0,)),
        ("cubic", safe(cub), -INF, INF, (0.0, 3.0, -2.0), (0.0, 10.0)),
        ("cubic0", safe(cub0), -INF, INF, (1.0, 0.0), (8.0,)),
        ("decreasing", safe(dec), 0.0, 50.0, (0.0, 30.0, 50.0), (1.0, 9.0)),
        ("exp-decreasing", safe(decx), 0.0, INF, (0.0, 2.0), (1.0, 3.5, 0.1)),
        ("step", safe(step), 0.0, 5.0, (0.0, 1.0, 3.0), (0.5, 1.5, 2.5, 7.0)),
        ("step-decreasing", safe((lambda x: -step[0](x), lambda x: -step[1](x))), -1.0, 5.0, (0.0, 1.0, 3.0), (0.5, -1.5, -2.5)),
        ("atan", safe(atan), -INF, INF, (0.0, 3.0, 10.0, -4.0), (0.2, 1.2)),
        ("atan-decreasing", safe(decat), -INF, INF, (0.0, 3.0), (0.2, 1.2)),
        ("constant", safe(zero), 0.0, INF, (0.0, 1.0), (0.0, 1.0)),
    ]


STRICT = ("odds", "expo", "mix", "linear", "cubic", "decreasing", "exp-decreasing")


def c04(rec):
    solve = solver_mod.monotonic_newton_solver
    for name, fun, xl, xu, x0s, targets in functions():
        for x0 in x0s:
            for target in targets:
                for atol, rtol, mi in ((1e-24, 1e-9, 100), (1e-6, 1e-9, 100), (1e-24, 1e-9, 1), (1e-24, 1e-9, 0),
                                       (1e-12, 1e-3, 3), (1e-24, 1e-15, 200), (0.5, 0.0, 100), (1e-10, 0.2, 7)):
                    def f():
                        seen = []

                        def spy(x):
                            r = fun(x)
                            seen.append((float(np.ravel(x)[0]), float(np.ravel(r[0])[0])))
                            return r[0].copy(), r[1].copy()
                        kw = dict(atol=atol, rtol=rtol, max_iter=mi, x_l=xl, x_u=xu)
                        try:
                            sol = solve(np.array([x0]), spy, target, full_return=True, **kw)
                        except (AssertionError, ZeroDivisionError, OverflowError) as err:
                            # a strictly monotone function with its own derivative is never refused
                            rec.true("accepts-monotone", not (isinstance(err, AssertionError) and name in STRICT), repr(err))
                            raise Skip("solver refused")
                        x = float(np.ravel(sol.x)[0])
                        norm = float(np.ravel(sol.norm_seq[-1])[0])
                        vals = [v for (p, v) in seen if p == x]
                        rec.true("x-was-evaluated", len(vals) > 0, (x, seen[-3:]))
                        rec.true("x-last", seen[-1][0] == x, (x, seen[-3:]))
                        want = abs(vals[-1] - target)
                        rec.true("residual", norm == want, (x, norm, want))
                        rec.true("converged", bool(sol.converged) == bool(norm <= atol + rtol * target), (norm, atol + rtol * target))
                        rec.true("true-convergence", bool(sol.converged) == bool(abs(float(fun(np.array([x]))[0][0]) - target) <= atol + rtol * target), (x,))
                        rec.true("iterations", sol.n_iter <= mi and len(seen) == sol.n_iter + 1, (sol.n_iter, len(seen)))
                        rec.true("max-iter-flag", bool(sol.max_iter_reached) == (sol.n_iter >= mi))
                        rec.true("bracket", xl <= x <= xu, (x, xl, xu))
                        rec.true("all-in-bracket", all(xl <= p <= xu for p, _ in seen), seen)
                        rec.true("sequences", len(sol.x_seq) == len(sol.f_seq) == len(sol.norm_seq) == len(sol.diff_seq) == sol.n_iter + 1)
                        rec.true("x-seq", [float(np.ravel(v)[0]) for v in sol.x_seq] == [p for p, _ in seen])
                        rec.true("norm-seq", all(abs(float(np.ravel(v)[0])) == float(np.ravel(n)[0]) for v, n in zip(sol.f_seq, sol.norm_seq)))
                        rec.true("stop-reason", norm <= atol + rtol * target or sol.n_iter >= mi or bool(np.ravel(sol.diff_seq[-1])[0] <= rtol)
                                 or norm < atol, (norm, sol.n_iter))
                        rec.true("no-change-flag", bool(sol.no_change_stop) == bool(sol.diff_seq[-1] <= rtol))
                        rec.true("stored", sol.target == target and sol.max_iter == mi and sol.atol == atol and sol.rtol == rtol)
                        x2 = solve(np.array([x0]), fun, target, full_return=False, **kw)
                        rec.true("plain-return", float(np.ravel(x2)[0]) == x, (x2, x))
                        if name in ("odds", "expo", "mix", "linear", "cubic", "exp-decreasing") and mi >= 100 and rtol == 1e-9:
                            lo, hi = {"odds": (0, 4.95), "expo": (0, 2.95), "mix": (0, 1.95), "exp-decreasing": (0.05, 3.99)}.get(name, (-INF, INF))
                            if lo <= target <= hi and x0 <= 5:
                                rec.true("solves", sol.converged, (x, norm))
                    rec.run("solver/%s/x0=%g/t=%g/%g/%g/%d" % (name, x0, target, atol, rtol, mi), f,
                            dict(function=name, x0=x0, target=target, atol=atol, rtol=rtol, max_iter=mi, x_l=xl, x_u=xu))

    for mi in (1500,) + tuple(v + 5 for v in mined()[0]):
        def f():
            seen = []

            def crawl(x):
                seen.append(float(x[0]))
                return np.array([x[0] * 1.0]), np.array([1e6])          # a far too steep derivative: tiny steps
            sol = solve(np.array([1.0]), crawl, 1e9, atol=1e-24, rtol=0.0, max_iter=mi, full_return=True)
            rec.true("iterations", sol.n_iter <= mi and len(seen) == sol.n_iter + 1, (sol.n_iter, len(seen)))
            rec.true("max-iter-flag", bool(sol.max_iter_reached) == (sol.n_iter >= mi))
            rec.true("sequences", len(sol.x_seq) == len(sol.f_seq) == len(sol.norm_seq) == len(sol.diff_seq) == sol.n_iter + 1)
            rec.true("x-seq", [float(np.ravel(v)[0]) for v in sol.x_seq] == seen)
            rec.true("not converged", not sol.converged)
        rec.run("solver/many/%d" % mi, f)

    def f():
        for bad in (-0.5, 7.0):
            rec.raises("x0-outside", ValueError, lambda: solve(
                np.array([bad]), lambda x: (x * 1.0, np.array([1.0])), 1.0, x_l=0.0, x_u=5.0, full_return=True))
    rec.run("solver/x0-outside", f)

    def f():
        S = solver_mod.Solution
        for n, t, atol, rtol in ((1e-3, 1.0, 1e-6, 1e-9), (1e-9, 1.0, 1e-6, 1e-9), (1e-3, 1e6, 1e-9, 1e-9), (2.0, 1e9, 0.0, 1e-9)):
            for m in ("newton", "fixed-point"):
                s = S(1.0, t, 3, 10, m, atol=atol, rtol=rtol, norm_seq=np.array([5.0, n]), diff_seq=np.array([1.0, 1e-10]))
                if m == "newton":
                    rec.true("solution-converged", bool(s.converged) == (n <= atol + rtol * t))
                    rec.true("solution-nochange", bool(s.no_change_stop) == (1e-10 <= rtol))
                else:
                    rec.true("solution-fixed", bool(s.converged) == (1e-10 <= rtol))
        # only the last recorded value counts, not an earlier (or the smallest) one
        for ns, ds in itertools.product(([0.5, 0.0, 0.7], [0.0, 0.7], [0.7, 0.0], [0.7], [0.0]), ([1.0, 0.0, 1.0], [0.0, 1.0], [1.0, 0.0], [1.0])):
            for m in ("newton", "fixed-point"):
                s = S(np.array([1.0]), 1.0, 3, 10, m, atol=1e-9, rtol=1e-9, f_seq=np.array(ns), x_seq=np.array(ns),
                      norm_seq=np.array(ns), diff_seq=np.array(ds))
                if m == "newton":
                    rec.true("solution-converged-last", bool(s.converged) == (ns[-1] == 0), (ns, ds))
                    rec.true("solution-nochange-last", bool(s.no_change_stop) == (ds[-1] == 0), (ns, ds))
                else:
                    rec.true("solution-fixed-last", bool(s.converged) == (ds[-1] == 0), (ns, ds))
        rec.raises("solution-illegal", ValueError, lambda: S(1.0, 1.0, 1, 1, "newton", foo=1))
    rec.run("solver/solution", f)


# ------------------------------------------------------------------------ C18
def c18(rec):
    lib = ge_lib
    gg = gen("walk")
    mats = []
    for r in range(6 if rec.tier == "quick" else 25):
        N = [1, 2, 4, 6, 9, 5][r % 6]
        W = np.round(gg.uniform(0.1, 4, (N, N)), 2) * (gg.uniform(size=(N, N)) < [0.3, 0.6, 0.9][r % 3])
        mats.append(("f%d" % r, W))
        mats.append(("i%d" % r, (W * 3).astype(np.int64)))
        mats.append(("b%d" % r, W > 0))
    for tag, W in mats:
        A = sp.csr_array(W)

        def f():
            w0 = A.data.copy()
            nw = lib.normalise_rows(A.indptr, A.indices, A.data)
            want = np.zeros(W.shape)
            D = A.toarray().astype(float)
            for i in range(W.shape[0]):
                if D[i].sum() > 0:
                    want[i] = D[i] / D[i].sum()
            got = sp.csr_array((nw, A.indices, A.indptr), shape=A.shape).toarray()
            rec.eq("normalise", got, want)
            rec.eq("normalise-pure", A.data, w0)
            for absorb in (False, True):
                m = np.round(gg.uniform(0, 2, W.shape[0]), 3)
                m0 = m.copy()
                up = lib.propagate_measure(A.indptr, A.indices, nw, m, absorb)
                w = want.T.dot(m)
                if not absorb:
                    dead = np.diff(A.indptr) == 0
                    w = w + m[dead].sum() / W.shape[0]
                rec.eq("propagate", up, w, detail=absorb)
                rec.eq("propagate-pure", m, m0)
                if not absorb:
                    rec.eq("mass", np.sum(up), np.sum(m))
        rec.run("rows/" + tag, f, dict(W=W))
        if not np.any(W):
            continue
        Wd = W.astype(float)

        def build(weighted):
            return digraph_of("sparse", Wd, weighted)

        for weighted in (False, True):
            for alpha, mi, tol in ((0.85, 100, 1e-6), (0.5, 3, 1e-12), (0.99, 500, 1e-9), (0.0, 5, 1e-6), (1.0, 20, 1e-14), (0.85, 1, 0.0), (0.85, 0, 1e-6), (0.85, 2, 1e-6)):
                def f():
                    g = build(weighted)
                    before = g.adj.toarray().copy()
                    r = lib.pagerank(g, alpha=alpha, max_iter=mi, tol=tol, weighted=weighted)
                    M = Wd if weighted else (Wd > 0).astype(float)
                    N = M.shape[0]
                    s = M.sum(axis=1)
                    P = np.array([M[i] / s[i] if s[i] else np.ones(N) / N for i in range(N)])
                    x = np.ones(N) / N
                    for _ in range(mi):
                        y = P.T.dot(x) * alpha + (1 - alpha) / N
                        stop = np.all(np.abs(y - x) < tol)
                        x = y
                        if stop:
                            break
                    rec.eq("pagerank", r, x, rtol=1e-7)
                    rec.true("probability-vector", np.all(r >= -1e-15) and abs(r.sum() - 1) < 1e-9, r)
                    rec.eq("pagerank-pure", g.adj.toarray(), before)
                rec.run("pagerank/%s/%d/%g/%d/%g" % (tag, weighted, alpha, mi, tol), f, dict(W=W, weighted=weighted, alpha=alpha, max_iter=mi, tol=tol))
        for fin in range(2):
            for mi, tol in ((100, 1e-3), (4, 1e-12), (1, 1e-3), (60, 1e-9), (0, 1e-3), (2, 1e-3)):
                def f():
                    g = build(True)
                    N = Wd.shape[0]
                    final = np.round(gen("final", tag, fin).uniform(0, 2, N), 2)
                    if fin:
                        final[0] = 0
                    f0 = final.copy()
                    r = lib.trophic_depth(g, final, max_iter=mi, tol=tol)
                    st = Wd.sum(axis=1) + f0
                    x = f0.copy()
                    for _ in range(mi):
                        y = Wd.dot(x + 1)
                        y = np.array([(f0[i] + y[i]) / st[i] if st[i] else y[i] for i in range(N)])
                        stop = np.all(np.abs(y - x) < tol)
                        x = y
                        if stop:
                            break
                    rec.eq("trophic", r, x, rtol=1e-6)
                    rec.eq("trophic-pure", final, f0)
                    rec.eq("trophic-adj", g.adj.toarray(), Wd)
                rec.run("trophic/%s/%d/%d/%g" % (tag, fin, mi, tol), f, dict(W=W, max_iter=mi, tol=tol))


# ------------------------------------------------------------------------ C19
def unpack(prop, shape):
    """Stored fitnesses as a matrix: arrays, sparse matrices or one
    (labels, values) pair per vertex."""
    if sp.issparse(prop) or isinstance(prop, np.ndarray):
        return prop
    out = np.zeros(shape)
    for i, (idx, val) in enumerate(prop):
        out[i, np.asarray(idx, int)] = val
    return out


def c19(rec):
    for b in BACKENDS:
        for name in SINGLE + MULTI:
            multi = name in MULTI
            N, L = 3, 2
            x = np.array([[1.0, 2.0], [0.5, 0.0], [3.0, 1.5]]) if multi else np.array([1.0, 0.5, 3.0])
            y = np.array([[0.0, 1.0], [2.5, 0.25], [3.0, 0.0]]) if multi else np.array([2.0, 0.0, 1.0])

            def base(**o):
                kw = dict(num_vertices=N, prop_out=x.copy(), prop_in=y.copy(), num_edges=2)
                if multi:
                    kw["num_labels"] = L
                kw.update(o)
                return {k: v for k, v in kw.items() if v is not None}
            mk = lambda **o: make(b, name, **base(**o))

            def f():
                m = mk()
                rec.true("accept", m.num_vertices == N and m.num_edges == 2.0 and m.selfloops is False)
                rec.eq("store/prop_out", unpack(m.prop_out, x.shape), x)
                rec.eq("store/prop_in", unpack(m.prop_in, y.shape), y)
                rec.true("no-param", not hasattr(m, "param"))
                for ok in (3, 3.0, np.int64(3), np.float64(3.0)):
                    m = mk(num_vertices=ok)
                    rec.true("vertices-int", m.num_vertices == 3 and isinstance(m.num_vertices, int))
                for ok in (0, 2, 2.5, np.int32(4), np.array([3.0]), [3.0]):
                    if multi and isinstance(ok, np.ndarray) and len(ok) == L:
                        continue
                    m = mk(num_edges=ok)
                    rec.true("edges-number", m.num_edges == float(np.ravel(ok)[0]), (ok, m.num_edges))
                for sl in (True, False):
                    rec.true("selfloops", mk(selfloops=sl).selfloops == sl)
                for bad in (-1, 0, 2.5, "a", None, "3", [3], float("nan")):
                    rec.raises("vertices", Exception, lambda: mk(num_vertices=bad), bad)
                rec.raises("vertices-missing", Exception, lambda: mk(num_vertices=None))
                for bad in (-1, -0.5, "a", [1, 2, 3], np.array([1.0, 2.0, 3.0]), np.array([-1.0]), [[1]], {"a": 1}):
                    rec.raises("edges", Exception, lambda: mk(num_edges=bad), bad)
                rec.raises("edges-none", Exception, lambda: mk(num_edges=None))
                rec.raises("illegal", Exception, lambda: mk(foo=1))
                rec.raises("illegal2", Exception, lambda: mk(num_vertex=3))
                rec.raises("illegal3", Exception, lambda: mk(total_weight=3.0))
                for which in ("prop_out", "prop_in"):
                    rec.raises("prop-missing", Exception, lambda: mk(**{which: None}))
                    good = x if which == "prop_out" else y
                    for bad in ("anc", 1.0, good[:-1], np.concatenate([good, good]), [list(v) if multi else v for v in good],
                                good[:, :1] if multi else good.reshape(-1, 1), good.T if multi else good[None, :]):
                        rec.raises("prop-shape", Exception, lambda: mk(**{which: bad}), (which, bad))
                    for pos in range(good.size):
                        bad = good.copy()
                        bad.ravel()[pos] = -1e-3
                        rec.raises("prop-negative", Exception, lambda: mk(**{which: bad}), (which, pos))
                # parameter
                if not multi:
                    for ok in (0.5, 2, np.array([0.25]), np.array([3]), 0):
                        m = mk(param=ok, num_edges=None)
                        rec.eq("param", m.param, np.array([float(np.ravel(ok)[0])]), detail=ok)
                        rec.true("no-edges", not hasattr(m, "num_edges"))
                    for bad in (-1.0, np.array([-0.5]), np.array([1.0, 2.0]), "a", np.array(["a"]), np.array([])):
                        rec.raises("param-bad", Exception, lambda: mk(param=bad), bad)
                        rec.raises("param-bad-noedges", Exception, lambda: mk(param=bad, num_edges=None), bad)
                else:
                    for ok, w in ((0.5, [0.5, 0.5]), (np.array([0.25]), [0.25] * 2), (np.array([1.0, 2.0]), [1, 2]), ([3, 4], [3, 4]), (2, [2, 2])):
                        m = mk(param=ok, num_edges=None)
                        rec.eq("param", m.param, np.array(w, float), detail=ok)
                        rec.true("per_label", m.per_label == (np.size(ok) > 1), ok)
                    for bad in (-1.0, np.array([1.0, -0.5]), np.array([1.0, 2.0, 3.0]), "a", np.array(["a", "b"]), [1.0, 2.0, 3.0]):
                        rec.raises("param-bad", Exception, lambda: mk(param=bad, num_edges=None), bad)
                    for ok in (2, 2.0, np.int64(2)):
                        rec.true("labels-int", mk(num_labels=ok).num_labels == 2)
                    for bad in (-1, 0, 2.5, "a", None, "2", 3):
                        rec.raises("labels", Exception, lambda: mk(num_labels=bad), bad)
                    m = mk(num_edges=None, num_edges_label=np.array([1.0, 2.0]))
                    rec.eq("edges-label", m.num_edges_label, [1.0, 2.0])
                    rec.true("per_label-set", m.per_label is True)
                    rec.true("per_label-unset", mk().per_label is False)
                    rec.true("per_label-forced", mk(num_edges_label=np.array([1.0, 2.0]), per_label=False).per_label is False)
                    m = mk(num_edges=np.array([1.0, 2.0]))
                    rec.eq("edges-array", m.num_edges_label, [1.0, 2.0])
                    for bad in (np.array([1.0]), np.array([1.0, 2.0, 3.0]), np.array([1.0, -2.0]), np.array([3.0, -1.0]), np.array([-1.0, 3.0]), np.array(["a", "b"])):
                        rec.raises("edges-label-bad", Exception, lambda: mk(num_edges=None, num_edges_label=bad), bad)
                    for fmt in (sp.csr_array, sp.csc_array, sp.coo_array):
                        m = mk(prop_out=fmt(x), prop_in=fmt(y))
                        rec.eq("sparse-prop", unpack(m.prop_out, x.shape), x)
                        rec.eq("sparse-prop", unpack(m.prop_in, y.shape), y)
                        for pos in np.flatnonzero(x.ravel()):
                            bad = x.copy()
                            bad.ravel()[pos] *= -1
                            rec.raises("sparse-negative", Exception, lambda: mk(prop_out=fmt(bad)), pos)
                            bad = y.copy()
                            if bad.ravel()[pos]:
                                bad.ravel()[pos] *= -1
                                rec.raises("sparse-negative-in", Exception, lambda: mk(prop_in=fmt(bad)), pos)
            rec.run("init/%s/%s" % (b, name), f, dict(backend=b, model=name))

            def f():
                for q, fn in _queries(N, L, multi).items():
                    rec.raises("unfitted", Exception, lambda: fn(mk()), q)
            rec.run("unfitted/%s/%s" % (b, name), f, dict(backend=b, model=name))

            def f():
                rec.raises("fit-method", Exception, lambda: mk().fit(method="foo"))
                rec.raises("fit-mle", Exception, lambda: mk().fit(method="mle"))
                rec.raises("fit-noedges", Exception, lambda: mk(num_edges=None, param=1.0).fit())
                for bad in (-1.0, "a", np.array([1.0, 2.0, 3.0]), np.array([-1.0] * (L if multi else 1))):
                    rec.raises("fit-x0", Exception, lambda: mk().fit(x0=bad), bad)
            rec.run("fit/%s/%s" % (b, name), f, dict(backend=b, model=name))

    # graph arguments
    for b in ("dense", "sparse", "spark"):
        def f():
            gb = "dense" if b == "dense" else "sparse"
            A = np.array([[0, 2.0, 0], [0.5, 0, 1.0], [0, 3.0, 4.0]])
            for name in SINGLE:
                g = digraph_of(gb, A, True)
                c = cls_of(b, name)
                m = c(fake_sc(), g) if b == "spark" else c(g)
                rec.eq("graph/out", m.prop_out, A.sum(axis=1))
                rec.eq("graph/in", m.prop_in, A.sum(axis=0))
                rec.true("graph/count", m.num_vertices == 3 and m.num_edges == 5)
                rec.raises("graph/type", Exception, lambda: c(fake_sc(), "g") if b == "spark" else c("g"))
            for weighted in (False, True):
                g = digraph_of(gb, A, weighted)
                c = cls_of(b, "RandomDiGraph")
                m = c(fake_sc(), g) if b == "spark" else c(g)
                rec.true("graph/random", m.num_vertices == 3 and m.num_edges == 5)
                if weighted:
                    rec.eq("graph/random-weight", m.total_weight, A.sum())
                else:
                    rec.true("graph/random-unweighted", getattr(m, "total_weight", None) is None)
            T = np.zeros((2, 3, 3))
            T[0] = A
            T[1, 0, 2] = 7.0
            T[1, 0, 1] = 1.0
            for name in MULTI:
                g = multidigraph_of(gb, T, True)
                c = cls_of(b, name)
                m = c(fake_sc(), g) if b == "spark" else c(g)
                rec.eq("graph/out-label", unpack(m.prop_out, (3, 2)), T.sum(axis=2).T)
                rec.eq("graph/in-label", unpack(m.prop_in, (3, 2)), T.sum(axis=1).T)
                rec.true("graph/labels", m.num_vertices == 3 and m.num_labels == 2 and m.num_edges == 6 and m.per_label is True)
                rec.eq("graph/edges-label", m.num_edges_label, [5, 2])
                g1 = digraph_of(gb, A, True)
                rec.raises("graph/multi-type", Exception, lambda: c(fake_sc(), g1) if b == "spark" else c(g1))
        rec.run("graph-arg/%s" % b, f)

    def f():
        for name, kw in (("RandomDiGraph", dict(num_vertices=40, num_edges=30)),
                         (SINGLE[0], dict(num_vertices=40, num_edges=30, prop_out=np.ones(40), prop_in=np.ones(40))),
                         (MULTI[0], dict(num_vertices=40, num_edges=30, num_labels=2, prop_out=np.ones((40, 2)), prop_in=np.ones((40, 2))))):
            c = cls_of("spark", name)
            for ok in (1, 2, 3, 3.0, np.int64(2)):
                m = c(fake_sc(), p_blocks=ok, **kw)
                rec.true("blocks", isinstance(m.p_blocks, int) and m.p_blocks == ok, (name, ok, m.p_blocks))
            for bad in (0, -1, 2.5, "a", None, [2, 3]):
                rec.raises("blocks-bad", Exception, lambda: c(fake_sc(), p_blocks=bad, **kw), (name, bad))
    rec.run("blocks/spark", f)

    for b in BACKENDS:
        def f():
            mk = lambda **o: make(b, "RandomDiGraph", **{k: v for k, v in dict(dict(num_vertices=4, num_edges=3), **o).items() if v is not None})
            m = mk()
            rec.true("random/accept", m.num_vertices == 4 and m.num_edges == 3 and m.selfloops is False)
            m = mk(total_weight=7)
            rec.true("random/weight", m.total_weight == 7 and m.discrete_weights is False)
            rec.true("random/discrete", mk(total_weight=7, discrete_weights=True).discrete_weights is True)
            rec.eq("random/param", mk(num_edges=None, param=0.5).param, [0.5, 0])
            rec.eq("random/param2", mk(num_edges=None, param=np.array([0.5, 0.25])).param, [0.5, 0.25])
            for bad in (-1, 0, 2.5, "a", None):
                rec.raises("random/vertices", Exception, lambda: mk(num_vertices=bad), bad)
            for bad in (-1, "a", [1, 2]):
                rec.raises("random/edges", Exception, lambda: mk(num_edges=bad), bad)
                rec.raises("random/total", Exception, lambda: mk(total_weight=bad), bad)
            rec.raises("random/none", Exception, lambda: mk(num_edges=None))
            for bad in (-1.0, np.array([0.5, -1.0]), np.array([0.5]), np.array([0.1, 0.2, 0.3]), "a", np.array(["a", "b"])):
                rec.raises("random/param-bad", Exception, lambda: mk(param=bad), bad)
            rec.raises("random/illegal", Exception, lambda: mk(prop_out=np.ones(4)))
            for q, fn in _queries(4, 1, False).items():
                rec.raises("random/unfitted", Exception, lambda: fn(mk()), q)
            rec.raises("random/unfitted-weight", Exception, lambda: mk(total_weight=5.0).expected_total_weight())
        rec.run("random/%s" % b, f, dict(backend=b))


def _queries(N, L, multi):
    q = {
        "expected_num_edges": lambda m: m.expected_num_edges(),
        "expected_degree": lambda m: m.expected_degree(),
        "expected_out_degree": lambda m: m.expected_out_degree(),
        "expected_in_degree": lambda m: m.expected_in_degree(),
        "expected_av_nn_property": lambda m: m.expected_av_nn_property(np.ones(N)),
        "expected_av_nn_degree": lambda m: m.expected_av_nn_degree(),
        "log_likelihood": lambda m: m.log_likelihood(np.zeros((N, N))),
        "sample": lambda m: m.sample(),
    }
    if multi:
        q.update({
            "expected_num_edges_label": lambda m: m.expected_num_edges_label(),
            "expected_degree_by_label": lambda m: m.expected_degree_by_label(),
            "expected_out_degree_by_label": lambda m: m.expected_out_degree_by_label(),
            "expected_in_degree_by_label": lambda m: m.expected_in_degree_by_label(),
        })
    return q
