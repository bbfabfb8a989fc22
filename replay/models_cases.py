"""Executable contracts of the ensemble classes (C01-C13, C17)."""
import inspect
import re
from common import *

VALS = (0.0, 1e-3, 0.3, 1.0, 2.5, 40.0)
EXT = (0.0, 0.3, 1.0, 2.5, INF)


def arity(f):
    f = getattr(f, "py_func", f)
    return list(inspect.signature(f).parameters)


def static(backend, name, fn):
    return getattr(cls_of(backend, name), fn, None)


def scalar_call(f, d, x, y, vec):
    """Call a single-label kernel with the signatures of this code base; the
    API-level cases cover the code when the signature is another one."""
    a = arity(f)
    dd = np.array([d], dtype=float) if vec else d
    z = 1.0
    if len(a) == 3:
        return f(dd, x, y)
    if len(a) == 4:
        return f(dd, x, y, z)
    raise Skip("signature %s" % (a,))


def lab(vals, explicit_zero=False):
    vals = np.asarray(vals, float)
    if explicit_zero:
        return np.arange(len(vals), dtype=np.int64), vals
    i = np.nonzero(vals)[0]
    return i.astype(np.int64), vals[i]


def multi_call(backend, f, d, x, y, ez=False):
    a = arity(f)
    d = np.asarray(d, float)
    if backend == "dense":
        args = [d, np.asarray(x, float), np.asarray(y, float)]
    elif backend == "sparse":
        args = [d, lab(x, ez), lab(y, ez)]
    else:
        args = [d, *lab(x, ez), *lab(y, ez)]
    if len(a) == len(args) + 1:
        args.append(1.0)
    if len(a) != len(args):
        raise Skip("signature %s" % (a,))
    return f(*args)


def multi_inputs(tier):
    g = gen("multi_inputs")
    out = []
    for L in (1, 2, 3, 4, 6):
        for r in range(12 if tier == "quick" else 60):
            x = np.round(g.uniform(0.05, 3, L), 3)
            y = np.round(g.uniform(0.05, 3, L), 3)
            d = np.round(g.uniform(0.05, 2, L), 3)
            x[g.uniform(size=L) < 0.4] = 0
            y[g.uniform(size=L) < 0.4] = 0
            d[g.uniform(size=L) < 0.15] = 0
            if r % 5 == 4:
                (x, y, d)[r % 3][g.randint(L)] = INF
            out.append((d, x, y))
    return out


def model_level(backend, name, d, x, y, seed=0):
    """Model with two vertices whose only admissible pair with mass is (0, 1)."""
    multi = name in MULTI
    X = np.zeros((2,) + np.shape(x)) if multi else np.zeros(2)
    Y = np.zeros((2,) + np.shape(y)) if multi else np.zeros(2)
    X[0] = x
    Y[1] = y
    return Case(backend, name, X, Y, d, False)


def c01(rec):
    tier = rec.tier
    ext = (EXT if tier == "quick" else EXT + (1e-5, 17.0)) + (1e-7, 1e5) + around(mined()[1])[:12]
    for b in BACKENDS:
        for name in SINGLE:
            f = static(b, name, "p_ij")

            def go(f=f, name=name, b=b):
                if f is None:
                    raise Skip("no p_ij")
                for d, x, y in itertools.product(ext, repeat=3):
                    v = scalar_call(f, d, x, y, True)
                    w = p_spec(KIND[name], d, x, y)
                    rec.true("p_ij in [0,1]", 0 <= v <= 1, (d, x, y, v))
                    rec.eq("p_ij equals the model formula", v, w, detail="d=%r x=%r y=%r" % (d, x, y))
            rec.run("%s/%s/p_ij" % (b, name), go, "all of %r^3" % (ext,))

            def api(name=name, b=b):
                for d, x, y in itertools.product((0.0, 0.3, 2.5, 40.0), repeat=3):
                    c = model_level(b, name, d, x, y)
                    m = c.model()
                    rec.eq("expected edges of a single pair", m.expected_num_edges(),
                           p_spec(KIND[name], d, x, y), detail="d=%r x=%r y=%r" % (d, x, y))
            rec.run("%s/%s/api" % (b, name), api, "two vertices, one pair")
        for name in MULTI:
            f = static(b, name, "p_ijk")

            def go(f=f, name=name):
                if f is None:
                    raise Skip("no p_ijk")
                for d, x, y in itertools.product(ext, repeat=3):
                    v = scalar_call(f, d, x, y, False)
                    rec.true("p_ijk in [0,1]", 0 <= v <= 1, (d, x, y, v))
                    rec.eq("p_ijk equals the model formula", v, p_spec(KIND[name], d, x, y),
                           detail="d=%r x=%r y=%r" % (d, x, y))
            rec.run("%s/%s/p_ijk" % (b, name), go)
            f = static(b, name, "p_ij")
            for ez in ((False, True) if b != "dense" else (False,)):
                for k, (d, x, y) in enumerate(multi_inputs(tier)):
                    def go(f=f, name=name, b=b, d=d, x=x, y=y, ez=ez):
                        if f is None:
                            raise Skip("no p_ij")
                        v = multi_call(b, f, d, x, y, ez)
                        rec.true("p_ij in [0,1]", 0 <= v <= 1, v)
                        rec.eq("multi-label p_ij", v, p_multi_spec(KIND[name], d, x, y))
                    rec.run("%s/%s/multi/%d/%d" % (b, name, ez, k), go, dict(d=d, x=x, y=y))
            for k, (d, x, y) in enumerate(multi_inputs("quick")[::4]):
                if np.isinf(d).any() or np.isinf(x).any() or np.isinf(y).any():
                    continue

                def api(name=name, b=b, d=d, x=x, y=y):
                    m = model_level(b, name, d, x, y).model()
                    rec.eq("expected edges of a single pair", m.expected_num_edges(),
                           p_multi_spec(KIND[name], d, x, y))
                rec.run("%s/%s/api/%d" % (b, name, k), api, dict(d=d, x=x, y=y))
            c = unsorted_case(b, name)
            rec.run("%s/%s/unsorted" % (b, name), lambda: rec.eq(
                "expected edges with unsorted indices", c.model().expected_num_edges(),
                np.where(c.adm(), c.P(), 0).sum()), c.desc())


def unsorted_case(b, name):
    g = gen("unsorted", name)
    x = np.round(g.uniform(0.1, 2, (4, 4)), 3)
    y = np.round(g.uniform(0.1, 2, (4, 4)), 3)
    x[0, 2] = y[1, 0] = 0

    class C(Case):
        def model(self, **over):
            def rev(a):
                m = sp.csr_array(a)
                ind, dat = m.indices.copy(), m.data.copy()
                for i in range(a.shape[0]):
                    s, e = m.indptr[i], m.indptr[i + 1]
                    ind[s:e] = ind[s:e][::-1]
                    dat[s:e] = dat[s:e][::-1]
                return sp.csr_array((dat, ind, m.indptr.copy()), shape=a.shape)
            return Case.model(self, prop_out=rev(self.x), prop_in=rev(self.y), **over)
    return C(b, name, x, y, np.round(g.uniform(0.1, 1, 4), 3), False)


def c02(rec):
    ext = (EXT if rec.tier == "quick" else EXT + (1e-5, 17.0)) + (1e-4, 1e3) + around(v for v in mined()[1] if v < 1e6)[:12]
    for b in BACKENDS:
        for name in SINGLE + MULTI:
            for fn, spec in (("logp", logp_spec), ("log1mp", log1mp_spec)):
                f = static(b, name, fn + ("_ijk" if name in MULTI else ""))

                def go(f=f, spec=spec, name=name, fn=fn):
                    if f is None:
                        raise Skip("no " + fn)
                    for d, x, y in itertools.product(ext, repeat=3):
                        try:
                            v = scalar_call(f, d, x, y, name not in MULTI)
                        except (ValueError, ZeroDivisionError) as err:
                            rec.true(fn + " is defined", False, "d=%r x=%r y=%r %r" % (d, x, y, err))
                            continue
                        rec.eq(fn + " is the logarithm", v, spec(KIND[name], d, x, y),
                               detail="d=%r x=%r y=%r" % (d, x, y))
                rec.run("%s/%s/%s" % (b, name, fn), go)
                if name not in MULTI:
                    continue
                f2 = static(b, name, fn)
                mspec = logp_multi_spec if fn == "logp" else log1mp_multi_spec
                for ez in ((False, True) if b != "dense" else (False,)):
                    for k, (d, x, y) in enumerate(multi_inputs(rec.tier)):
                        def go2(f2=f2, mspec=mspec, name=name, b=b, d=d, x=x, y=y, ez=ez, fn=fn):
                            if f2 is None:
                                raise Skip("no " + fn)
                            rec.eq("multi-label " + fn, multi_call(b, f2, d, x, y, ez),
                                   mspec(KIND[name], d, x, y), rtol=1e-7)
                        rec.run("%s/%s/%s/multi/%d/%d" % (b, name, fn, ez, k), go2, dict(d=d, x=x, y=y))
            # through the public likelihood: one admissible pair with mass
            ins = [(d, x, y) for d in (0.0, 0.3, 2.5) for x in (0.0, 1.3) for y in (0.0, 0.7)] \
                if name in SINGLE else [t for t in multi_inputs("quick")[::5] if not any(np.isinf(a).any() for a in t)]
            for k, (d, x, y) in enumerate(ins):
                def api(name=name, b=b, d=d, x=x, y=y):
                    c = model_level(b, name, d, x, y)
                    m = c.model()
                    for present in (0, 1):
                        A = np.array([[0, present], [0, 0]])
                        if name in SINGLE:
                            w = (logp_spec if present else log1mp_spec)(KIND[name], d, x, y)
                        else:
                            w = (logp_multi_spec if present else log1mp_multi_spec)(KIND[name], d, x, y)
                        rec.eq("likelihood of a single pair", m.log_likelihood(A), w, rtol=1e-7,
                               detail="present=%d" % present)
                rec.run("%s/%s/api/%d" % (b, name, k), api, dict(d=d, x=x, y=y))


def fit_value(b, m, d):
    return m.density_fit_fun(np.array([float(d)]))


def total_spec(c, d):
    A = c.adm()
    tot = 0.0
    jac = 0.0
    for i in range(c.N):
        for j in range(c.N):
            if A[i, j]:
                if c.multi:
                    dv = np.full(c.L, d)
                    tot += p_multi_spec(c.kind, dv, c.x[i], c.y[j])
                    jac += dp_multi_spec(c.kind, d, c.x[i], c.y[j])
                else:
                    tot += p_spec(c.kind, d, c.x[i], c.y[j])
                    jac += dp_spec(c.kind, d, c.x[i], c.y[j])
    return tot, jac


def c03(rec):
    for cid, c in fitness_cases(rec.tier):
        for d in (0.0, 0.07, 1.3, 25.0, INF) if rec.tier == "quick" else (0.0, 1e-4, 0.07, 0.6, 1.3, 7.0, 25.0, INF):
            def go(c=c, d=d):
                m = c.model(num_edges=1.0)
                if not hasattr(m, "density_fit_fun"):
                    raise Skip("no density_fit_fun")
                f, jac = fit_value(c.backend, m, d)
                w, wj = total_spec(c, d)
                rec.eq("fit function equals expected edges", np.ravel(f)[0], w, rtol=1e-8)
                rec.eq("fit derivative is exact", np.ravel(jac)[0], wj, rtol=1e-7, atol=1e-9)
                if not math.isinf(d):
                    m2 = c.model(param=d)
                    rec.eq("fit function agrees with expected_num_edges", np.ravel(f)[0],
                           m2.expected_num_edges(), rtol=1e-8)
            rec.run("%s/d=%r" % (cid, d), go, dict(c.desc(), d=d))
        if not c.multi:
            continue
        # per-label: record what the solver is given, by a solver stand-in
        def layer(c=c):
            ds = (0.0, 0.11, 1.7, 30.0)
            grabbed = grab_layer_funs(c, ds)
            rec.true("every label fitted", sorted(set(g[0] for g in grabbed)) == list(range(c.L)))
            for l, d, f0, f1 in grabbed:
                w = wj = 0.0
                for i in range(c.N):
                    for j in range(c.N):
                        if c.adm()[i, j]:
                            w += p_spec(c.kind, d, c.x[i, l], c.y[j, l])
                            wj += dp_spec(c.kind, d, c.x[i, l], c.y[j, l])
                rec.eq("label fit function", f0, w, rtol=1e-8, detail="label %d d=%r" % (l, d))
                rec.eq("label fit derivative", f1, wj, rtol=1e-7, atol=1e-9, detail="label %d d=%r" % (l, d))
        rec.run(cid + "/layers", layer, c.desc())
    for cid, c, d in conditional_fit_cases(rec.tier):
        def go(c=c, d=d):
            m = c.model(num_edges=2.0)
            f, jac = m.density_fit_fun(np.array([d]))
            w, wj = c.fit_spec(d)
            rec.eq("conditional fit function", f, w, rtol=1e-8)
            rec.eq("conditional fit derivative", jac, wj, rtol=1e-6, atol=1e-9)
        rec.run(cid, go, c.desc())


def conditional_fit_cases(tier):
    from cond_cases import cond_cases
    for cid, c in cond_cases(tier):
        for d in (0.0, 0.07, 1.3, 25.0):
            yield "%s/d=%r" % (cid, d), c, d


def grab_layer_funs(c, ds):
    """Functions handed to the solver by a per-label fit, label by label."""
    mod = sys.modules[cls_of(c.backend, c.name).__mro__[0].__module__]
    mods = [sys.modules[k.__module__] for k in cls_of(c.backend, c.name).__mro__ if k.__module__ in sys.modules]
    real = solver_mod.monotonic_newton_solver
    grabbed = []
    owner = [k for k in mods if hasattr(k, "monotonic_newton_solver")]
    if not owner:
        raise Skip("solver not reachable")

    class Sol:
        converged = True

    def stub(x0, fun, target, *a, **k):
        l = int(round(float(target))) - 1
        for d in ds:
            r = fun(np.array([d]))
            grabbed.append((l, d, float(np.ravel(r[0])[0]), float(np.ravel(r[1])[0])))
        s = Sol()
        s.x = np.array([float(np.ravel(x0)[0])])
        return s
    m = c.model(num_edges_label=np.arange(1, c.L + 1) * 1.0, param=None, per_label=True)
    old = [(o, o.monotonic_newton_solver) for o in owner]
    old_ship = None
    sc = fake_sc() if c.backend == "spark" else None
    try:
        for o in owner:
            o.monotonic_newton_solver = stub
        if sc is not None:
            _noship(True)
        m.fit()
    finally:
        for o, f in old:
            o.monotonic_newton_solver = f
        if sc is not None:
            _noship(False)
    return grabbed


def _noship(flag):
    import common
    common.NOSHIP = flag


def c05(rec):
    g = gen("c05")
    for cid, c in fitness_cases(rec.tier, big=False):
        if "/p" in cid.split("/")[-1] or c.N < 2:
            continue
        if not c.multi:
            pos = np.where(c.adm() & (np.outer(c.x, c.y) > 0), 1, 0).sum()
            if pos < 2:
                continue
            for frac, x0, tol in ((0.3, None, 1e-9), (0.7, 0.5, 1e-6), (0.05, np.array([2]), 1e-9)):
                def go(c=c, frac=frac, x0=x0, tol=tol, pos=pos):
                    E = float(frac * pos)
                    m = c.model(num_edges=E, param=None)
                    with warnings.catch_warnings(record=True) as w:
                        warnings.simplefilter("always")
                        m.fit(x0=x0, rtol=tol)
                    check_fit(rec, c, m, m.solver_output, E, tol, w,
                              lambda d: total_spec(c, d)[0])
                    c2 = Case(c.backend, c.name, c.x, c.y, m.param, c.selfloops, **c.kw)
                    rec.eq("stored parameter gives the model's expected edges",
                           m.expected_num_edges(), np.where(c2.adm(), c2.P(), 0).sum(), rtol=1e-8)
                    rec.eq("constraint unchanged", m.num_edges, E)
                rec.run("%s/fit/%s/%s" % (cid, frac, x0), go, c.desc())
        else:
            pl = np.array([[(c.adm() & (np.outer(c.x[:, l], c.y[:, l]) > 0)).sum()] for l in range(c.L)]).ravel()
            if pl.min() < 2:
                # a label without admissible pairs: only zero can be asked
                E = np.where(pl > 0, 0.5 * pl, 0.0)
            else:
                E = 0.4 * pl
            for x0 in (None, np.arange(1, c.L + 1)):
                def go(c=c, E=E, x0=x0):
                    m = c.model(num_edges_label=E.copy(), param=None)
                    with warnings.catch_warnings(record=True) as w:
                        warnings.simplefilter("always")
                        m.fit(x0=x0)
                    rec.true("one solution per label", len(m.solver_output) == c.L)
                    for l in range(c.L):
                        s = m.solver_output[l]
                        rec.eq("parameter of label is the solver answer", m.param[l], np.ravel(s.x)[0])
                        tot = sum(p_spec(c.kind, m.param[l], c.x[i, l], c.y[j, l])
                                  for i in range(c.N) for j in range(c.N) if c.adm()[i, j])
                        res = abs(tot - E[l])
                        ok = res <= 1e-24 + 1e-9 * E[l] * (1 + 1e-6) + 1e-13 * c.N ** 2
                        if s.converged:
                            rec.true("converged label reproduces its edges", ok, "label %d: %r vs %r" % (l, tot, E[l]))
                        else:
                            rec.true("warning when not converged", len(w) > 0, l)
                rec.run("%s/fit_label/%s" % (cid, x0), go, dict(c.desc(), E=E))
            P1 = (np.einsum("il,jl->ij", c.x, c.y) > 0) & c.adm()
            if P1.sum() >= 2:
                def go(c=c, P1=P1):
                    E = float(0.35 * P1.sum())
                    m = c.model(num_edges=E, param=None)
                    with warnings.catch_warnings(record=True) as w:
                        warnings.simplefilter("always")
                        m.fit()
                    rec.true("common parameter for every label", np.all(m.param == m.param[0]) and len(m.param) == c.L)
                    check_fit(rec, c, m, m.solver_output, E, 1e-9, w, lambda d: total_spec(c, d)[0])
                    rec.eq("expected edges after the fit", m.expected_num_edges(), E, rtol=1e-6)
                rec.run("%s/fit_total" % cid, go, c.desc())
    # limited iterations must be reported
    for b in BACKENDS:
        for name in SINGLE:
            def go(b=b, name=name):
                c = Case(b, name, [1.0, 2, 3, 0.4], [0.5, 1, 0.2, 3], 1.0, False)
                m = c.model(num_edges=6.0, param=None)
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    m.fit(maxiter=1)
                check_fit(rec, c, m, m.solver_output, 6.0, 1e-9, w, lambda d: total_spec(c, d)[0])
                rec.true("not converged after one iteration", not m.solver_output.converged)
            rec.run("%s/%s/maxiter" % (b, name), go)
        for name in MULTI:
            def go(b=b, name=name):
                x = np.array([[1.0, 2], [3, 0.4], [0.5, 2]])
                y = np.array([[0.5, 1], [0.2, 3], [2, 0.1]])
                c = Case(b, name, x, y, 1.0, False)
                m = c.model(num_edges_label=np.array([4.0, 3.0]), param=None)
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    m.fit(maxiter=1)
                rec.true("warnings for unconverged labels",
                         len(w) >= sum(not s.converged for s in m.solver_output), [s.converged for s in m.solver_output])
                rec.true("not converged after one iteration", not all(s.converged for s in m.solver_output))
            rec.run("%s/%s/maxiter" % (b, name), go)
        # uniform ensemble
        for N, E, W, disc, sl in ((5, 7, 21.0, False, False), (4, 3, 9, True, True), (6, 30, 31.0, True, False)):
            def go(b=b, N=N, E=E, W=W, disc=disc, sl=sl):
                m = make(b, "RandomDiGraph", num_vertices=N, num_edges=E, total_weight=W,
                         discrete_weights=disc, selfloops=sl)
                m.fit()
                rec.eq("random edges", m.expected_num_edges(), E)
                rec.eq("random weight", m.expected_total_weight(), W)
            rec.run("%s/random/%d/%d/%d" % (b, N, disc, sl), go, dict(N=N, E=E, W=W, discrete=disc, selfloops=sl))
    from cond_cases import cond_cases
    for cid, c in cond_cases(rec.tier):
        def go(c=c):
            E = 0.6 * c.fit_spec(50.0)[0] + 0.4 * c.fit_spec(0.0)[0]
            m = c.model(num_edges=E, param=None)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                m.fit()
            check_fit(rec, c, m, m.solver_output, E, 1e-9, w, lambda d: c.fit_spec(d)[0])
            rec.eq("conditional expected edges after fit", m.expected_num_edges(), c.fit_spec(float(m.param[0]))[0], rtol=1e-8)
        rec.run("cond/%s/fit" % cid, go, c.desc())


def check_fit(rec, c, m, sol, E, tol, w, fun):
    d = float(np.ravel(m.param)[0])
    rec.eq("stored parameter is the solver answer", d, float(np.ravel(sol.x)[0]))
    rec.true("parameter inside the allowed interval", d >= 0, d)
    got = fun(d)
    res = abs(got - E)
    if sol.converged:
        rec.true("converged fit reproduces the constraint",
                 res <= 1e-24 + tol * E * (1 + 1e-6) + 1e-12 * max(1.0, abs(got)), "%r edges at %r, asked %r" % (got, d, E))
    else:
        rec.true("warning when not converged", any("converge" in str(x.message) for x in w),
                 [str(x.message) for x in w])
    rec.true("convergence flag is honest",
             bool(sol.converged) == (res <= 1e-24 + tol * E) or abs(res - tol * E) < 1e-9 * max(1.0, E),
             "residual %r flag %r" % (res, sol.converged))


def c06(rec):
    for cid, c in fitness_cases(rec.tier):
        def go(c=c):
            m = c.model()
            rec.eq("expected edges", m.expected_num_edges(), np.where(c.adm(), c.P(), 0).sum())
            if c.multi:
                rec.eq("expected edges by label", m.expected_num_edges_label(),
                       np.where(c.adm()[None], c.PL(), 0).sum(axis=(1, 2)))
        rec.run(cid, go, c.desc())
        if c.multi and c.N > 2:
            def go2(c=c):
                xs, ys = sp.csr_array(c.x), sp.csc_array(c.y)
                if c.backend == "dense" or True:
                    m = c.model(prop_out=xs, prop_in=ys)
                    rec.eq("expected edges from sparse properties", m.expected_num_edges(),
                           np.where(c.adm(), c.P(), 0).sum())
                    rec.eq("expected edges by label from sparse properties", m.expected_num_edges_label(),
                           np.where(c.adm()[None], c.PL(), 0).sum(axis=(1, 2)))
            rec.run(cid + "/sparseprops", go2, c.desc())
    for b in BACKENDS:
        for N, p, sl in ((4, 0.3, False), (5, 0.7, True), (1, 0.4, True), (1, 0.4, False)):
            rec.run("%s/random/%d/%s/%d" % (b, N, p, sl), lambda: rec.eq(
                "random expected edges",
                make(b, "RandomDiGraph", num_vertices=N, param=np.array([p, 0.0]), selfloops=sl).expected_num_edges(),
                p * (N * N if sl else N * (N - 1))), dict(N=N, p=p, selfloops=sl))


def c07(rec):
    for cid, c in fitness_cases(rec.tier):
        def go(c=c):
            m = c.model()
            d, o, i = degrees_of(c.P(), c.adm())
            rec.eq("expected degree", m.expected_degree(), d)
            rec.eq("expected out degree", m.expected_out_degree(), o)
            rec.eq("expected in degree", m.expected_in_degree(), i)
            m = c.model()
            rec.eq("expected in degree (fresh)", m.expected_in_degree(), i)
            if c.multi:
                D = [degrees_of(P, c.adm()) for P in c.PL()]
                for fn, k in (("expected_degree_by_label", 0), ("expected_out_degree_by_label", 1),
                              ("expected_in_degree_by_label", 2)):
                    rec.eq(fn, getattr(m, fn)(), np.array([x[k] for x in D]).T)
        rec.run(cid, go, c.desc())
    for b in BACKENDS:
        for N, p, sl in ((4, 0.3, False), (5, 0.7, True), (1, 0.4, True)):
            def go(b=b, N=N, p=p, sl=sl):
                m = make(b, "RandomDiGraph", num_vertices=N, param=np.array([p, 0.0]), selfloops=sl)
                A = np.ones((N, N), bool)
                if not sl:
                    np.fill_diagonal(A, False)
                d, o, i = degrees_of(np.full((N, N), p), A)
                rec.eq("random expected degree", m.expected_degree(), d)
                rec.eq("random out degree", m.expected_out_degree(), o)
                rec.eq("random in degree", m.expected_in_degree(), i)
            rec.run("%s/random/%d/%s/%d" % (b, N, p, sl), go, dict(N=N, p=p, selfloops=sl))


def c08(rec):
    for cid, c in fitness_cases(rec.tier):
        g = gen("prop", cid)
        prop = np.round(g.uniform(-2, 5, c.N), 3)
        prop2 = np.round(g.uniform(0, 5, (c.N, 2)), 3)
        for sl in (False, True):
            def go(c=c, sl=sl, prop=prop, prop2=prop2):
                m = c.model()
                A = c.adm(sl)
                P = c.P()
                for nd in ("out", "in", "out-in"):
                    rec.eq("av_nn_property " + nd, m.expected_av_nn_property(prop.copy(), ndir=nd, selfloops=sl),
                           avnn_of(P, A, prop, nd), rtol=1e-7, atol=1e-9)
                    if c.N > 1 and JIT is False:
                        w = np.stack([avnn_of(P, A, prop2[:, k], nd) for k in range(2)], 1)
                        rec.eq("av_nn vector property " + nd,
                               m.expected_av_nn_property(prop2.copy(), ndir=nd, selfloops=sl), w, rtol=1e-7, atol=1e-9)
                D = dict(zip(("out-in", "out", "in"), degrees_of(P, A)))
                for nd in ("out", "in", "out-in"):
                    for dd in ("out", "in", "out-in"):
                        rec.eq("av_nn_degree %s %s" % (dd, nd),
                               m.expected_av_nn_degree(ddir=dd, ndir=nd, selfloops=sl),
                               avnn_of(P, A, D[dd], nd), rtol=1e-7, atol=1e-9)
                rec.eq("default self-loops of the model",
                       m.expected_av_nn_property(prop.copy(), selfloops=None),
                       avnn_of(P, c.adm(), prop, "out"), rtol=1e-7, atol=1e-9)
            rec.run("%s/asked=%d" % (cid, sl), go, dict(c.desc(), prop=prop))


def observed(c, g, dens=0.5):
    """A random graph of positive probability: edges only where p>0, non-edges
    only where p<1."""
    P = c.P()
    A = (g.uniform(size=P.shape) < dens) & (P > 0) & c.adm()
    A |= np.isinf(c.LQ()) & c.adm()
    return A


def forms(b, A, g):
    yield "array", A.copy()
    yield "bool array", A.astype(bool)
    yield "float weights", A * np.round(g.uniform(0.5, 3, A.shape), 2)
    yield "csr", sp.csr_array(A.astype(float))
    yield "csc", sp.csc_array(A.astype(int))
    w = sp.csr_array(A * np.round(g.uniform(0.5, 3, A.shape), 2))
    yield "weighted csr", w.copy()
    for i in range(A.shape[0]):
        s, e = w.indptr[i], w.indptr[i + 1]
        w.indices[s:e] = w.indices[s:e][::-1].copy()
        w.data[s:e] = w.data[s:e][::-1].copy()
    yield "csr with unsorted indices", sp.csr_array((w.data.copy(), w.indices.copy(), w.indptr.copy()), shape=w.shape)
    yield "coo matrix", sp.coo_matrix(A.astype(float))
    if A.any():
        yield "graph", digraph_of("dense" if b == "dense" else "sparse", A)
        yield "weighted graph", digraph_of("dense" if b == "dense" else "sparse", A * 2, weighted=True)


def c09(rec):
    for cid, c in fitness_cases(rec.tier):
        g = gen("obs", cid)

        def go(c=c, g=g):
            m = c.model()
            P, LP, LQ, adm = c.P(), c.LP(), c.LQ(), c.adm()
            A = observed(c, g).astype(int)
            want = np.where(A != 0, LP, LQ)[adm].sum()
            for nm, form in forms(c.backend, A, g):
                rec.eq("log_likelihood of " + nm, m.log_likelihood(form), want, rtol=1e-7, atol=1e-9, detail=A.tolist())
            # impossible graphs
            bad = (P == 0) & adm
            if bad.any():
                B = A.copy()
                i, j = np.argwhere(bad)[-1]
                B[i, j] = 1
                rec.eq("impossible edge", m.log_likelihood(B), -INF)
            if c.N > 1:
                for sl in (False, True):
                    B = A.copy()
                    if not sl:
                        np.fill_diagonal(B, 0)
                    am = c.adm(sl)
                    w = np.where(B != 0, LP, LQ)[am].sum()
                    rec.eq("selfloops argument", m.log_likelihood(B, selfloops=sl), w, rtol=1e-7, atol=1e-9)
        rec.run(cid, go, c.desc())
        if not c.multi:
            continue

        def go2(c=c, g=gen("obst", cid)):
            m = c.model()
            PL, LP, LQ, adm = c.PL(), c.LPL(), c.LQL(), c.adm()
            T = ((g.uniform(size=PL.shape) < 0.5) & (PL > 0) & adm[None]) | (np.isinf(LQ) & adm[None])
            T = T.astype(int)
            want = np.where(T != 0, LP, LQ)[np.broadcast_to(adm, T.shape)].sum()
            rec.eq("tensor likelihood", m.log_likelihood(T), want, rtol=1e-7, atol=1e-9)
            rec.eq("weighted tensor likelihood", m.log_likelihood(T * 2.5), want, rtol=1e-7, atol=1e-9)
            rec.eq("list of sparse layers", m.log_likelihood([sp.csr_array(t.astype(float)) for t in T]), want,
                   rtol=1e-7, atol=1e-9)
            if T.any(axis=(1, 2)).all():
                gr = multidigraph_of("dense" if c.backend == "dense" else "sparse", T)
                rec.eq("multigraph likelihood", m.log_likelihood(gr), want, rtol=1e-7, atol=1e-9)
            bad = (PL == 0) & adm[None]
            for l, i, j in np.argwhere(bad)[[0, -1]] if bad.any() else []:
                B = T.copy()
                B[l, i, j] = 1
                rec.eq("impossible labelled edge", m.log_likelihood(B), -INF)
            if c.N > 1:
                sl = not c.selfloops
                B = T.copy()
                for l in range(c.L):
                    np.fill_diagonal(B[l], 0)
                if np.any((PL >= 1)):
                    return
                am = np.broadcast_to(c.adm(sl), B.shape)
                rec.eq("tensor selfloops argument", m.log_likelihood(B, selfloops=sl),
                       np.where(B != 0, LP, LQ)[am].sum(), rtol=1e-7, atol=1e-9)
        rec.run(cid + "/tensor", go2, c.desc())
    # certain absences
    for b in BACKENDS:
        for name in SINGLE:
            def go(b=b, name=name):
                c = Case(b, name, [INF, 1.0, 0.0], [1.0, 2.0, 0.5], 0.5, False)
                m = c.model()
                adm = c.adm()
                for A in (np.zeros((3, 3), int), np.array([[0, 1, 1], [0, 0, 0], [0, 0, 0]]),
                          np.array([[0, 1, 1], [1, 0, 1], [0, 0, 0]]), np.array([[0, 1, 1], [1, 0, 1], [1, 0, 0]])):
                    w = np.where(A != 0, c.LP(), c.LQ())[adm].sum()
                    rec.eq("likelihood with certain links", m.log_likelihood(A), w, detail=A.tolist())
            rec.run("%s/%s/certain" % (b, name), go)
        rec.run("%s/random" % b, lambda: random_like(rec, b))


def random_like(rec, b):
    for p in (0.0, 0.3, 1.0):
        for sl in (False, True):
            N = 4
            m = make(b, "RandomDiGraph", num_vertices=N, param=np.array([p, 0.5]), selfloops=sl)
            for asked in (None, False, True):
                eff = sl if asked is None else asked
                kw = {} if asked is None else dict(selfloops=asked)
                for A in (np.zeros((N, N), int), np.ones((N, N), int), np.triu(np.ones((N, N), int), 1),
                          np.tril(np.ones((N, N), int), 0)):
                    A = A.copy()
                    adm = np.ones((N, N), bool)
                    if not eff:
                        np.fill_diagonal(A, 0)
                        np.fill_diagonal(adm, False)
                    lp = -INF if p == 0 else math.log(p)
                    lq = -INF if p == 1 else math.log1p(-p)
                    n1, n0 = int(A[adm].sum()), int((1 - A)[adm].sum())
                    w = (n1 * lp if n1 else 0.0) + (n0 * lq if n0 else 0.0)
                    for nm, form in forms(b, A, gen("rl")):
                        rec.eq("random log-likelihood of " + nm, m.log_likelihood(form, **kw), w,
                               detail="p=%r selfloops=%r asked=%r %s" % (p, sl, asked, A.tolist()))


# ---------------------------------------------------------------- sampling
class Stream:
    """Replaces numpy's uniform, exponential and geometric draws."""
    UNI = ("random", "random_sample", "rand", "ranf", "sample", "uniform")

    def __init__(self, fun, expo=None, geo=None):
        self.fun, self.k = fun, 0
        self.ek = 0
        self.expo, self.geo = expo, geo

    def _many(self, size):
        if size is None:
            v = self.fun(self.k)
            self.k += 1
            return v
        n = int(np.prod(size))
        v = np.array([self.fun(self.k + i) for i in range(n)]).reshape(size)
        self.k += n
        return v

    def __enter__(self):
        self.old = {}
        import numpy.random as rng
        self.rng = rng

        def put(n, f):
            self.old[n] = getattr(rng, n)
            setattr(rng, n, f)
        for n in ("random", "random_sample", "ranf", "sample"):
            if hasattr(rng, n):
                put(n, lambda size=None: self._many(size))
        put("rand", lambda *s: self._many(s or None))
        put("uniform", lambda low=0.0, high=1.0, size=None: low + (high - low) * self._many(size))
        if self.expo:
            def ex(scale=1.0, size=None):
                if size is None:
                    self.ek += 1
                    return self.expo(scale, self.ek)
                out = np.empty(size)
                sc = np.broadcast_to(scale, out.shape)
                for ix in np.ndindex(*out.shape):
                    self.ek += 1
                    out[ix] = self.expo(sc[ix], self.ek)
                return out
            put("exponential", ex)
            put("standard_exponential", lambda size=None: ex(1.0, size))
        if self.geo:
            def ge_(p, size=None):
                if size is None:
                    self.ek += 1
                    return self.geo(p, self.ek)
                out = np.empty(size)
                pp = np.broadcast_to(p, out.shape)
                for ix in np.ndindex(*out.shape):
                    self.ek += 1
                    out[ix] = self.geo(pp[ix], self.ek)
                return out
            put("geometric", ge_)
        return self

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(self.rng, n, f)


def sample_adj(m, **kw):
    g = m.sample(**kw)
    a = g.adj
    if isinstance(a, (list, tuple)):
        return np.array([dense(x).astype(float) for x in a]), g
    return dense(a).astype(float), g


def check_sampled_graph(rec, m, g, multi):
    rec.true("sampled graph has the vertices", g.num_vertices == m.num_vertices)
    rec.true("identifiers of the sample", len(g.id_dict) == m.num_vertices)
    if multi:
        rec.true("sampled graph has the labels", g.num_labels == m.num_labels)


def probs(c, m):
    if c.multi:
        return c.PL()
    return c.P()


def sampling_cases(tier):
    for cid, c in fitness_cases(tier):
        if cid.endswith("pbig"):
            continue
        if c.N > 12 and "blocks" not in cid:
            continue
        yield cid, c


def c10(rec):
    if JIT:
        return c10_jit(rec)
    for cid, c in sampling_cases(rec.tier):
        for sl in (c.selfloops, not c.selfloops) if c.N <= 5 else (c.selfloops,):
            def go(c=c, sl=sl):
                m = c.model()
                P = probs(c, m)
                adm = np.broadcast_to(c.adm(sl), P.shape)
                for cst in (0.0, 0.12, 0.43, 0.77, 0.999999):
                    with Stream(lambda k: cst):
                        A, g = sample_adj(m, selfloops=sl)
                    rec.true("edges are the pairs whose draw is below p (constant draw %s)" % cst,
                             A.shape == P.shape and np.array_equal(A != 0, adm & (P > cst)),
                             "got %s want %s" % (short(A), short(adm & (P > cst))))
                    check_sampled_graph(rec, m, g, c.multi)
                # one draw at a time
                with Stream(lambda k: 1 - 1e-12) as s:
                    A, g = sample_adj(m, selfloops=sl)
                base = A != 0
                n = s.k
                if n > 700:
                    ks = sorted(set(gen("ks", n).randint(0, n, 60)))
                else:
                    ks = range(n)
                hits = np.zeros(P.shape)
                for k in ks:
                    with Stream(lambda q: 0.0 if q == k else 1 - 1e-12):
                        A, g = sample_adj(m, selfloops=sl)
                    new = (A != 0) & ~base
                    rec.true("one draw decides at most one pair", new.sum() <= 1, "draw %d gave %s" % (k, np.argwhere(new).tolist()))
                    hits += new
                want = adm & (P > 0) & (P < 1 - 1e-9)
                sure = (P < 1 - 1e-9) | ~adm           # not decided by the rounding of the two draws used
                if n <= 700:
                    rec.true("every admissible pair has exactly one own draw",
                             np.array_equal((hits > 0)[sure], want[sure]) and hits.max(initial=0) <= 1,
                             "hits %s want %s" % (short(hits), short(want)))
                else:
                    rec.true("no pair has two draws", hits.max() <= 1 and not np.any(hits[~want & sure]))
            rec.run("%s/asked=%d" % (cid, sl), go, c.desc())
    for b in BACKENDS:
        for N, p, sl in ((3, 0.4, False), (4, 0.6, True)):
            def go(b=b, N=N, p=p, sl=sl):
                m = make(b, "RandomDiGraph", num_vertices=N, param=np.array([p, 0.5]), selfloops=sl)
                adm = np.ones((N, N), bool)
                if not sl:
                    np.fill_diagonal(adm, False)
                for cst in (0.0, p - 0.01, p + 0.01):
                    with Stream(lambda k: cst):
                        A, g = sample_adj(m)
                    rec.true("random sample", np.array_equal(A != 0, adm & (p > cst)), short(A))
                    check_sampled_graph(rec, m, g, False)
                hits = np.zeros((N, N))
                with Stream(lambda k: 0.99) as s:
                    sample_adj(m)
                for k in range(s.k):
                    with Stream(lambda q: 0.0 if q == k else 0.99):
                        A, g = sample_adj(m)
                    rec.true("one draw, one pair", (A != 0).sum() <= 1)
                    hits += A != 0
                rec.true("each pair one draw", np.array_equal(hits, adm.astype(float)), short(hits))
            rec.run("%s/random/%d/%d" % (b, N, sl), go)
    # identifiers of a reference graph are kept
    for b in BACKENDS:
        def go(b=b):
            gr = digraph_of("dense" if b == "dense" else "sparse", np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0]]))
            c = Case(b, "FitnessModel", [1, 2, 3], [1, 1, 1], 0.5)
            s = c.model().sample(ref_g=gr)
            rec.true("identifiers of the reference graph", s.id_dict == gr.id_dict)
        rec.run("%s/ref" % b, go)


def seed_jit(k):
    import numba

    @numba.njit
    def s(k):
        np.random.seed(k)
    s(k)
    np.random.seed(k)


def c10_jit(rec):
    n = 1500 if rec.tier == "quick" else 6000
    for cid, c in fitness_cases("quick", names=SINGLE + MULTI):
        if "(3, 2)" not in cid and "/5/" not in cid:
            continue
        if not cid.endswith("sl=1/0") and not cid.endswith("sl=0/0"):
            continue
        if c.backend == "spark":
            continue

        def go(c=c):
            m = c.model()
            P = probs(c, m)
            adm = np.broadcast_to(c.adm(), P.shape)
            seed_jit(12345)
            tot = np.zeros(P.shape)
            for _ in range(n):
                A, g = sample_adj(m)
                tot += A != 0
            w = np.where(adm, P, 0)
            sd = np.sqrt(n * w * (1 - w))
            rec.true("frequencies (6 sigma, fixed seed)", np.all(np.abs(tot - n * w) <= 6 * sd + 1e-9),
                     "freq %s p %s" % (short(tot / n), short(w)))
        rec.run(cid + "/jit", go, c.desc())


def c11(rec):
    if JIT:
        return
    eps = 2.0 ** -24

    def expo(scale, k):
        return scale * (1 + k * eps)
    g0 = gen("c11")
    for cid, c in sampling_cases(rec.tier):
        if c.N < 2 or cid.endswith("p0"):
            continue
        for variant in ("own", "given"):
            def go(c=c, variant=variant, cid=cid):
                g = gen("s", cid)
                x, y = c.x.copy(), c.y.copy()
                # totals must agree
                if c.multi:
                    if variant == "given":
                        so, si = np.round(g.uniform(0.1, 2, x.shape), 3), np.round(g.uniform(0.1, 2, x.shape), 3)
                        so[g.uniform(size=so.shape) < 0.2] = 0
                        so[0] += 0.5
                        si[-1] += 0.5
                    else:
                        x, y = x.copy(), y.copy()
                        x[0, x.sum(0) == 0] = 1.0
                        y[-1, y.sum(0) == 0] = 1.0
                        so, si = x, y
                    si = si * (so.sum(0) / si.sum(0))
                    if variant == "own":
                        y = si
                else:
                    if variant == "given":
                        so, si = np.round(g.uniform(0.1, 2, c.N), 3), np.round(g.uniform(0.1, 2, c.N), 3)
                    else:
                        if x.sum() == 0 or y.sum() == 0:
                            raise Skip("empty")
                        so, si = x, y
                    si = si * (so.sum() / si.sum())
                    if variant == "own":
                        y = si
                cc = Case(c.backend, c.name, x, y, c.param, c.selfloops, **c.kw)
                m = cc.model()
                P = probs(cc, m)
                adm = np.broadcast_to(cc.adm(), P.shape)
                kw = {}
                if variant == "given":
                    kw = dict(out_strength_label=so, in_strength_label=si) if c.multi else dict(out_strength=so, in_strength=si)
                for cst in (0.0, 0.3):
                    with Stream(lambda k: cst, expo=expo) as s:
                        A, gr = sample_adj(m, weights="cremb", **kw)
                    edges = adm & (P > cst)
                    if c.multi:
                        S = np.einsum("il,jl->lij", so, si) / so.sum(0)[:, None, None]
                    else:
                        S = np.outer(so, si) / so.sum()
                    with np.errstate(all="ignore"):
                        mean = np.where(edges, S / np.where(P > 0, P, 1), 0.0)
                    if s.ek == 0 and edges.any():
                        raise Skip("weights drawn by another function")
                    rec.true("weights only on sampled edges", not np.any(A[~edges]), short(A))
                    with np.errstate(all="ignore"):
                        ratio = (A / mean)[edges & (mean > 0)]
                    rec.true("weight is a draw with the mean of its own pair",
                             A.shape == mean.shape and np.all(A[edges & (mean == 0)] == 0)
                             and np.all((ratio > 1 - 1e-9) & (ratio < 1 + (s.ek + 1) * eps)),
                             "got %s means %s" % (short(A), short(mean)))
                    kk = np.rint((ratio - 1) / eps)
                    if c.backend != "spark":
                        rec.true("every weight is a fresh draw", len(set(kk.tolist())) == len(kk), kk.tolist())
                # unequal totals
                for fac in (1.01, 1 + 1e-5, 1 - 1e-5, 0.5):
                    so2 = so * fac
                    kw = dict(out_strength_label=so2, in_strength_label=si) if c.multi else dict(out_strength=so2, in_strength=si)
                    rec.raises("unequal totals are rejected", Exception, lambda: m.sample(weights="cremb", **kw), fac)
                if c.multi and c.L > 1:
                    so2 = so.copy()
                    so2[:, -1] *= 1.01
                    rec.raises("unequal totals of one label are rejected", Exception, lambda: m.sample(
                        weights="cremb", out_strength_label=so2, in_strength_label=si))
            rec.run("%s/%s" % (cid, variant), go, c.desc())
    for b in BACKENDS:
        for disc in (False, True):
            for sl in (False, True):
                def go(b=b, disc=disc, sl=sl):
                    N, p, q = 4, 0.45, 0.3
                    m = make(b, "RandomDiGraph", num_vertices=N, param=np.array([p, q]), selfloops=sl,
                             discrete_weights=disc)
                    adm = np.ones((N, N), bool)
                    if not sl:
                        np.fill_diagonal(adm, False)
                    with Stream(lambda k: 0.1, expo=expo, geo=lambda p, k: p * (1 + k * eps)) as s:
                        A, gr = sample_adj(m, weights="random")
                    if s.ek == 0:
                        raise Skip("weights drawn by another function")
                    mean = (1 - q) if disc else 1 / q
                    r = A[adm] / mean
                    rec.true("random weights: one draw of the fitted rate per edge",
                             not np.any(A[~adm]) and np.all((r > 1) & (r < 1 + (s.ek + 1) * eps))
                             and len(set(np.rint((r - 1) / eps))) == adm.sum(), short(A))
                    with Stream(lambda k: 0.9, expo=expo, geo=lambda p, k: p) as s:
                        A, gr = sample_adj(m, weights="random")
                    rec.true("no weight without edge", not A.any())
                    so, si = np.array([1.0, 2, 3, 4]), np.array([4.0, 1, 2, 3])
                    with Stream(lambda k: 0.1, expo=expo) as s:
                        A, gr = sample_adj(m, weights="cremb", out_strength=so, in_strength=si)
                    mean = np.where(adm, np.outer(so, si) / (10.0 * p), 0)
                    rec.eq("random cremb weights", A, mean, rtol=1e-4)
                    rec.raises("unequal totals are rejected", Exception,
                               lambda: m.sample(weights="cremb", out_strength=so, in_strength=si * 1.1))
                    rec.raises("unequal totals are rejected", Exception,
                               lambda: m.sample(weights="cremb", out_strength=so, in_strength=si * (1 + 1e-5)))
                rec.run("%s/random/%d/%d" % (b, disc, sl), go)


def c12(rec):
    for b in BACKENDS:
        for N in (1, 2, 5, 70) + tuple(v + 3 for v in mined()[0]):
            for p in (0.0, 0.37, 1.0) if N < 20 else (0.37,):
                for sl in (False, True):
                    for disc in (False, True):
                        def go(b=b, N=N, p=p, sl=sl, disc=disc):
                            q = 0.6
                            m = make(b, "RandomDiGraph", num_vertices=N, param=np.array([p, q]), selfloops=sl,
                                     discrete_weights=disc)
                            adm = np.ones((N, N), bool)
                            if not sl:
                                np.fill_diagonal(adm, False)
                            P = np.full((N, N), p)
                            e = P[adm].sum()
                            rec.eq("edges", m.expected_num_edges(), e)
                            rec.eq("total weight", m.expected_total_weight(), e / (1 - q) if disc else e / q)
                            d, o, i = degrees_of(P, adm)
                            rec.eq("degree", m.expected_degree(), d)
                            rec.eq("out degree", m.expected_out_degree(), o)
                            rec.eq("in degree", m.expected_in_degree(), i)
                            prop = np.round(gen("p12", N).uniform(0, 3, N), 3)
                            for asked in (False, True):
                                A = np.ones((N, N), bool)
                                if not asked:
                                    np.fill_diagonal(A, False)
                                D = dict(zip(("out-in", "out", "in"), degrees_of(P, A)))
                                for nd in ("out", "in", "out-in"):
                                    rec.eq("neighbour average " + nd,
                                           m.expected_av_nn_property(prop, ndir=nd, selfloops=asked),
                                           avnn_of(P, A, prop, nd), atol=1e-9)
                                    for dd in D:
                                        rec.eq("neighbour degree %s %s" % (dd, nd),
                                               m.expected_av_nn_degree(ddir=dd, ndir=nd, selfloops=asked),
                                               avnn_of(P, A, D[dd], nd), atol=1e-9)
                        rec.run("%s/%d/%s/%d/%d" % (b, N, p, sl, disc), go, dict(N=N, p=p, selfloops=sl, discrete=disc))
        for N, E, W in ((4, 5, 12), (3, 6, 6.0), (7, 0, 3)):
            for sl in (False, True):
                for disc in (False, True):
                    def go(b=b, N=N, E=E, W=W, sl=sl, disc=disc):
                        m = make(b, "RandomDiGraph", num_vertices=N, num_edges=E, total_weight=W,
                                 discrete_weights=disc, selfloops=sl)
                        m.fit()
                        rec.eq("fitted probability", m.param[0], E / (N * N if sl else N * (N - 1)))
                        rec.eq("fitted edges", m.expected_num_edges(), E)
                        if E > 0:
                            rec.eq("fitted weight", m.expected_total_weight(), W)
                    rec.run("%s/fit/%d/%d/%d" % (b, N, sl, disc), go, dict(N=N, E=E, W=W, selfloops=sl, discrete=disc))
        rec.run("%s/likelihood" % b, lambda: random_like(rec, b))


# --------------------------------------------------------------- query purity
def snap(m):
    out = {}
    for k in ("param", "prop_out", "prop_in", "selfloops", "num_vertices", "num_labels", "num_edges",
              "num_edges_label", "per_label", "groups", "total_weight", "discrete_weights"):
        if hasattr(m, k):
            out[k] = freeze(getattr(m, k))
    return out


def freeze(v):
    if type(v).__name__ == "empty_index":
        return "empty"
    if isinstance(v, np.ndarray):
        return ("a", v.dtype.str, v.shape, v.tobytes())
    if sp.issparse(v):
        return freeze(v.toarray())
    if isinstance(v, (list, tuple)) or type(v).__name__ == "List":
        return tuple(freeze(x) for x in v)
    return repr(v)


def queries(c, prop, A):
    q = []
    for fn in ("expected_num_edges", "expected_degree", "expected_out_degree", "expected_in_degree"):
        for r in (False, True):
            q.append(("%s(recompute=%r)" % (fn, r), lambda m, fn=fn, r=r: getattr(m, fn)(recompute=r)))
    if c.multi:
        for fn in ("expected_num_edges_label", "expected_degree_by_label", "expected_out_degree_by_label",
                   "expected_in_degree_by_label"):
            for r in (False, True):
                q.append(("%s(recompute=%r)" % (fn, r), lambda m, fn=fn, r=r: getattr(m, fn)(recompute=r)))
    for nd in ("out", "in", "out-in"):
        for sl in (False, True, None):
            q.append(("av_nn_property(%s,%r)" % (nd, sl),
                      lambda m, nd=nd, sl=sl: m.expected_av_nn_property(prop.copy(), ndir=nd, selfloops=sl)))
            q.append(("av_nn_property(%s,%r,deg_recompute)" % (nd, sl),
                      lambda m, nd=nd, sl=sl: m.expected_av_nn_property(prop.copy(), ndir=nd, selfloops=sl, deg_recompute=True)))
            for dd in ("out", "in", "out-in"):
                for r in (False, True):
                    q.append(("av_nn_degree(%s,%s,%r,recompute=%r)" % (dd, nd, sl, r),
                              lambda m, dd=dd, nd=nd, sl=sl, r=r: m.expected_av_nn_degree(
                                  ddir=dd, ndir=nd, selfloops=sl, recompute=r)))
    q.append(("log_likelihood", lambda m: m.log_likelihood(A.copy())))
    for sl in (None, False, True):
        def smp(m, sl=sl):
            with Stream(lambda k: 0.35):
                return sample_adj(m, selfloops=sl)[0]
        if not JIT:
            q.append(("sample(%r)" % sl, smp))
    bad = [
        ("av_nn bad direction", lambda m: m.expected_av_nn_property(prop.copy(), ndir="up", selfloops=not c.selfloops)),
        ("av_nn bad shape", lambda m: m.expected_av_nn_property(prop[:-1].copy(), selfloops=not c.selfloops)),
        ("av_nn bad type", lambda m: m.expected_av_nn_property(np.array(["a"] * c.N), selfloops=not c.selfloops)),
        ("av_nn_degree bad direction", lambda m: m.expected_av_nn_degree(ndir="up", selfloops=not c.selfloops)),
        ("av_nn_degree bad degree", lambda m: m.expected_av_nn_degree(ddir="up", selfloops=not c.selfloops)),
        ("likelihood bad shape", lambda m: m.log_likelihood(np.zeros((c.N + 1, c.N + 1)), selfloops=not c.selfloops)),
        ("likelihood bad type", lambda m: m.log_likelihood("g", selfloops=not c.selfloops)),
        ("sample bad weights", lambda m: m.sample(weights="nope", selfloops=not c.selfloops)),
    ]
    return q, bad


class RCase:
    """The uniform ensemble in the same interface."""
    def __init__(self, b, sl):
        self.backend, self.selfloops, self.N, self.multi = b, sl, 4, False
        self.x = np.ones(4)

    def desc(self):
        return dict(backend=self.backend, model="RandomDiGraph", N=4, param=[0.3, 0.2], selfloops=self.selfloops)

    def model(self, **kw):
        a = dict(num_vertices=4, param=np.array([0.3, 0.2]), selfloops=self.selfloops)
        a.update(kw)
        return make(self.backend, "RandomDiGraph", **a)


def purity_cases(tier):
    for cid, c in fitness_cases(tier):
        if ("(3, 2)" in cid or "/3/" in cid or "/5/" in cid) and "blocks" not in cid:
            yield cid, c
    for b in BACKENDS:
        for sl in (False, True):
            yield "%s/random/%d" % (b, sl), RCase(b, sl)
    from cond_cases import cond_cases
    for cid, c in list(cond_cases("quick"))[:3]:
        yield "cond/" + cid, c


def c13(rec):
    reps = 2 if rec.tier == "quick" else 12
    for cid, c in purity_cases(rec.tier):
        g = gen("purity", cid)
        prop = np.round(g.uniform(0.1, 5, c.N), 3)
        A = np.zeros((c.N, c.N), int)
        A[0, 1] = A[2, 1] = 1
        qs, bad = queries(c, prop, A)
        if cid.startswith("cond/"):
            qs = [q for q in qs if "av_nn" not in q[0]]
            qs = [q if not q[0].startswith("log") else ("log_likelihood", lambda m, A=c.possible(): m.log_likelihood(A)) for q in qs]
            bad = [b for b in bad if "likelihood" not in b[0]]
        fresh_cache = {}

        def want(name, f):
            if name not in fresh_cache:
                fresh_cache[name] = dense(f(c.model()))
            return fresh_cache[name]

        for r in range(reps):
            def go(c=c, r=r, cid=cid):
                gg = gen("order", cid, r)
                m = c.model()
                s0 = snap(m)
                order = gg.permutation(len(qs))
                hist = []
                for pos, k in enumerate(order):
                    name, f = qs[k]
                    if pos % 7 == 3:
                        bn, bf = bad[gg.randint(len(bad))]
                        try:
                            bf(m)
                            ok = False
                        except Exception:
                            ok = True
                        hist.append("!" + bn)
                        rec.true("invalid query raises: " + bn, ok, hist)
                        rec.true("failed query changes nothing", snap(m) == s0, hist)
                    got = f(m)
                    hist.append(name)
                    rec.eq("answer independent of history: " + name, dense(got).copy(), want(name, f),
                           rtol=1e-9, atol=1e-12, detail="after " + "; ".join(hist[-6:]))
                    now = snap(m)
                    rec.true("model unchanged by " + name, now == s0,
                             "%s after %s" % ([k2 for k2 in now if now.get(k2) != s0.get(k2)], hist[-4:]))
            rec.run("%s/order%d" % (cid, r), go, c.desc())
        if isinstance(c, Case):
            def rec_state(c=c):
                for name, f in qs:
                    if "recompute=True" not in name and "deg_recompute" not in name:
                        continue
                    m = c.model()
                    for _, f0 in qs:
                        if _.startswith("sample"):
                            continue
                        f0(m)
                    m.param = c.param * 0.5
                    c2 = Case(c.backend, c.name, c.x, c.y, c.param * 0.5, c.selfloops, **c.kw)
                    if name.startswith("av_nn_degree"):
                        mt = re.match(r"av_nn_degree\((.*),(.*),(.*),recompute=True\)", name)
                        dd, nd, sl = mt.group(1), mt.group(2), eval(mt.group(3))
                        got = m.expected_av_nn_degree(ddir=dd, ndir=nd, selfloops=sl, recompute=True, deg_recompute=True)
                    else:
                        got = f(m)
                    rec.eq("recomputed for the current state: " + name, dense(got), dense(f(c2.model())), rtol=1e-9, atol=1e-12)
            if "/sl=1" in cid or c.multi:
                rec.run(cid + "/recompute", rec_state, c.desc())
    import graph_cases
    graph_cases.purity(rec)


# ------------------------------------------------------------ block partition
def c17(rec):
    km = spark()
    for name in SINGLE + MULTI:
        for N in ((7, 21, 23, 30, 75) if rec.tier == "quick" else (5, 7, 13, 21, 23, 30, 37, 75, 140)) + tuple(2 * v + 5 for v in mined()[0][:2]):
            multi = name in MULTI
            g = gen("c17", name, N)
            size = (N, 3) if multi else (N,)
            x = np.round(g.uniform(0.05, 1.0, size), 3)
            y = np.round(g.uniform(0.05, 1.0, size), 3)
            if multi:
                x[g.uniform(size=size) < 0.4] = 0
                y[g.uniform(size=size) < 0.4] = 0
            A = (g.uniform(size=(N, N)) < 0.3).astype(int)
            np.fill_diagonal(A, 0)
            prop = np.round(g.uniform(0, 2, N), 3)
            ref = Case("spark", name, x, y, 0.3, bool(N % 2))
            P, adm = ref.P(), ref.adm()
            A &= P > 0
            thr = np.array([0.05, 0.2, 0.6])
            for pb in (1, 2, 3, 7, 10, N // 2 + 1, N) if N < 60 else (2, 3):
                def go(name=name, pb=pb):
                    c = Case("spark", name, x, y, 0.3, ref.selfloops, p_blocks=pb)
                    m = c.model()
                    rec.eq("edges over blocks", m.expected_num_edges(), np.where(adm, P, 0).sum())
                    for fn, w in zip(("expected_degree", "expected_out_degree", "expected_in_degree"), degrees_of(P, adm)):
                        rec.eq(fn + " over blocks", getattr(m, fn)(), w)
                    for nd in ("out", "in", "out-in"):
                        rec.eq("neighbour average over blocks", m.expected_av_nn_property(prop, ndir=nd, selfloops=None),
                               avnn_of(P, adm, prop, nd), rtol=1e-7)
                    rec.eq("likelihood over blocks", m.log_likelihood(A), np.where(A != 0, c.LP(), c.LQ())[adm].sum(), rtol=1e-7)
                    if multi:
                        rec.eq("edges by label", m.expected_num_edges_label(), np.where(adm[None], c.PL(), 0).sum(axis=(1, 2)))
                        D = np.array([degrees_of(Q, adm)[0] for Q in c.PL()]).T
                        rec.eq("degrees by label", m.expected_degree_by_label(), D)
                    f, jac = c.model(num_edges=3.0).density_fit_fun(np.array([0.3]))
                    w, wj = total_spec(c, 0.3)
                    rec.eq("fit function over blocks", np.ravel(f)[0], w)
                    rec.eq("fit derivative over blocks", np.ravel(jac)[0], wj)
                    tp, fp, tn, fn = m.confusion_matrix(A, thresholds=thr)
                    for k, t in enumerate(thr):
                        pr = (P >= t)
                        rec.true("confusion counts", (tp[k] + fp[k] + tn[k] + fn[k]) == adm.sum()
                                 and tp[k] + fn[k] == A[adm].sum()
                                 and tp[k] in ((pr & (A != 0))[adm].sum(), ((P > t) & (A != 0))[adm].sum()),
                                 "thr %r: %r" % (t, (tp[k], fp[k], tn[k], fn[k])))
                        rec.true("confusion predictions", tp[k] + fp[k] in (pr[adm].sum(), (P > t)[adm].sum()), (tp[k], fp[k]))
                    if not JIT and pb in (2, 7):
                        for cst in (0.1, 0.4):
                            with Stream(lambda k: cst):
                                B, gr = sample_adj(m)
                            Q = c.PL() if multi else P
                            rec.true("sample over blocks", np.array_equal(B != 0, (Q > cst) & np.broadcast_to(adm, Q.shape)), "N=%d" % N)
                rec.run("%s/%d/%d" % (name, N, pb), go, dict(model=name, N=N, p_blocks=pb, prop_out=x, prop_in=y))
    # whole-run agreement with real Spark in the thorough tier
    if rec.tier != "quick" and not JIT:
        real_spark(rec)


def real_spark(rec):
    def go():
        from pyspark import SparkConf, SparkContext
        conf = SparkConf().setMaster("local[2]").set("spark.ui.enabled", "false").set("spark.driver.host", "127.0.0.1")
        sc = SparkContext(conf=conf)
        sc.setLogLevel("OFF")
        try:
            for name in ("FitnessModel", "MultiInvariantModel"):
                multi = name in MULTI
                g = gen("real", name)
                N = 13
                size = (N, 3) if multi else (N,)
                x, y = g.uniform(0.1, 1, size), g.uniform(0.1, 1, size)
                kw = dict(num_vertices=N, prop_out=x, prop_in=y, param=0.3, selfloops=False, p_blocks=3)
                if multi:
                    kw["num_labels"] = 3
                m = getattr(spark(), name)(sc, **kw)
                c = Case("spark", name, x, y, 0.3, False)
                rec.eq("edges on a real scheduler", m.expected_num_edges(), np.where(c.adm(), c.P(), 0).sum())
                rec.eq("degrees on a real scheduler", m.expected_degree(), degrees_of(c.P(), c.adm())[0])
        finally:
            sc.stop()
    rec.run("real-spark", go)
