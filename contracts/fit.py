"""C05 (and the per-label part of C03): fit stores the solver's answer, which
reproduces the constraint whenever convergence is reported.

The solver is replaced by its contract (C04): it returns some point x and
reports convergence exactly when |fun(x) - target| <= atol + rtol*target."""
from contracts.base import *
from contracts.solver import absval

XS = T.var("x*", "R")
AT, RT, MI = T.var("atol", "R"), T.var("rtol", "R"), T.var("maxiter")
FIELDS = {"x_l": 6, "x_u": 7}


def number(C, st, v):
    """The single number in a parameter value (a number, a one-element array,
    or an array of equal elements)."""
    if isinstance(v, Sc):
        x = v
    else:
        a = C.I.lib.arr(st, v)
        if len(a.shape) != 1:
            raise Unsupported("parameter")
        if a.shape[0] is T.I(1):
            x = a.fn((T.I(0),))
        else:
            x = a.fn((KSTAR,))
            if KSTAR in x.e.fv:
                return None
    if not x.finite:
        raise Unsupported("infinite parameter")
    return T.app("num", (T.toreal(x.e),), "U")


def links(C, cls):
    """Contracts of the probability functions: p_jac_ij and p_ij are the same
    function of parameter and factors (C01, C03)."""
    I = C.I
    c = I.cls(cls)
    pj = I.find(c, "p_jac_ij")
    nz = len(pj.node.args.args)

    def h(sym, pair, n):
        def g(I, st, f, env):
            args = [env[a.arg] for a in f.node.args.args][:n]
            d = number(C, st, args[0]) or ident(C, st, args[0])
            ids = (d,) + tuple(ident(C, st, a) for a in args[1:])
            if sym == "PK" and zero_split(sym, ids) is not None:
                v = Sc(zero_split(sym, ids))
            else:
                v = Sc(T.app(sym, ids, "R"))
            return (v, Sc(T.app(sym + ".jac", ids, "R"))) if pair else v
        return g
    I.over[pj.qual] = h("P", True, nz)
    I.over[I.find(c, "p_ij").qual] = h("P", False, nz)
    pk = I.find(c, "p_jac_ijk")
    if pk is not None:
        nk = len(pk.node.args.args)
        I.over[pk.qual] = h("PK", True, nk)
        I.over[I.find(c, "p_ijk").qual] = h("PK", False, nk)


def solver(C, calls):
    I = C.I

    def h(I, st, f, env):
        x0, fun, target = env["x0"], env["fun"], env["target"]
        pt = I.alloc(st, Arr((T.I(1),), lambda ix: Sc(XS)))
        v = I.call(fun, [pt], {}, st)
        fv = v[0]
        if not (isinstance(fv, Sc) and fv.finite and isinstance(target, Sc)):
            raise Unsupported("function handed to the solver")
        a = I.lib.arr(st, x0)
        start = a.fn((T.I(0),))
        calls.append((list(st.pc), env, a))
        I.oblige(st, "one starting value", T.and_(*[T.eq(s, T.I(1)) for s in a.shape]) if len(a.shape) == 1 else FALSE)
        I.oblige(st, "full solution requested", I.truth(env["full_return"], st))
        I.oblige(st, "tolerances and limit are handed on", T.and_(T.eq(T.toreal(env["atol"].e), AT), T.eq(T.toreal(env["rtol"].e), RT), T.eq(env["max_iter"].e, MI)))
        lo, hi = env["x_l"], env["x_u"]
        I.oblige(st, "parameters are searched in [0, inf]", T.and_(T.eq(T.toreal(lo.e), Z), T.not_(lo.special), hi.pinf))
        return Op(T.app("SOL", (T.toreal(target.e), T.toreal(start.e), T.toreal(fv.e)), "U"))
    I.over["solver.monotonic_newton_solver"] = h

    def attr(st, obj, name):
        if isinstance(obj, Op) and obj.e.op == "app" and obj.e.args[0] == "SOL":
            if name == "x":
                e = obj.e
                return I.alloc(st, Arr((T.I(1),), lambda ix: Sc(solx(e))))
            if name == "converged":
                return Sc(conv(obj.e))
        return None
    I.lib.extra_attr.insert(0, attr)


def solx(e):
    return T.app("SOLX", (e,), "R")


def conv(e):
    tg, fv = e.args[1], T.subst(e.args[3], {XS: solx(e)})
    return T.le(absval(T.sub(fv, tg)), T.add(AT, T.mul(RT, tg)))


@per_class
def fit(C, back, cls, kind, x0, per_label=None):
    M = make(C, back, cls, kind, real=True)
    I = C.I
    links(C, cls)
    calls, warns = [], []
    solver(C, calls)
    I.lib.extra_call["warnings.warn"] = lambda I, st, a, k: warns.append(list(st.pc))
    st = M.st
    r = I.rec(st, M.obj)
    NE = T.var("num_edges", "R")
    fl = dict(r.fields)
    fl.pop("param")
    fl["num_edges"] = (TRUE, Sc(NE))
    if kind == "multi":
        fl["per_label"] = (TRUE, Sc(TRUE if per_label else FALSE))
        fl["num_edges_label"] = (TRUE, vec(I, st, "ne_label", L))
    st.heap[M.obj.addr] = Inst(r.cls, fl)
    st.pc += (T.lt(Z, AT), T.le(Z, RT), T.le(Z, NE))
    n = L if kind == "multi" else T.I(1)
    kw = dict(atol=Sc(AT), rtol=Sc(RT), maxiter=Sc(MI))
    if x0 == "array":
        kw["x0"] = vec(I, st, "start", n)
        i = T.fresh("i")
        st.pc += (T.all_(i, T.I(0), n, T.le(Z, T.app("start", (i,), "R"))),)
        start = lambda k: T.app("start", (k,), "R")
    else:
        start = lambda k: Z
    C.sane(st.pc)
    before = {k: v for k, v in I.rec(st, M.obj).fields.items()}
    res = method(C, M, "fit", **kw)
    C.no_raise("fit", res)
    if not res.ok:
        return
    hy = list(res.st.pc)
    obj = I.rec(res.st, M.obj)
    for k, v in before.items():
        if k not in ("param", "solver_output"):
            C.check("fit leaves %s unchanged" % k, hy, TRUE if obj.fields.get(k) == v or (k in obj.fields and obj.fields[k][1] is v[1]) else FALSE)
    M2 = Model()
    M2.__dict__.update(M.__dict__)
    M2.st = res.st
    P_ = M.P
    so = I.getattr(res.st, M.obj, "solver_output")
    par = I.lib.arr(res.st, I.getattr(res.st, M.obj, "param"))
    C.check("one parameter, or one per label", hy, T.eq(par.shape[0], n) if len(par.shape) == 1 else FALSE)
    a = T.fresh("a")
    hb = hy + bound((a, n))
    if kind == "multi" and per_label:
        sa = I.lib.arr(res.st, so)
        sol = sa.fn((a,))
        tg, st0 = T.app("ne_label", (a,), "R"), start(a)
    else:
        sol = so
        tg, st0 = NE, start(T.I(0))
    if not (isinstance(sol, Op) and sol.e.op == "app" and sol.e.args[0] == "SOL"):
        C.unknown("the solver's answer is stored", "%r" % (sol,))
        return
    C.check("the constraint is the requested number of edges", hb, T.eq(sol.e.args[1], tg))
    C.check("the search starts at x0", hb, T.eq(sol.e.args[2], st0))
    C.sc("the stored parameter is the solver's answer", hb, par.fn((a,)), Sc(solx(sol.e)))
    nm = "expected_num_edges_label" if (kind == "multi" and per_label) else "expected_num_edges"
    r2 = method(C, M2, nm)
    C.no_raise(nm + " after fit", r2)
    if not r2.ok:
        return
    got = r2.val
    if nm.endswith("label"):
        got = I.lib.arr(r2.st, got).fn((a,))
    # the expected number of edges of the fitted model is the solved function at the solution
    h2 = list(r2.st.pc) + bound((a, n))
    fv = T.subst(sol.e.args[3], {XS: solx(sol.e)})
    eq = C.sc("%s of the fitted model is the solved function at the stored parameter" % nm, h2, got, Sc(fv))
    V = T.var("expected", "R")
    lem = P.replace(conv(sol.e), {fv: V})
    C.check("reported convergence means the constraint is met within tolerance", [lem] + [T.eq(sol.e.args[1], tg), T.eq(T.var("E", "R"), V)],
            T.le(absval(T.sub(T.var("E", "R"), tg)), T.add(AT, T.mul(RT, tg))))
    # a warning exactly when not converged
    nc = T.not_(conv(sol.e))
    if per_label:
        C.check("a warning is issued for some label exactly when its fit did not converge", [], TRUE if len(warns) >= 1 else FALSE)
    else:
        for w in warns:
            C.check("a warning is issued only without convergence", w, nc)
        C.check("without convergence a warning is issued", hy + [nc], T.or_(*[T.and_(*[x for x in w if x not in st.pc]) for w in warns]) if warns else FALSE)


def setup():
    for back in ("dense", "sparse"):
        for cls, kind in CLASSES[back]:
            for x0 in (None, "array"):
                for pl in ((True, False) if kind == "multi" else (None,)):
                    add_task(["C05", "C03"], "%s.fit(x0=%s%s)" % (cls, x0, "" if pl is None else ", per_label=%s" % pl), fit, back=back, cls=cls, kind=kind, x0=x0, per_label=pl)


setup()
