"""C04: the root finder reports what it evaluated."""
from contracts.base import *
from engine import hoare as H

X0, TG, AT, RT = T.var("x0", "R"), T.var("target", "R"), T.var("atol", "R"), T.var("rtol", "R")
MI = T.var("max_iter")


def F(x):
    """Value and slope of the (arbitrary, real-valued) function at an extended real."""
    v = lambda nm: T.ite(x.pinf, T.var(nm + "(+inf)", "R"), T.ite(x.ninf, T.var(nm + "(-inf)", "R"), T.app(nm, (T.toreal(x.e),), "R")))
    return v("F"), v("Fp")


def templates(lo, hi):
    """Candidate invariants (name, variables, relation)."""
    fin = lambda x: T.not_(x.special)
    zero = lambda x: T.and_(fin(x), T.eq(x.e, Z))

    def gen(I, names):
        R = [n for n, s in names.items() if s == "R"]
        plain = [n for n in R if not n.endswith(".last")]
        ints = [n for n, s in names.items() if s == "I"]
        for v in plain:
            yield "%s is finite" % v, (v,), fin
            yield "%s is not NaN" % v, (v,), lambda x: T.not_(x.nan)
            yield "%s is not +inf" % v, (v,), lambda x: T.not_(x.pinf)
            yield "%s is not -inf" % v, (v,), lambda x: T.not_(x.ninf)
            yield "%s >= lower bound" % v, (v,), lambda x: H.sc_le(lo, x)
            yield "%s <= upper bound" % v, (v,), lambda x: H.sc_le(x, hi)
            for w in plain:
                if v == w:
                    continue
                yield "%s = F(%s)-target" % (v, w), (v, w), lambda x, y: H.sc_eq(x, Sc(T.sub(F(y)[0], TG)))
                yield "%s = F'(%s)" % (v, w), (v, w), lambda x, y: H.sc_eq(x, Sc(F(y)[1]))
                yield "%s = |%s|" % (v, w), (v, w), lambda x, y: T.and_(fin(x), fin(y), T.eq(x.e, absval(y.e)))
                yield "%s = 0 only if %s = 0" % (v, w), (v, w), lambda x, y: T.implies(zero(x), zero(y))
                yield "%s <= %s" % (v, w), (v, w), H.sc_le
        for i, v in enumerate(R):
            for w in R[:i]:
                yield "%s = %s" % (v, w), (v, w), H.sc_eq
        for v in ints:
            yield "%s >= 0" % v, (v,), lambda x: T.le(T.I(0), x.e)
            yield "%s <= max_iter" % v, (v,), lambda x: T.le(x.e, MI)
            for w in ints:
                if v != w:
                    yield "%s = %s + 1" % (v, w), (v, w), lambda x, y: T.eq(x.e, T.add(y.e, T.I(1)))
    return gen


def absval(e):
    return T.ite(T.le(Z, e), e, T.neg(e))


def solve(C, full, bracket):
    I = C.I
    H.install_seq(I)
    I.opt_merge = True
    st = St(pc=(T.lt(Z, AT), T.le(Z, RT), T.le(T.I(0), MI), T.le(Z, TG)))
    x0 = I.alloc(st, Arr((T.I(1),), lambda ix: Sc(X0)))
    if bracket == "finite":
        lo, hi = Sc(T.var("x_l", "R")), Sc(T.var("x_u", "R"))
    else:
        lo, hi = Sc(T.var("x_l", "R"), ninf=T.var("x_l.inf", "B")), Sc(T.var("x_u", "R"), pinf=T.var("x_u.inf", "B"))
        # a real-valued monotone function has slope 0 at infinity
        st.pc += (T.eq(T.var("Fp(+inf)", "R"), Z), T.eq(T.var("Fp(-inf)", "R"), Z))
    calls = []

    def fun(I, s, a, k):
        v, d = F(H.cell(I, s, a[0]))
        arr = isinstance(a[0], Ref)
        calls.append(1)
        mk = lambda e: I.alloc(s, Arr((T.I(1),), lambda ix: Sc(e)))
        return (mk(v), mk(d))
    I.while_rules = {"solver.monotonic_newton_solver": lambda I, s, st, mod: H.Loop(I, s, st, mod, templates(lo, hi)).run()}
    C.sane(st.pc)
    r = C.call("solver.monotonic_newton_solver", [x0, SymFun("fun", fun), Sc(TG)], st,
               dict(atol=Sc(AT), rtol=Sc(RT), max_iter=Sc(MI), x_l=lo, x_u=hi, full_return=Sc(TRUE if full else FALSE)))
    return r, lo, hi


def ext_le(a, b):
    return H.sc_le(a, b)


def check(C, full, bracket):
    r, lo, hi = solve(C, full, bracket)
    I = C.I
    for o in r.raises:
        if o.val.name == "ValueError":
            x = Sc(X0)
            C.check("rejected only if the starting point is outside the interval", list(o.st.pc), T.not_(T.and_(H.sc_le(lo, x), H.sc_le(x, hi))))
        else:
            C.check("raises no %s" % o.val.name, list(o.st.pc), FALSE)
    if not r.ok:
        return
    hy = list(r.st.pc)
    C.check("a starting point outside the interval is rejected", hy, T.and_(H.sc_le(lo, Sc(X0)), H.sc_le(Sc(X0), hi)))
    if not full:
        x = H.cell(I, r.st, r.val)
        C.check("the solution is in the allowed interval", hy, T.and_(T.not_(x.nan), H.sc_le(lo, x), H.sc_le(x, hi)))
        return
    g = lambda n: I.getattr(r.st, r.val, n)
    c = lambda n: H.cell(I, r.st, g(n))
    last = lambda n: H.as_seq(I, r.st, g(n))
    x, norm, fv = c("x"), last("norm_seq").last, last("f_seq").last
    res = absval(T.sub(F(x)[0], TG))
    C.check("the solution is in the allowed interval", hy, T.and_(T.not_(x.nan), H.sc_le(lo, x), H.sc_le(x, hi)))
    C.sc("the residual is the distance of the function from the target at the solution", hy, norm, Sc(res))
    C.sc("the last value is the function at the solution", hy, fv, Sc(T.sub(F(x)[0], TG)))
    C.check("the last point is the solution", hy, H.sc_eq(last("x_seq").last, x))
    C.check("convergence is reported exactly when the residual is within the tolerance", hy,
            T.eq(I.truth(g("converged"), r.st), T.le(res, T.add(AT, T.mul(RT, TG)))))
    n = g("n_iter").e
    C.check("at most the allowed number of iterations", hy, T.and_(T.le(T.I(0), n), T.le(n, MI)))
    C.check("max_iter_reached", hy, T.eq(I.truth(g("max_iter_reached"), r.st), T.le(MI, n)))
    for q in ("x_seq", "f_seq", "norm_seq", "diff_seq"):
        C.check("%s has one entry per evaluation" % q, hy, T.eq(last(q).n, T.add(n, T.I(1))))
    C.sc("target is stored", hy, g("target"), Sc(TG))
    C.check("max_iter is stored", hy, T.eq(g("max_iter").e, MI))
    d = last("diff_seq").last
    nc = I.truth(g("no_change_stop"), r.st)
    C.check("it stops because of convergence, the iteration limit or no change", hy,
            T.or_(T.le(res, T.add(AT, T.mul(RT, TG))), T.le(MI, n), nc))
    C.check("no_change_stop", hy, T.eq(nc, H.sc_le(d, Sc(RT))))


for full in (True, False):
    for br in ("finite", "any"):
        add_task(["C04"], "solver.monotonic_newton_solver(full_return=%s, %s bracket)" % (full, br), check, full=full, bracket=br)
