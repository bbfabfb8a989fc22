"""C01, C02, C03: scalar link functions of every fitness-type model.

Contract of each kernel: for non-negative, possibly infinite arguments the
result is the extended-real specification below."""
from engine import terms as T
from engine.contract import *
from engine.terms import TRUE, FALSE

Z, ONE = T.R(0), T.R(1)
DENSE, SPARSE, SPARK = "models", "sparse.models", "spark.models"


def zero(v):
    return T.and_(T.not_(v.pinf), T.eq(v.e, Z))


def spec_prod(vs):
    """Extended product with 0 dominating: (zero, infinite, value)."""
    z = T.or_(*[zero(v) for v in vs])
    inf = T.and_(T.not_(z), T.or_(*[v.pinf for v in vs]))
    return z, inf, T.mul(*[v.e for v in vs])


def EXP(x):
    return T.app("EXP", (x,), "R")


def LOG(x):
    return T.app("LOG", (x,), "R")


def pf(kind, t):
    return T.div(t, T.add(ONE, t)) if kind == "fit" else T.sub(ONE, EXP(T.neg(t)))


def qf(kind, t):
    """1 - p."""
    return T.inv(T.add(ONE, t)) if kind == "fit" else EXP(T.neg(t))


def lemma_q(C, t):
    C.check("lemma: the two forms of the complement agree (logistic)", [T.le(Z, t)], T.eq(T.sub(ONE, pf("fit", t)), qf("fit", t)))


def spec_p(kind, vs):
    z, inf, t = spec_prod(vs)
    return Sc(T.ite(z, Z, T.ite(inf, ONE, pf(kind, t))))


def spec_logp(kind, vs):
    z, inf, t = spec_prod(vs)
    return Sc(T.ite(inf, Z, LOG(pf(kind, t))), ninf=z)


def spec_log1mp(kind, vs):
    z, inf, t = spec_prod(vs)
    return Sc(T.ite(z, Z, LOG(qf(kind, t))), ninf=inf)


def scalar_args(C, shape, zdyad):
    """shape: 'vec' d is a length-1 array, 'sc' d is a number."""
    st = St()
    d, h1 = nonneg_ext("d")
    x, h2 = nonneg_ext("x")
    y, h3 = nonneg_ext("y")
    vs, hyps = [d, x, y], h1 + h2 + h3
    dz, zarg = d, Sc(ONE)
    if shape == "vec":
        dz = C.I.alloc(st, Arr((T.I(1),), lambda ix: d))
    if zdyad:
        z, h4 = nonneg_ext("z")
        vs, hyps, zarg = vs + [z], hyps + h4, z
    else:
        zarg = C.I.call  # never looked at
        zarg = Op(T.app("dyad", (), "U"))
    st.pc = tuple(hyps)
    return st, dz, x, y, zarg, vs, hyps


def scalar_kernel(C, qual, kind, shape, what, zdyad=False):
    st, d, x, y, z, vs, hyps = scalar_args(C, shape, zdyad)
    C.sane(hyps)
    r = C.call(qual, [d, x, y, z], st)
    C.no_raise("call", r)
    if not r.ok:
        return
    hy = list(r.st.pc)
    if what == "p":
        C.sc("result is the link probability of the model", hy, r.val, spec_p(kind, vs))
        C.check("result is at least 0", hy, T.le(Z, T.toreal(r.val.e)))
        C.check("result is at most 1", hy, T.le(T.toreal(r.val.e), ONE))
        z, inf, _ = spec_prod(vs)
        C.check("zero factor gives probability 0", hy + [z], T.eq(T.toreal(r.val.e), Z))
        C.check("infinite product gives probability 1", hy + [inf], T.eq(T.toreal(r.val.e), ONE))
    elif what == "logp":
        C.sc("result is the logarithm of the link probability", hy, r.val, spec_logp(kind, vs))
    elif what == "log1mp":
        C.sc("result is the logarithm of the complement", hy, r.val, spec_log1mp(kind, vs))


def jac_kernel(C, qual, kind, shape, zdyad=False):
    st, d, x, y, z, vs, hyps = scalar_args(C, shape, zdyad)
    C.sane(hyps)
    args = [d, x, y] + ([z] if zdyad else [])
    r = C.call(qual, args, st)
    C.no_raise("call", r)
    if not r.ok:
        return
    hy = list(r.st.pc)
    f, j = r.val
    C.sc("first component is the link probability of the model", hy, f, spec_p(kind, vs))
    # slope on finite arguments: d/dd of pf(d*s)
    dv = vs[0]
    fin = [T.not_(v.pinf) for v in vs[1:]]
    s = T.mul(*[v.e for v in vs[1:]])
    t = T.mul(dv.e, s)
    sl = T.mul(s, T.inv(T.mul(T.add(ONE, t), T.add(ONE, t)))) if kind == "fit" else T.mul(s, EXP(T.neg(t)))
    C.sc("second component is the derivative with respect to the parameter", hy + fin, j, Sc(T.ite(dv.pinf, Z, sl)))
    C.check("slope is non-negative", hy + fin, T.le(Z, T.toreal(j.e)))


# ---------------------------------------------------------------- many labels
def multi_args(C, sparse, inf=True):
    I = C.I
    st = St()
    L = T.var("L")
    k = T.var("k0")
    hyps = [T.le(T.I(1), L)]

    def fac(n):
        def f(kk):
            return Sc(T.app(n, (kk,), "R"), pinf=T.app(n + ".inf", (kk,), "B") if inf else FALSE)
        return f
    x, y = fac("x"), fac("y")
    d = (lambda kk: Sc(T.app("d", (kk,), "R"), pinf=T.app("d.inf", (kk,), "B")))
    for n in ("x", "y", "d"):
        hyps.append(T.all_(k, T.I(0), L, T.le(Z, T.app(n, (k,), "R"))))
    D = I.alloc(st, Arr((L,), lambda ix: d(ix[0])))
    if sparse:
        sx, sy = (lambda kk: T.app("supx", (kk,), "B")), (lambda kk: T.app("supy", (kk,), "B"))
        X, Y = SpVec("X", L, sx, x), SpVec("Y", L, sy, y)
        # outside the stored entries the value is 0
        fx = lambda kk: msc(sx(kk), x(kk))
        fy = lambda kk: msc(sy(kk), y(kk))
        return st, D, X, Y, d, fx, fy, L, hyps
    X = I.alloc(st, Arr((L,), lambda ix: x(ix[0])))
    Y = I.alloc(st, Arr((L,), lambda ix: y(ix[0])))
    return st, D, X, Y, d, x, y, L, hyps


def msc(c, v):
    return Sc(T.ite(c, v.e, Z), pinf=T.and_(c, v.pinf))


def multi_call(C, qual, sparse, spark, inf=True, dyad=True):
    st, D, X, Y, d, x, y, L, hyps = multi_args(C, sparse, inf)
    st.pc = tuple(hyps)
    C.sane(hyps)
    if not sparse:
        args = [D, X, Y]
    elif spark:
        args = [D, SpPart(X, "lbl"), SpPart(X, "val"), SpPart(Y, "lbl"), SpPart(Y, "val")]
    else:
        args = [D, X.pair(), Y.pair()]
    if dyad:
        args.append(Op(T.app("dyad", (), "U")))
    r = C.call(qual, args, st)
    C.no_raise("call", r)
    return r, d, x, y, L, hyps


def multi_spec(kind, d, x, y, L, one=False):
    """(some infinite term, complement probability as a product, zero)"""
    k = T.fresh("k")
    dk = (lambda kk: d(T.I(0))) if one else d
    z, inf, t = spec_prod([dk(k), x(k), y(k)])
    allinf = T.ex(k, T.I(0), L, inf)
    if kind == "fit":
        q = T.bprod(k, T.I(0), L, T.ite(z, ONE, qf("fit", t)))
    else:
        q = EXP(T.neg(T.bsum(k, T.I(0), L, T.ite(z, Z, t))))
    allz = T.not_(T.ex(k, T.I(0), L, T.not_(z)))
    return allinf, q, allz


def multi_kernel(C, qual, kind, what, sparse=False, spark=False):
    r, d, x, y, L, hyps = multi_call(C, qual, sparse, spark)
    if not r.ok:
        return
    hy = list(r.st.pc)
    inf, q, allz = multi_spec(kind, d, x, y, L)
    if what == "p":
        C.sc("result is one minus the product over labels of the complements", hy, r.val, Sc(T.ite(inf, ONE, T.sub(ONE, q))), [inf])
        C.check("result is at least 0", hy, T.le(Z, T.toreal(r.val.e)))
        C.check("result is at most 1", hy, T.le(T.toreal(r.val.e), ONE))
        C.check("no common label gives probability 0", hy + [allz], T.eq(T.toreal(r.val.e), Z))
        C.check("an infinite term gives probability 1", hy + [inf], T.eq(T.toreal(r.val.e), ONE))
    elif what == "logp":
        C.sc("result is the logarithm of the link probability", hy, r.val,
             Sc(T.ite(inf, Z, LOG(T.sub(ONE, q))), ninf=allz), [inf])
    else:
        C.sc("result is the logarithm of the complement", hy, r.val, Sc(LOG(q), ninf=inf))


def multi_jac(C, qual, kind, sparse=False, spark=False):
    r, d, x, y, L, hyps = multi_call(C, qual, sparse, spark, inf=False, dyad=False)
    if not r.ok:
        return
    hy = list(r.st.pc)
    inf, q, allz = multi_spec(kind, d, x, y, L, one=True)
    f, j = r.val
    C.sc("first component is one minus the product over labels of the complements", hy, f, Sc(T.ite(inf, ONE, T.sub(ONE, q))), [d(T.I(0)).pinf, T.eq(d(T.I(0)).e, Z), allz])
    k = T.fresh("k")
    d0 = d(T.I(0))
    s = T.mul(x(k).e, y(k).e)
    if kind == "fit":
        sl = T.mul(q, T.bsum(k, T.I(0), L, T.mul(s, qf("fit", T.mul(d0.e, s)))))
    else:
        sl = T.mul(q, T.bsum(k, T.I(0), L, s))
    C.sc("second component is the derivative with respect to the common parameter", hy, j, Sc(T.ite(d0.pinf, Z, sl)), [d0.pinf, T.eq(d0.e, Z), allz])


def setup():
    for back, mods in ((DENSE, {}), (SPARSE, {"F": "sparse.models.fitness", "I": "sparse.models.invariant"}), (SPARK, {})):
        F = mods.get("F", back)
        V = mods.get("I", back)
        zd = back == SPARSE
        for cls, kind, mod in (("FitnessModel", "fit", F), ("ScaleInvariantModel", "inv", V)):
            q = "%s.%s." % (mod, cls)
            add_task(["C01"], q + "p_ij", scalar_kernel, qual=q + "p_ij", kind=kind, shape="vec", what="p", zdyad=zd)
            add_task(["C02"], q + "logp", scalar_kernel, qual=q + "logp", kind=kind, shape="vec", what="logp", zdyad=zd)
            add_task(["C02"], q + "log1mp", scalar_kernel, qual=q + "log1mp", kind=kind, shape="vec", what="log1mp", zdyad=zd)
            add_task(["C03"], q + "p_jac_ij", jac_kernel, qual=q + "p_jac_ij", kind=kind, shape="vec", zdyad=zd)
        for cls, kind, mod in (("MultiFitnessModel", "fit", F), ("MultiInvariantModel", "inv", V)):
            q = "%s.%s." % (mod, cls)
            add_task(["C01"], q + "p_ijk", scalar_kernel, qual=q + "p_ijk", kind=kind, shape="sc", what="p")
            add_task(["C02"], q + "logp_ijk", scalar_kernel, qual=q + "logp_ijk", kind=kind, shape="sc", what="logp")
            add_task(["C02"], q + "log1mp_ijk", scalar_kernel, qual=q + "log1mp_ijk", kind=kind, shape="sc", what="log1mp")
            add_task(["C03"], q + "p_jac_ijk", jac_kernel, qual=q + "p_jac_ijk", kind=kind, shape="sc")
            sp = dict(sparse=back != DENSE, spark=back == SPARK)
            add_task(["C01"], q + "p_ij", multi_kernel, qual=q + "p_ij", kind=kind, what="p", **sp)
            add_task(["C02"], q + "logp", multi_kernel, qual=q + "logp", kind=kind, what="logp", **sp)
            add_task(["C02"], q + "log1mp", multi_kernel, qual=q + "log1mp", kind=kind, what="log1mp", **sp)
            add_task(["C03"], q + "p_jac_ij", multi_jac, qual=q + "p_jac_ij", kind=kind, **sp)


setup()
