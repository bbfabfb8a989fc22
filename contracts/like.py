"""C09: log-likelihood of an observed graph."""
from contracts.base import *

A1 = lambda i, j: T.app("obs", (i, j), "R")
A3 = lambda k, i, j: T.app("obs", (k, i, j), "R")


def zero_label_facts():
    """C02, proved for the link functions: a zero factor has log-probability
    minus infinity and log-complement 0."""
    def zero(e):
        zs = []
        for x in e.args[2:4]:
            if x.op == "app" and x.args[0] == "num":
                zs.append(T.eq(x.args[1], Z))
        return T.or_(*zs) if zs else FALSE

    P.FACTS["LPK.ninf"] = lambda e: [T.implies(zero(e), e)]
    P.FACTS["LQK.ninf"] = lambda e: [T.implies(zero(e), T.not_(e))]
    P.FACTS["LQK"] = lambda e: [T.implies(zero(e), T.eq(e, Z))]


zero_label_facts()


def observed(C, M, how):
    """An observed graph without inadmissible edges: value, edge(i,j[,k])."""
    I, st = C.I, M.st
    if how == "array":
        v = mat(I, st, "obs", N, N)
        ed = lambda i, j: T.ne(A1(i, j), Z)
    elif how == "sparse":
        ed = lambda i, j: T.ne(A1(i, j), Z)       # no explicitly stored zeros
        v = Csr("obs", N, N, ed, lambda i, j: Sc(A1(i, j)), "csr")
    elif how == "tensor":
        v = I.alloc(st, Arr((L, N, N), lambda ix: Sc(T.app("obs", ix, "R"))))
        ed = lambda i, j, k: T.ne(A3(k, i, j), Z)
    elif how == "list":
        ed = lambda i, j, k: T.ne(A3(k, i, j), Z)
        kk = T.fresh("k")
        c = Csr("obs", N, N, lambda i, j: ed(i, j, kk), lambda i, j: Sc(A3(kk, i, j)), "csr")
        v = I.alloc(st, Lst([("for", kk, T.I(0), L, TRUE, (("el", c),))]))
    return v, ed


def noloops(ed, sl, label=None):
    i = T.fresh("i")
    if label is None:
        return T.all_(i, T.I(0), N, T.implies(ed(i, i), sl))
    k = T.fresh("k")
    return T.all_(k, T.I(0), L, T.all_(i, T.I(0), N, T.implies(ed(i, i, k), sl)))


def like_spec(M, ed, sl):
    ninf = lambda i, j: T.and_(adm(i, j, sl), T.ite(ed(i, j), M.nf(i, j, "LP"), M.nf(i, j, "LQ")))
    val = lambda i, j: T.ite(adm(i, j, sl), T.ite(ed(i, j), M.P(i, j, "LP"), M.P(i, j, "LQ")), Z)
    i, j = T.fresh("i"), T.fresh("j")
    return Sc(dsum(val), ninf=T.ex(i, T.I(0), N, T.ex(j, T.I(0), N, ninf(i, j))))


def tensor_spec(M, ed, sl):
    def ninf(i, j, k):
        has = M.has(i, j, k)
        return T.and_(adm(i, j, sl), T.ite(ed(i, j, k), T.or_(T.not_(has), M.nfk(i, j, k, "LPK")), T.and_(has, M.nfk(i, j, k, "LQK"))))

    def val(i, j, k):
        return T.ite(T.and_(adm(i, j, sl), M.has(i, j, k)), T.ite(ed(i, j, k), M.PK(i, j, k, "LPK"), M.PK(i, j, k, "LQK")), Z)
    i, j, k = T.fresh("i"), T.fresh("j"), T.fresh("k")
    kk = T.fresh("k")
    return Sc(T.bsum(kk, T.I(0), L, dsum(lambda a, b: val(a, b, kk))),
              ninf=T.ex(k, T.I(0), L, T.ex(i, T.I(0), N, T.ex(j, T.I(0), N, ninf(i, j, k)))))


def layer_spec(d, X, Y, edge, n, sl, back):
    """Contract of _likelihood_layer: the labelled sum for one label, where a
    missing factor has probability 0."""
    ids = lambda i, j: (T.app("num", (d,), "U"), T.app("num", (X.sv(i).e,), "U"), T.app("num", (Y.sv(j).e,), "U"), T.app("none", (), "U") if back == "spark" else dyad(i, j))
    has = lambda i, j: T.and_(X.sup(i), Y.sup(j))

    def ninf(i, j):
        return T.and_(adm(i, j, sl), T.ite(edge(i, j), T.or_(T.not_(has(i, j)), T.app("LPK.ninf", ids(i, j), "B")),
                                           T.and_(has(i, j), T.app("LQK.ninf", ids(i, j), "B"))))

    def val(i, j):
        return T.ite(T.and_(adm(i, j, sl), has(i, j)), T.ite(edge(i, j), T.app("LPK", ids(i, j), "R"), T.app("LQK", ids(i, j), "R")), Z)
    i, j = T.fresh("i"), T.fresh("j")
    return Sc(dsum(val, n), ninf=T.ex(i, T.I(0), n, T.ex(j, T.I(0), n, ninf(i, j))))


def over_layer(C, M):
    I = C.I
    f = I.find(I.cls(M.cls), "_likelihood_layer")
    if f is None:
        return

    def h(I, st, f, env):
        xo, xi, ip, ix = env["prop_out"], env["prop_in"], env["indptr"], env["indices"]
        if "ind_out" in env:
            xo, xi = (env["ind_out"], xo), (env["ind_in"], xi)
        ok = all(isinstance(v, tuple) and len(v) == 2 and all(isinstance(x, SpPart) for x in v) and v[0].vec is v[1].vec
                 and (v[0].part, v[1].part) == ("lbl", "val") for v in (xo, xi))
        if not (ok and isinstance(ip, CsrPart) and isinstance(ix, CsrPart) and ip.csr is ix.csr and (ip.part, ix.part) == ("indptr", "indices")):
            raise Unsupported("_likelihood_layer of something else")
        c = ip.csr
        sl = I.truth(env["selfloops"], st)
        i = T.fresh("i")
        for v in (xo, xi):
            I.oblige(st, "factors of every vertex", T.eq(v[0].vec.n, c.nmaj))
        I.oblige(st, "no inadmissible edge", T.all_(i, T.I(0), c.nmaj, T.implies(c.mem(i, i), sl)))
        for a, b in (("logp_ijk", "logp_ijk"), ("log1mp_ijk", "log1mp_ijk"), ("prop_dyad", "prop_dyad")):
            fn = env[a]
            if not (isinstance(fn, Fn) and fn.qual == I.find(I.cls(M.cls), b).qual):
                raise Unsupported("_likelihood_layer with another link function")
        return layer_spec(I.lib.sc(env["param"]).e, xo[0].vec, xi[0].vec, c.mem, c.nmaj, sl, M.back)
    I.over[f.qual] = h


@per_class
def layer(C, back, cls, kind):
    M = make(C, back, cls, kind)
    I, st = C.I, M.st
    f = I.find(I.cls(cls), "_likelihood_layer")
    if f is None:
        return
    X = SpVec("fx", N, lambda i: T.app("sx", (i,), "B"), lambda i: T.app("vx", (i,), "R"))
    Y = SpVec("fy", N, lambda i: T.app("sy", (i,), "B"), lambda i: T.app("vy", (i,), "R"))
    ed = lambda i, j: T.ne(A1(i, j), Z)
    c = Csr("obs", N, N, ed, lambda i, j: Sc(A1(i, j)), "csr")
    i = T.fresh("i")
    st.pc = st.pc + (T.all_(i, T.I(0), N, T.implies(ed(i, i), SL)),)
    C.sane(st.pc)
    g = lambda n: I.getattr(st, M.obj, n)
    d = T.var("dk", "R")
    (xl, xv), (yl, yv) = X.pair(), Y.pair()
    fac = [xl, yl, xv, yv] if back == "spark" else [X.pair(), Y.pair()]
    r = C.call(f, [g("logp_ijk"), g("log1mp_ijk"), Sc(d)] + fac + [g("prop_dyad"), CsrPart(c, "indptr"), CsrPart(c, "indices"), Sc(SL)], st)
    C.no_raise("_likelihood_layer", r)
    if r.ok:
        C.sc("_likelihood_layer is the sum of the log-probabilities of the observed presence or absence of every admissible pair for the label",
             list(r.st.pc), r.val, layer_spec(d, X, Y, ed, N, SL, back), hints=[])


@per_class
def like(C, back, cls, kind, how, sl):
    M = make(C, back, cls, kind)
    M.nf = lambda i, j, nm: T.app(nm + ".ninf", M.P(i, j, nm).args[1:], "B")
    M.nfk = lambda i, j, k, nm: T.app(nm + ".ninf", M.PK(i, j, k, nm).args[1:], "B")
    g, ed = observed(C, M, how)
    if kind == "multi":
        over_layer(C, M)
    if back == "spark":
        from contracts.spark import over_block
        over_block(C, M)
    lab = how in ("tensor", "list", "multi")
    sv, se = (None, SL) if sl is None else (Sc(TRUE if sl else FALSE), TRUE if sl else FALSE)
    M.st.pc = M.st.pc + (noloops(ed, se, lab or None),)
    C.sane(M.st.pc)
    r = method(C, M, "log_likelihood", g, selfloops=sv)
    C.no_raise("log_likelihood", r)
    if r.ok:
        want = tensor_spec(M, ed, se) if lab else like_spec(M, ed, se)
        C.sc("log_likelihood is the sum of the log-probabilities of the observed presence or absence of every admissible pair",
             list(r.st.pc), r.val, want, hints=[])


def setup():
    for back in ("dense", "sparse"):
        for cls, kind in CLASSES[back]:
            if kind == "multi" and back == "sparse":
                add_task(["C09"], cls + "._likelihood_layer", layer, back=back, cls=cls, kind=kind)
            for how in ("array", "sparse") + (("tensor", "list") if kind == "multi" else ()):
                for sl in (None, False, True):
                    add_task(["C09"], "%s.log_likelihood(%s, selfloops=%s)" % (cls, how, sl), like, back=back, cls=cls, kind=kind, how=how, sl=sl)


setup()
