"""C16: the model conditioned on an observed group graph.

The vertices i carry fitnesses x_i, y_i >= 0 and a group g(i); group pair
(a, b) is linked when the observed adjacency stores it.  XO(a), XI(b) are the
sums of the fitnesses of a group, XD(a) the sum of x_i y_i over a group, Z(a, b)
the share of the product XO(a) XI(b) carried by admissible pairs."""
from contracts.base import *
from contracts.kernels import EXP

CLS = "sparse.models.conditional.ConditionalInvariantModel"
G = T.var("G")
GRP = lambda i: T.app("grp", (i,), "I")
LK = lambda a, b: T.app("glink", (a, b), "B")
X = lambda i: T.app("xo", (i,), "R")
Y = lambda i: T.app("xi", (i,), "R")


def _grp(i, a):
    return T.eq(GRP(i), a)


XO = lambda a: ssum(lambda i: T.ite(_grp(i, a), X(i), Z))
XI = lambda a: ssum(lambda i: T.ite(_grp(i, a), Y(i), Z))
XD = lambda a: ssum(lambda i: T.ite(_grp(i, a), T.mul(X(i), Y(i)), Z))


# ------------------------------------------------------------ link functions
def kernel(C, fn):
    """cond_p_ij and p_jac_ij: unconditional probability over the probability
    of the group link; the limit at parameter 0."""
    I = C.I
    st = St()
    v = {n: T.var(n, "R") for n in ("d", "x", "y", "z", "xI", "yJ", "zI")}
    hyps = [T.le(Z, t) for t in v.values()]
    a = T.mul(v["x"], v["y"], v["z"])
    b = T.mul(v["xI"], v["yJ"], v["zI"])
    hyps.append(T.le(a, b))
    st.pc = tuple(hyps)
    C.sane(hyps)
    D = I.alloc(st, Arr((T.I(1),), lambda ix: Sc(v["d"])))
    r = C.call(CLS + "." + fn, [D] + [Sc(v[n]) for n in ("x", "y", "z", "xI", "yJ", "zI")], st)
    C.no_raise("call", r)
    if not r.ok:
        return
    hy = list(r.st.pc)
    zero = T.or_(*[T.eq(v[n], Z) for n in ("x", "y", "z", "xI", "yJ", "zI")])
    da, db = T.mul(v["d"], a), T.mul(v["d"], b)
    A, Bq = T.sub(ONE, EXP(T.neg(da))), T.sub(ONE, EXP(T.neg(db)))
    ratio = T.mul(A, T.inv(Bq))
    lim = T.mul(a, T.inv(b))
    p = r.val[0] if fn == "p_jac_ij" else r.val
    C.sc("a zero factor gives probability 0", hy + [zero], p, Sc(Z))
    C.sc("probability at parameter 0 is the share of the pair in the group pair", hy + [T.not_(zero), T.eq(v["d"], Z)], p, Sc(lim))
    # the series of the second function is used below 1e-12 only
    big = [T.not_(zero), T.lt(Z, v["d"])]
    if fn == "p_jac_ij":
        big.append(T.le(T.R(1) if False else T.div(ONE, T.R(10 ** 12)), Bq))
    C.sc("probability is the unconditional one divided by that of the group link", hy + big, p, Sc(ratio))
    if fn == "p_jac_ij":
        q = r.val[1]
        C.sc("a zero factor gives slope 0", hy + [zero], q, Sc(Z))
        C.sc("slope at parameter 0", hy + [T.not_(zero), T.eq(v["d"], Z)], q,
             Sc(T.mul(T.div(ONE, T.R(2)), T.sub(ONE, lim), a)))
        sl = T.sub(T.mul(a, EXP(T.neg(da)), T.inv(Bq)), T.mul(b, EXP(T.neg(db)), A, T.inv(T.mul(Bq, Bq))))
        C.sc("slope is the derivative of the probability with respect to the parameter", hy + big, q, Sc(sl))


# -------------------------------------------------------------------- model
def cmake(C, sl, late=False):
    I = C.I
    SPM.install(I)
    st = St()
    M = Model()
    M.cls = CLS
    M.sl = TRUE if sl else FALSE
    I.key_bound = G
    i, a, b = T.fresh("i"), T.fresh("a"), T.fresh("b")
    W = T.var("last")
    P.FACTS["xo"] = P.FACTS["xi"] = lambda e: [T.le(Z, e)] if e.sort == "R" else []
    st.pc = (T.le(T.I(1), N), T.le(T.I(1), G),
             T.all_(i, T.I(0), N, T.and_(T.le(T.I(0), GRP(i)), T.lt(GRP(i), G))),
             T.le(T.I(0), W), T.lt(W, N), T.eq(GRP(W), T.sub(G, T.I(1))))
    I.max_hints = [(T.sub(G, T.I(1)), W)]
    c = I.cls(CLS)
    for nm, sym in (("p_ij", "P"), ("cond_p_ij", "CP")):
        f = I.find(c, nm)

        def mk(sym):
            def h(I, st, f, env):
                return Sc(T.app(sym, tuple(ident(C, st, env[x.arg]) for x in f.node.args.args), "R"))
            return h
        I.over[f.qual] = mk(sym)
    f = I.find(c, "p_jac_ij")

    def h(I, st, f, env):
        ids = tuple(ident(C, st, env[x.arg]) for x in f.node.args.args)
        return (Sc(T.app("CJ.f", ids, "R")), Sc(T.app("CJ.j", ids, "R")))
    I.over[f.qual] = h
    adj = Csr("glink", G, G, LK, lambda a, b: Sc(T.app("gw", (a, b), "R")), "csr")
    fields = dict(num_vertices=Sc(N), num_groups=Sc(G), selfloops=Sc(M.sl), adj=adj,
                  prop_out=I.alloc(st, Arr((N,), lambda ix: Sc(X(ix[0])))), prop_in=I.alloc(st, Arr((N,), lambda ix: Sc(Y(ix[0])))),
                  groups=I.alloc(st, Arr((N,), lambda ix: Sc(GRP(ix[0])), "i")),
                  param=I.alloc(st, Arr((T.I(1),), lambda ix: Sc(T.var("d", "R")))))
    M.obj = I.alloc(st, Inst(c, {k: (TRUE, v) for k, v in fields.items()}))
    M.st, M.fields = st, fields
    num = lambda t: T.app("num", (t,), "U")
    vec1 = lambda t: T.app("vec1", (num(t),), "U")

    def arg(i, j, d=T.var("d", "R")):
        a, b = GRP(i), GRP(j)
        # within a group (a = b) either name of it may be used
        base = (vec1(d), num(X(i)), num(Y(j)), num(ONE), num(XO(a)), num(XI(b)))
        at = lambda g: num(T.sub(ONE, T.div(XD(g), T.mul(XO(a), XI(b)))))

        def val(nm):
            app = lambda z: T.app(nm, base + (z,), "R")
            if sl:
                return app(num(ONE))
            inside = T.ite(T.le(j, i), app(at(a)), app(at(b))) if late else app(at(a))
            return T.ite(T.eq(a, b), inside, app(num(ONE)))
        return val
    M.p = lambda i, j, nm="CP", d=T.var("d", "R"): T.ite(T.and_(LK(GRP(i), GRP(j)), adm(i, j, M.sl)), arg(i, j, d)(nm), Z)
    # linked groups have mass, or the observation is impossible
    mass = lambda e: [T.implies(e, T.and_(T.ne(XO(e.args[1]), Z), T.ne(XI(e.args[2]), Z)))]
    P.FACTS["glink"] = mass
    a, b = T.fresh("a"), T.fresh("b")
    st.pc = st.pc + (T.all_(a, T.I(0), G, T.all_(b, T.I(0), G, T.implies(LK(a, b), T.and_(T.ne(XO(a), Z), T.ne(XI(b), Z))))),)
    return M


def edges(C, sl):
    M = cmake(C, sl)
    C.sane(M.st.pc)
    r = method(C, M, "expected_num_edges")
    C.no_raise("expected_num_edges", r)
    if r.ok:
        C.sc("expected_num_edges is the sum of the conditional probability over admissible pairs of linked groups", list(r.st.pc), r.val,
             Sc(dsum(M.p)))


def degree(C, sl, nm):
    M = cmake(C, sl, late=True)
    C.sane(M.st.pc)
    r = method(C, M, nm)
    C.no_raise(nm, r)
    if r.ok:
        out = nm == "expected_out_degree"
        arr_is(C, "%s[a] is the sum of the conditional probabilities %s a" % (nm, "leaving" if out else "entering"), r, r.val, (N,),
               lambda a: Sc(ssum((lambda j: M.p(a, j)) if out else (lambda j: M.p(j, a)))))


def fitfun(C, sl):
    M = cmake(C, sl)
    C.sane(M.st.pc)
    d = C.I.alloc(M.st, Arr((T.I(1),), lambda ix: Sc(T.var("delta", "R"))))
    r = method(C, M, "density_fit_fun", d)
    C.no_raise("density_fit_fun", r)
    if not r.ok:
        return
    for part, v, txt in ((".f", r.val[0], "conditional probabilities"), (".j", r.val[1], "slopes of the conditional probabilities")):
        C.sc("density_fit_fun returns the sum of the %s over admissible pairs of linked groups" % txt, list(r.st.pc), v,
             Sc(dsum(lambda i, j: M.p(i, j, "CJ" + part, T.var("delta", "R")))))


def agg_like(C, sl):
    """Log-likelihood of the group graph: the sum over all group pairs of the
    logarithm of the probability (or complement) of the group link."""
    M = cmake(C, sl)
    over_links(C, CLS)
    C.sane(M.st.pc)
    I, st = C.I, M.st
    adj = M.fields["adj"]
    # the denominators of the diagonal exist
    a = T.fresh("a")
    if not sl:
        st.pc = st.pc + (T.all_(a, T.I(0), G, T.and_(T.ne(XO(a), Z), T.ne(XI(a), Z))),)
    f = M.fields
    c = I.cls(CLS)
    fn = lambda n: I.getattr(st, M.obj, n)
    r = C.call(CLS + "._agg_likelihood", [fn("logp"), fn("log1mp"), f["param"], f["prop_out"], f["prop_in"], f["groups"],
                                          I.getattr(st, adj, "indptr"), I.getattr(st, adj, "indices"), f["selfloops"]], st)
    C.no_raise("_agg_likelihood", r)
    if not r.ok:
        return
    num = lambda t: T.app("num", (t,), "U")

    def app(nm, a, b, sort="R"):
        base = (T.app("vec1", (num(T.var("d", "R")),), "U"), num(XO(a)), num(XI(b)))
        one = T.app(nm, base + (num(ONE),), sort)
        if sl:
            return one
        return T.ite(T.eq(a, b), T.app(nm, base + (num(T.sub(ONE, T.div(XD(a), T.mul(XO(a), XI(b))))),), sort), one)
    nf = lambda a, b: T.ite(LK(a, b), app("LP.ninf", a, b, "B"), app("LQ.ninf", a, b, "B"))
    a, b = T.fresh("a"), T.fresh("b")
    C.sc("log-likelihood of the group graph is the sum over group pairs", list(r.st.pc), r.val,
         Sc(dsum(lambda a, b: T.ite(LK(a, b), app("LP", a, b), app("LQ", a, b)), G),
            ninf=T.ex(a, T.I(0), G, T.ex(b, T.I(0), G, nf(a, b)))))


OBS = lambda i, j: T.app("obs", (i, j), "R")


def like(C, sl, how):
    """Log-likelihood of a graph: minus infinity unless its group graph is the
    observed one, else the unconditional one minus that of the group graph."""
    M = cmake(C, sl)
    over_links(C, CLS)
    I, st = C.I, M.st
    c = I.cls(CLS)
    I.over[I.find(c, "_agg_likelihood").qual] = lambda I, st, f, env: agg_contract(C, M, I, st, env)
    P.FACTS["gw"] = lambda e: [T.lt(Z, e)]
    P.FACTS["obs"] = lambda e: [T.le(Z, e)]
    ed = lambda i, j: T.ne(OBS(i, j), Z)
    g = mat(I, st, "obs", N, N) if how == "array" else Csr("obs", N, N, ed, lambda i, j: Sc(OBS(i, j)), "csr")
    i = T.fresh("i")
    st.pc = st.pc + (T.all_(i, T.I(0), N, T.implies(ed(i, i), M.sl)),)
    C.sane(st.pc)
    r = method(C, M, "log_likelihood", g)
    C.no_raise("log_likelihood", r)
    if not r.ok:
        return
    hy = list(r.st.pc)
    a, b = T.fresh("a"), T.fresh("b")
    tot = lambda a, b: ssum(lambda j: T.ite(_grp(j, b), ssum(lambda i: T.ite(_grp(i, a), OBS(i, j), Z)), Z))
    some = lambda a, b: T.lt(Z, tot(a, b))
    lk = lambda a, b: T.and_(LK(a, b), T.lt(Z, T.app("gw", (a, b), "R")))      # observed group weight
    diff = T.ex(a, T.I(0), G, T.ex(b, T.I(0), G, T.or_(T.and_(some(a, b), T.not_(lk(a, b))), T.and_(T.not_(some(a, b)), lk(a, b)))))
    num = lambda t: T.app("num", (t,), "U")
    ids = lambda i, j: (T.app("vec1", (num(T.var("d", "R")),), "U"), num(X(i)), num(Y(j)), num(ONE))
    nf = lambda i, j: T.and_(adm(i, j, M.sl), T.ite(ed(i, j), T.app("LP.ninf", ids(i, j), "B"), T.app("LQ.ninf", ids(i, j), "B")))
    val = lambda i, j: T.ite(adm(i, j, M.sl), T.ite(ed(i, j), T.app("LP", ids(i, j), "R"), T.app("LQ", ids(i, j), "R")), Z)
    i, j = T.fresh("i"), T.fresh("j")
    any_ = T.ex(i, T.I(0), N, T.ex(j, T.I(0), N, nf(i, j)))
    C.check("another group graph has log-likelihood minus infinity", hy + [diff], r.val.ninf)
    # where the group graphs agree
    f = lambda e: P.replace(e, {diff: FALSE})
    got = Sc(*[f(x) for x in (r.val.e, r.val.pinf, r.val.ninf, r.val.nan)])
    C.sc("log-likelihood is the unconditional one minus that of the group graph", [f(h) for h in hy] + [T.not_(diff)],
         got, Sc(T.sub(dsum(val), T.app("AGG", (), "R")), ninf=any_), hints=[])


def agg_contract(C, M, I, st, env):
    """Contract of _agg_likelihood, proved above, for the arguments it is given here."""
    for n, f in (("logp", "logp"), ("log1mp", "log1mp")):
        if not (isinstance(env[n], Fn) and env[n].qual == I.find(I.cls(CLS), f).qual):
            raise Unsupported("_agg_likelihood with another link function")
    for n in ("param", "prop_out", "prop_in", "groups"):
        if env[n] != M.fields[n]:
            raise Unsupported("_agg_likelihood of other properties")
    ip, ix = env["adj_i"], env["adj_j"]
    if not (isinstance(ip, CsrPart) and isinstance(ix, CsrPart) and ip.csr is ix.csr and (ip.part, ix.part) == ("indptr", "indices")
            and ip.csr.fmt == "csr"):
        raise Unsupported("_agg_likelihood of something else")
    I.oblige(st, "self-loop option of the group likelihood", T.eq(I.truth(env["selfloops"], st), M.sl))
    a, b = T.fresh("a"), T.fresh("b")
    lk = lambda a, b: T.and_(LK(a, b), T.lt(Z, T.app("gw", (a, b), "R")))
    I.oblige(st, "group likelihood of the observed group graph", T.all_(a, T.I(0), G, T.all_(b, T.I(0), G, T.eq(ip.csr.mem(a, b), lk(a, b)))))
    C.assumed.append("the observed group graph has positive probability (precondition of the conditional model)")
    return Sc(T.app("AGG", (), "R"))


def setup():
    for fn in ("cond_p_ij", "p_jac_ij"):
        add_task(["C16"], CLS + "." + fn, kernel, fn=fn)
    for sl in (False, True):
        t = "(selfloops=%s)" % sl
        add_task(["C16"], CLS + ".expected_num_edges" + t, edges, sl=sl)
        for nm in ("expected_out_degree", "expected_in_degree"):
            add_task(["C16"], CLS + "." + nm + t, degree, sl=sl, nm=nm)
        add_task(["C16"], CLS + ".density_fit_fun" + t, fitfun, sl=sl)
        add_task(["C16"], CLS + "._agg_likelihood" + t, agg_like, sl=sl)
        for how in ("array", "sparse"):
            add_task(["C16"], CLS + ".log_likelihood(%s)" % how + t, like, sl=sl, how=how)


setup()
