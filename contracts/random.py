"""C12 (and the uniform ensemble's share of C05, C06-C11): RandomDiGraph."""
from contracts.base import *
from contracts.sums import degree_specs, NAMES
from contracts.avnn import avnn_spec, DIRS, arg
from contracts.sample import check_sample, check_frame, prepare, close, reference
from contracts.like import observed

CLS = {"dense": "models.RandomDiGraph", "sparse": "sparse.models.random.RandomDiGraph", "spark": "spark.models.RandomDiGraph"}
p, q = T.var("p", "R"), T.var("q", "R")
PP = lambda i, j: p


def inst(C, back, fields=(), param=True):
    I = C.I
    M = Model()
    M.back, M.cls, M.kind = back, CLS[back], "single"
    SPM.install(I)
    st = St(pc=(T.le(T.I(1), N), T.le(Z, p), T.le(p, ONE), T.le(Z, q)))
    fl = dict(num_vertices=Sc(N), selfloops=Sc(SL))
    if param:
        fl["param"] = I.alloc(st, Arr((T.I(2),), lambda ix: Sc(T.ite(T.eq(ix[0], T.I(0)), p, q))))
    fl.update(dict(fields))
    M.obj = I.alloc(st, Inst(I.cls(M.cls), {k: (TRUE, v) for k, v in fl.items()}))
    M.st = st
    return M


def edges(sl=SL, pr=p):
    n = T.toreal(N)
    return T.ite(sl, T.mul(pr, n, n), T.mul(pr, n, T.sub(n, ONE)))


def num_edges(C, back):
    M = inst(C, back)
    C.sane(M.st.pc)
    r = method(C, M, "expected_num_edges")
    C.no_raise("expected_num_edges", r)
    if r.ok:
        C.sc("expected_num_edges is p*n*(n-1), or p*n^2 with self-loops", list(r.st.pc), r.val, Sc(edges()))
        C.sc("expected_num_edges is the sum of the link probability over admissible ordered pairs", list(r.st.pc), r.val,
             Sc(dsum(lambda i, j: T.ite(adm(i, j), p, Z))), cases=(SL,))


def total_weight(C, back):
    dw = T.var("discrete", "B")
    M = inst(C, back, dict(discrete_weights=Sc(dw)))
    M.st.pc += (T.ite(dw, T.lt(q, ONE), T.lt(Z, q)),)
    C.sane(M.st.pc)
    r = method(C, M, "expected_total_weight")
    C.no_raise("expected_total_weight", r)
    if r.ok:
        C.sc("expected_total_weight is the expected number of edges times the mean weight", list(r.st.pc), r.val,
             Sc(T.div(edges(), T.ite(dw, T.sub(ONE, q), q))))


def degrees(C, back, which):
    M = inst(C, back)
    C.sane(M.st.pc)
    nm, txt = NAMES[which]
    r = method(C, M, nm)
    C.no_raise(nm, r)
    if r.ok:
        spec = degree_specs(PP)[which]
        arr_is(C, "%s[a] is the sum of %s a over admissible partners" % (nm, txt), r, r.val, (N,), lambda a: Sc(spec(a)))


def av_prop(C, back, ndir, sl):
    M = inst(C, back)
    C.sane(M.st.pc)
    g = lambda j: T.app("q", (j,), "R")
    v = vec(C.I, M.st, "q", N)
    sv, se = arg(sl)
    r = method(C, M, "expected_av_nn_property", v, ndir=ndir, selfloops=sv)
    w = T.sub(T.mul(T.R(2), p), T.mul(p, p)) if ndir == "out-in" else p
    own = p
    n1 = T.sub(T.toreal(N), ONE)
    deg = T.add(T.mul(w, n1), T.ite(se, own, Z))
    tot = ssum(g)
    num = lambda a: T.add(T.mul(w, T.sub(tot, g(a))), T.ite(se, T.mul(own, g(a)), Z))
    # the sum over the only vertex is its own term; the total as an unknown
    V = T.var("total_q", "R")
    C.check("the sum over one vertex is its own term", [], T.eq(T.subst(tot, {N: T.I(1)}), g(T.I(0))))
    single = T.implies(T.eq(N, T.I(1)), T.eq(tot, g(T.I(0))))
    pre = list(M.st.pc)
    basis = [(tot, V), (T.mul(p, tot), T.mul(p, V)), (T.mul(w, tot), T.mul(w, V))]
    for o in r.raises:
        hy = [h for h in o.st.pc if h not in pre]
        ren = C.sums(pre, basis, hy + [single])
        C.check("expected_av_nn_property raises no %s" % o.val.name, pre + [P.replace(h, ren) for h in hy + [single]], FALSE)
    if not r.ok:
        return
    arr = C.I.lib.arr(r.st, r.val)
    C.check("expected_av_nn_property [shape]", list(r.st.pc), T.eq(arr.shape[0], N))
    a = T.fresh("a")
    pre += bound((a, N))
    hy = list(r.st.pc)
    got = arr.fn((a,))
    C.sc_abs("expected_av_nn_property of an empty expected neighbourhood is 0", pre, hy + [T.eq(deg, Z)], got, Sc(Z), basis, [single])
    C.sc_abs("expected_av_nn_property[a] is the mean of the property over the %s-neighbours" % ndir, pre, hy + [T.ne(deg, Z)], got, Sc(T.div(num(a), deg)), basis, [single])
    # the closed forms are the sums of the property's statement
    spec, nm, dg = avnn_spec(PP, ndir, se, g)
    x = nm(a)
    j, lo, hi, body = T.open_(x)
    c = T.sub(T.ite(se, T.mul(own, g(a)), Z), T.mul(w, g(a)))
    term = T.add(T.mul(w, g(j)), T.ite(T.eq(j, a), c, Z))
    C.check("terms of the neighbourhood sum", pre + bound((j, N)), T.eq(body, term))
    C.check("closed form of the neighbourhood sum", pre, T.eq(T.bsum(j, lo, hi, term), num(a)))
    C.check("closed form of the expected degree", pre, T.eq(dg(a), deg))


def like(C, back, how, sl):
    M = inst(C, back)
    g, ed = observed(C, M, how)
    sv, se = arg(sl)
    i = T.fresh("i")
    x = T.app("obs", (i, i), "R")
    M.st.pc += (T.all_(i, T.I(0), N, T.and_(T.le(Z, x), T.implies(T.not_(se), T.eq(x, Z)))),)
    C.sane(M.st.pc)
    r = method(C, M, "log_likelihood", g, selfloops=sv)
    C.no_raise("log_likelihood", r)
    if not r.ok:
        return
    n = T.toreal(N)
    cnt = lambda f: dsum(lambda a, b: T.ite(f(a, b), T.I(1), T.I(0)))
    a, b = T.fresh("a"), T.fresh("b")
    A, E = adm(a, b, se), ed(a, b)
    nadm = cnt(lambda a, b: T.and_(adm(a, b, se), ed(a, b)))
    nabs = cnt(lambda a, b: T.and_(adm(a, b, se), T.not_(ed(a, b))))
    nall = cnt(lambda a, b: adm(a, b, se))
    pairs = T.ite(se, T.mul(N, N), T.mul(N, T.sub(N, T.I(1))))
    one = lambda c: T.ite(c, T.I(1), T.I(0))
    pre = list(M.st.pc)
    # termwise: present + absent = admissible, for each pair; so for the counts
    C.check("count: every admissible pair is present or absent", pre + bound((a, N), (b, N)), T.eq(T.add(one(T.and_(A, E)), one(T.and_(A, T.not_(E)))), one(A)))
    C.check("count: number of admissible pairs", pre, T.eq(nall, pairs), cases=(se,) if se is SL else ())
    vp, va = T.var("n_present"), T.var("n_absent")
    lem = [T.eq(T.add(nadm, nabs), pairs), T.le(T.I(0), nadm), T.le(T.I(0), nabs)]
    lp, lq = T.app("LOG", (p,), "R"), T.app("LOG", (T.sub(ONE, p),), "R")
    I0 = T.I(0)
    want = Sc(T.add(T.ite(T.lt(I0, nadm), T.mul(T.toreal(nadm), lp), Z), T.ite(T.lt(I0, nabs), T.mul(T.toreal(nabs), lq), Z)),
              ninf=T.or_(T.and_(T.lt(I0, nadm), T.eq(p, Z)), T.and_(T.lt(I0, nabs), T.eq(p, ONE))))
    C.sc_abs("log_likelihood is edges*log(p) + absent*log(1-p), minus infinity exactly for an impossible observation",
             pre, list(r.st.pc), r.val, want, [(nadm, vp), (nabs, va)], lem)


def binary(C, back, sl, ref):
    M = prepare(C, inst(C, back))
    g, rf = reference(C, M) if ref else (None, None)
    sv, se = arg(sl)
    C.sane(M.st.pc)
    r = method(C, M, "sample", ref_g=g, selfloops=sv)
    C.no_raise("sample", r)
    if r.ok:
        check_sample(C, r, C.I.getattr(r.st, r.val, "adj"), 2, (N, N), lambda x: adm(x[0], x[1], se), lambda x: p)
        check_frame(C, M, r, rf)


def weighted(C, back, sl, disc):
    M = prepare(C, inst(C, back, dict(discrete_weights=Sc(TRUE if disc else FALSE))))
    sv, se = arg(sl)
    M.st.pc += (T.lt(Z, q), T.lt(q, ONE))
    C.sane(M.st.pc)
    r = method(C, M, "sample", weights="random", selfloops=sv)
    C.no_raise("sample", r)
    if r.ok:
        check_sample(C, r, C.I.getattr(r.st, r.val, "adj"), 2, (N, N), lambda x: adm(x[0], x[1], se), lambda x: p,
                     lambda x: T.sub(ONE, q) if disc else T.div(ONE, q), law="GEO" if disc else "EXPO")
        check_frame(C, M, r, None)


def cremb(C, back, sl):
    M = prepare(C, inst(C, back))
    sv, se = arg(sl)
    a = [vec(C.I, M.st, "so", N), vec(C.I, M.st, "si", N)]
    fo, fi = (lambda i: T.app("so", (i,), "R")), (lambda i: T.app("si", (i,), "R"))
    so, si = ssum(fo), ssum(fi)
    M.st.pc += (T.lt(Z, so),)
    C.sane(M.st.pc)
    r = method(C, M, "sample", weights="cremb", out_strength=a[0], in_strength=a[1], selfloops=sv)
    for o in r.raises:
        C.check("strengths are rejected only when their totals differ" if o.val.name == "AssertionError" else "sample raises no %s" % o.val.name,
                list(o.st.pc), T.not_(close(so, si)) if o.val.name == "AssertionError" else FALSE)
    if r.ok:
        C.check("unequal totals are rejected", list(r.st.pc), close(so, si))
        check_sample(C, r, C.I.getattr(r.st, r.val, "adj"), 2, (N, N), lambda x: adm(x[0], x[1], se), lambda x: p,
                     lambda x: T.div(T.mul(fo(x[0]), fi(x[1])), T.mul(so, p)))
        check_frame(C, M, r, None)


def fit(C, back, weight):
    ne, tw, dw = T.var("ne", "R"), T.var("tw", "R"), T.var("discrete", "B")
    fl = dict(num_edges=Sc(ne))
    if weight:
        fl.update(total_weight=Sc(tw), discrete_weights=Sc(dw))
    M = inst(C, back, fl, param=False)
    M.st.pc += (T.lt(Z, ne), T.lt(ne, tw), T.or_(SL, T.lt(T.I(1), N)))
    C.sane(M.st.pc)
    r = method(C, M, "fit")
    C.no_raise("fit", r)
    if not r.ok:
        return
    M2 = Model()
    M2.__dict__.update(M.__dict__)
    M2.st = r.st
    r2 = method(C, M2, "expected_num_edges")
    C.no_raise("expected_num_edges after fit", r2)
    C.sc("the fitted ensemble has the requested expected number of edges", list(r2.st.pc), r2.val, Sc(ne), cases=(SL,))
    if weight:
        r3 = method(C, M2, "expected_total_weight")
        C.no_raise("expected_total_weight after fit", r3)
        for d in (TRUE, FALSE):
            hd = dw if d is TRUE else T.not_(dw)
            C.sc("the fitted ensemble has the requested expected total weight (%s)" % ("discrete" if d is TRUE else "continuous"), list(r3.st.pc) + [hd], r3.val, Sc(tw), cases=(SL, dw))


def setup():
    for back in ("dense", "sparse", "spark"):
        c = CLS[back]
        add_task(["C12", "C06"], c + ".expected_num_edges", num_edges, back=back)
        add_task(["C12"], c + ".expected_total_weight", total_weight, back=back)
        for w in range(3):
            add_task(["C12", "C07"], "%s.%s" % (c, NAMES[w][0]), degrees, back=back, which=w)
        for sl in (None, False, True):
            for nd in DIRS:
                add_task(["C12", "C08"], "%s.expected_av_nn_property(%s, selfloops=%s)" % (c, nd, sl), av_prop, back=back, ndir=nd, sl=sl)
            for how in ("array", "sparse"):
                add_task(["C12", "C09"], "%s.log_likelihood(%s, selfloops=%s)" % (c, how, sl), like, back=back, how=how, sl=sl)
            add_task(["C10"], "%s.sample(selfloops=%s)" % (c, sl), binary, back=back, sl=sl, ref=False)
            for disc in (False, True):
                add_task(["C11", "C10"], "%s.sample(random, discrete=%s, selfloops=%s)" % (c, disc, sl), weighted, back=back, sl=sl, disc=disc)
            add_task(["C11", "C10"], "%s.sample(cremb, selfloops=%s)" % (c, sl), cremb, back=back, sl=sl)
        add_task(["C10"], "%s.sample(reference graph)" % c, binary, back=back, sl=None, ref=True)
        for w in (False, True):
            add_task(["C12", "C05"], "%s.fit(weight=%s)" % (c, w), fit, back=back, weight=w)


setup()
