"""C10, C11: sampled graphs.

Every executed draw is a fresh symbol indexed by the loop counters that were
running when it was made, so `own draw of the pair` is a statement about the
indices of the symbol that decides the pair."""
import itertools
from contracts.base import *
from engine.lib import seg_sum, seg_pick, zip_segs

EPS = T.R(__import__("fractions").Fraction(1, 1000000))


def prepare(C, M):
    I = C.I
    for q in ("graphs.Graph.get_num_bytes", "sparse.graphs.Graph.get_num_bytes"):
        try:
            f = I.fn(q)
        except Unsupported:
            continue
        I.over[f.qual] = lambda I, st, f, env: Sc(T.app("num_bytes", (I.lib.sc(list(env.values())[-1]).e,), "I"))
    I.lib.extra_call["numpy.dtype"] = lambda I, st, a, k: ("dtype", a[0])
    return M


def draws(e, pre):
    return {x for x in T.apps(e) if x.args[0].startswith(pre)}


def table(C, r, v, dims):
    """count(ix), value(ix) and shape of the entries stored in the graph."""
    I = C.I
    if dims == 2 and isinstance(v, Csr):
        c = v if v.fmt == "csr" else SPM.flip(v)
        return (c.nmaj, c.nmin), c.count if hasattr(c, "count") else None, lambda ix: T.toreal(SPM.cell(c, *ix).e), lambda ix: c.mem(*ix)
    rec = I.rec(r.st, v)
    if dims == 3 and isinstance(rec, Arr) and len(rec.shape) == 1:
        # a list filled position by position
        def g(k):
            v = rec.fn((k,))
            if not isinstance(v, Csr):
                raise Unsupported("layer of the adjacency")
            return v
        n = rec.shape[0]
        k = T.fresh("k")
        c = g(k)
        return (n, c.nmaj, c.nmin), (lambda k, i, j: to_csr(g(k)).count(i, j)), (lambda ix: T.toreal(SPM.cell(to_csr(g(ix[0])), ix[1], ix[2]).e)), \
            (lambda ix: to_csr(g(ix[0])).mem(ix[1], ix[2]))
    if dims == 3 and isinstance(rec, Lst):
        def g(k):
            I.safety = False            # reads of the contract, not of the code
            try:
                return I.lib.seg_at(r.st.copy(), rec, k)
            finally:
                I.safety = True
        n = seg_sum(zip_segs([rec.segs]), lambda els: (TRUE, T.I(1)))
        m = lambda ix: to_csr(g(ix[0])).mem(ix[1], ix[2])
        cell = lambda ix: T.toreal(SPM.cell(to_csr(g(ix[0])), ix[1], ix[2]).e)
        k = T.fresh("k")
        c = g(k)
        sh = (n, c.nmaj, c.nmin)
        cnt = (lambda k, i, j: to_csr(g(k)).count(i, j))
        return sh, cnt, cell, m
    a = I.lib.arr(r.st, v)
    if len(a.shape) != dims:
        raise Unsupported("adjacency of another shape")
    tab = a.meta[1] if a.meta and a.meta[0] == "scatter" else None
    cnt = None
    if tab is not None:
        cnt = lambda *x: seg_pick(tab, x, lambda els: T.I(1))

    def cell(ix):
        x = a.fn(ix)
        if not x.finite:
            raise Unsupported("infinite entries")
        return T.toreal(x.e)
    return a.shape, cnt, cell, lambda ix: T.ne(cell(ix), Z)


def to_csr(c):
    return c if c.fmt == "csr" else SPM.flip(c)


def decide(C, name, hyps, mk, cands):
    """mk(candidate) is a list of (what, goal); one candidate must satisfy all.
    A refutation counts only when every candidate is refuted."""
    best = None
    if not cands:
        C.unknown(name, "no draw of its own for every pair was found")
        return None
    for c in cands:
        n0 = len(C.out)
        ok = all([C.check(name + what, hyps, g) for what, g in mk(c)])
        res, C.out[n0:] = C.out[n0:], []
        if ok:
            C.out += res
            return c
        if best is None or any(o["status"] == "unknown" for o in res) and not any(o["status"] == "unknown" for o in best):
            best = res
    C.out += best
    return None


def check_sample(C, r, v, dims, shape, cond, P_, scale=None, law="EXPO", zero=None):
    """cond(ix): the pair is admissible; P_(ix): its probability; scale(ix):
    parameter of the weight's law; zero(ix): weight 0 by convention."""
    I = C.I
    name = "sampled graph"
    try:
        sh, cnt, cell, mem = table(C, r, v, dims)
    except Unsupported as e:
        C.unknown(name, e)
        return
    for n, (x, y) in enumerate(zip(sh, shape)):
        C.check("%s has the ensemble's size [axis %d]" % (name, n), list(r.st.pc), T.eq(x, y))
    ix = tuple(T.fresh("a") for _ in shape)
    hy = list(r.st.pc) + bound(*zip(ix, shape))
    m = mem(ix)
    ce = cell(ix)
    us = sorted({(u.args[0], len(u.args) - 1) for u in draws(m, "U!") | draws(ce, "U!")})
    cands = [(nm, p) for nm, n in us if n == dims for p in itertools.permutations(range(dims))] if len(us) == 1 else []
    B = getattr(I, "blocks", None)
    if B is not None and dims == 2 and len(us) == 1 and us[0][1] == 4:
        cands = [(us[0][0], (p, q)) for p in itertools.permutations(range(2)) for q in itertools.permutations(range(2))]

    def place(p, x):
        """Indices of the draw of the pair: one-to-one in the pair."""
        if p and isinstance(p[0], tuple):
            return tuple(B.blk(x[n]) for n in p[0]) + tuple(T.sub(x[n], B.lo(B.blk(x[n]))) for n in p[1])
        return tuple(x[n] for n in p)
    own = lambda c, x: T.app(c[0], place(c[1], x), "R")
    hit = lambda c, x: T.and_(cond(x), T.lt(own(c, x), P_(x)))
    if scale is None:
        ed = lambda c: [(": an edge exactly where the pair is admissible and its own draw is below its link probability", T.eq(m, hit(c, ix))),
                        (": an unweighted edge has value 1", T.implies(m, T.eq(ce, ONE)))]
    else:
        ed = lambda c: [(": no weight where the pair is not admissible or its own draw is not below its link probability", T.implies(T.not_(hit(c, ix)), T.eq(ce, Z)))]
    if cnt is not None:
        e0 = ed
        ed = lambda c: e0(c) + [(": no pair is drawn twice", T.le(cnt(*ix), T.I(1)))]
    c = decide(C, name, hy, ed, cands)
    if c is None or scale is None:
        return
    ws = sorted({(w.args[0], len(w.args) - 1) for w in draws(ce, law + "!")})
    wc = [(nm, p) for nm, n in ws if n == dims + 1 for p in itertools.permutations(range(dims))] if len(ws) == 1 else []
    if B is not None and dims == 2 and len(ws) == 1 and ws[0][1] == 5:
        wc = [(ws[0][0], (p, q)) for p in itertools.permutations(range(2)) for q in itertools.permutations(range(2))]
    sc = scale(ix)

    def goal(w):
        d = T.app(w[0], place(w[1], ix) + (sc,), "R")
        if zero is not None:
            d = T.ite(zero(ix), Z, d)
        return [(": the weight of an edge is its own %s draw with the prescribed parameter" % {"EXPO": "exponential", "GEO": "geometric"}[law],
                 T.implies(hit(c, ix), T.eq(ce, d)))]
    decide(C, name, hy, goal, wc)


def check_frame(C, M, r, ref):
    """The sampled graph has the ensemble's vertices and labels, and the
    ensemble is unchanged."""
    I, st = C.I, r.st
    g = I.rec(st, r.val)
    f = lambda n: g.fields.get(n, (FALSE, None))
    C.check("num_vertices of the sample", list(st.pc), T.and_(f("num_vertices")[0], T.eq(I.lib.sc(f("num_vertices")[1]).e, N)))
    names = [("id_dict", N)]
    if M.kind == "multi":
        C.check("num_labels of the sample", list(st.pc), T.and_(f("num_labels")[0], T.eq(I.lib.sc(f("num_labels")[1]).e, L)))
        names.append(("label_dict", L))
    for nm, n in names:
        p, v = f(nm)
        if ref is None:
            d = I.rec(st, v)
            k = T.fresh("k")
            if not isinstance(d, Dct) or d.conc is not None:
                C.unknown(nm + " of the sample", "not a dictionary over the positions")
                continue
            C.check(nm + " of the sample has the positions as keys", list(st.pc), T.and_(p, T.eq(d.pres((k,)), T.and_(T.le(T.I(0), k), T.lt(k, n)))))
            C.check(nm + " of the sample maps every position to itself", list(st.pc) + bound((k, n)), T.eq(d.fn((k,)), T.toreal(k)))
        else:
            ok = isinstance(v, Ref) and v == ref[nm]
            (C.check(nm + " of the sample is the one of the reference graph", list(st.pc), p) if ok else C.unknown(nm + " of the sample", "another object"))
    o = I.rec(st, M.obj)
    o0 = I.rec(M.st, M.obj)
    same = set(o.fields) == set(o0.fields) and all(o.fields[k] is o0.fields[k] or o.fields[k] == o0.fields[k] for k in o.fields)
    same = same and all(st.heap.get(a) is rec for a, rec in M.st.heap.items() if a != M.obj.addr)
    if same:
        C.out.append(dict(name=C.name + ": sampling leaves the ensemble unchanged", status="proved", backend="frame", t=0.0, why=None, cex=None))
    else:
        C.unknown("sampling leaves the ensemble unchanged", "heap differs")


def reference(C, M):
    I, st = C.I, M.st
    cls = I.cls("sparse.graphs.MultiDiGraph" if M.back == "sparse" else "graphs.MultiDiGraph") if M.kind == "multi" else \
        I.cls("sparse.graphs.DiGraph" if M.back == "sparse" else "graphs.DiGraph")
    ref = {}
    fl = {}
    for nm in ("id_dict", "label_dict", "group_dict"):
        ref[nm] = I.alloc(st, Dct(lambda k, nm=nm: T.app("ref_" + nm, k, "R"), lambda k, nm=nm: T.app("ref_in_" + nm, k, "B"), 1))
        fl[nm] = (TRUE if nm != "group_dict" else T.var("has_groups", "B"), ref[nm])
    for nm in ("num_groups", "group_dtype", "groups"):
        fl[nm] = (T.var("has_groups", "B"), Op(T.app("ref_" + nm, (), "U")))
    return I.alloc(st, Inst(cls, fl)), ref


@per_class
def binary(C, back, cls, kind, sl, ref):
    M = prepare(C, make(C, back, cls, kind))
    g, rf = reference(C, M) if ref else (None, None)
    sv, se = (None, SL) if sl is None else (Sc(TRUE if sl else FALSE), TRUE if sl else FALSE)
    C.sane(M.st.pc)
    r = method(C, M, "sample", ref_g=g, selfloops=sv)
    C.no_raise("sample", r)
    if not r.ok:
        C.unknown("sample returns", "no normal path")
        return
    adj = C.I.getattr(r.st, r.val, "adj")
    if kind == "single":
        check_sample(C, r, adj, 2, (N, N), lambda x: adm(x[0], x[1], se), lambda x: M.P(*x))
    else:
        check_sample(C, r, adj, 3, (L, N, N), lambda x: adm(x[1], x[2], se), lambda x: M.pk(x[1], x[2], x[0]))
    check_frame(C, M, r, rf)


def strengths(C, M, given):
    """(arguments, out strength, in strength, stored?) ; given strengths are
    new symbols, otherwise the fitnesses are the strengths."""
    I, st = C.I, M.st
    if M.kind == "single":
        if given:
            a = [vec(I, st, "so", N), vec(I, st, "si", N)]
            return dict(out_strength=a[0], in_strength=a[1]), (lambda i: T.app("so", (i,), "R")), (lambda i: T.app("si", (i,), "R")), None
        return {}, (lambda i: T.app("xo", (i,), "R")), (lambda i: T.app("xi", (i,), "R")), None
    if not given:
        # fitnesses stored by the model (the model's own support)
        return {}, (lambda i, k: T.app("xo", (i, k), "R")), (lambda i, k: T.app("xi", (i, k), "R")), (M.so, M.si)
    fo, fi = (lambda i, k: T.app("go", (i, k), "R")), (lambda i, k: T.app("gi", (i, k), "R"))
    if given == "array":
        a = [mat(I, st, "go", N, L), mat(I, st, "gi", N, L)]
        sup = (lambda i, k: T.ne(fo(i, k), Z)), (lambda i, k: T.ne(fi(i, k), Z))
        return dict(out_strength_label=a[0], in_strength_label=a[1]), fo, fi, sup
    sup = (lambda i, k: T.app("hgo", (i, k), "B")), (lambda i, k: T.app("hgi", (i, k), "B"))
    a = [Csr("go", N, L, sup[0], lambda i, k: Sc(fo(i, k)), "csr"), Csr("gi", N, L, sup[1], lambda i, k: Sc(fi(i, k)), "csr")]
    return dict(out_strength_label=a[0], in_strength_label=a[1]), fo, fi, sup


@per_class
def cremb(C, back, cls, kind, sl, given):
    M = prepare(C, make(C, back, cls, kind, real=True))
    kw, fo, fi, sup = strengths(C, M, given)
    sv, se = (None, SL) if sl is None else (Sc(TRUE if sl else FALSE), TRUE if sl else FALSE)
    if kind == "single":
        so, si = ssum(fo), ssum(fi)
        M.st.pc = M.st.pc + (T.lt(Z, so),)
        ok = lambda k: close(so, si)
    else:
        w = (lambda f, h, i, k: f(i, k)) if back == "dense" and given != "sparse" else (lambda f, h, i, k: T.ite(h(i, k), f(i, k), Z))
        so = lambda k: ssum(lambda i: w(fo, sup[0], i, k))
        si = lambda k: ssum(lambda i: w(fi, sup[1], i, k))
        k = T.fresh("k")
        M.st.pc = M.st.pc + (T.all_(k, T.I(0), L, T.lt(Z, so(k))),)
    C.sane(M.st.pc)
    r = method(C, M, "sample", weights="cremb", selfloops=sv, **kw)
    for o in r.raises:
        if o.val.name != "AssertionError":
            C.check("sample raises no %s" % o.val.name, list(o.st.pc), FALSE)
        elif kind == "single":
            C.check("strengths are rejected only when their totals differ", list(o.st.pc), T.not_(close(so, si)))
        else:
            k = T.fresh("k")
            C.check("strengths are rejected only when the totals of a label differ", list(o.st.pc), T.ex(k, T.I(0), L, T.not_(close(so(k), si(k)))))
    if not r.ok:
        C.unknown("sample returns", "no normal path")
        return
    if kind == "single":
        C.check("unequal totals are rejected", list(r.st.pc), close(so, si))
    else:
        k = T.fresh("k")
        C.check("unequal totals of a label are rejected", list(r.st.pc) + bound((k, L)), close(so(k), si(k)))
    adj = C.I.getattr(r.st, r.val, "adj")
    if kind == "single":
        check_sample(C, r, adj, 2, (N, N), lambda x: adm(x[0], x[1], se), lambda x: M.P(*x),
                     lambda x: T.div(T.mul(fo(x[0]), fi(x[1])), T.mul(so, M.P(*x))))
    else:
        zero = None
        val = lambda f, h, i, k: w(f, h, i, k)
        if back in ("sparse", "spark"):
            zero = lambda x: T.not_(T.and_(sup[0](x[1], x[0]), sup[1](x[2], x[0])))
        check_sample(C, r, adj, 3, (L, N, N), lambda x: adm(x[1], x[2], se), lambda x: M.pk(x[1], x[2], x[0]),
                     lambda x: T.div(T.mul(val(fo, sup[0], x[1], x[0]), val(fi, sup[1], x[2], x[0])), T.mul(so(x[0]), M.PK(x[1], x[2], x[0]))), zero=zero)
    check_frame(C, M, r, None)


def close(a, b):
    q = T.sub(ONE, T.div(b, a))
    return T.and_(T.lt(q, EPS), T.lt(T.neg(q), EPS))


def setup():
    for back in ("dense", "sparse"):
        for cls, kind in CLASSES[back]:
            for sl in (None, False, True):
                add_task(["C10"], "%s.sample(selfloops=%s)" % (cls, sl), binary, back=back, cls=cls, kind=kind, sl=sl, ref=False)
                for given in (False, True) if kind == "single" else (False, "array", "sparse"):
                    add_task(["C11", "C10"], "%s.sample(cremb, strengths=%s, selfloops=%s)" % (cls, given, sl), cremb, back=back, cls=cls, kind=kind, sl=sl, given=given)
            add_task(["C10"], "%s.sample(reference graph)" % cls, binary, back=back, cls=cls, kind=kind, sl=None, ref=True)


setup()
