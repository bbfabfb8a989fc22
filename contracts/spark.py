"""C17: the Spark backend computes the sums of the other backends, for every
partition of the vertices into blocks."""
from engine import prover as P
from contracts.base import *
from contracts import sums as S
from contracts import avnn as AV
from contracts import like as LK
from contracts import fit as FT
from contracts import sample as SA


# ---------------------------------------------------------------- likelihood
def block_ids(C, st, M, env):
    """Arguments of the link functions for a pair of positions of the block."""
    d = ident(C, st, env["param"])
    none = T.app("none", (), "U")
    if M.kind == "single":
        xo, xi = (C.I.lib.arr(st, env[n]) for n in ("prop_out", "prop_in"))
        el = lambda a, i: ident(C, st, a.fn((i,)))
        return (xo.shape[0], xi.shape[0]), lambda i, j: (d, el(xo, i), el(xi, j), none)
    io, ii, lo, li, vo, vi = (env[n] for n in ("indptr_out", "indptr_in", "lbl_out", "lbl_in", "prop_out", "prop_in"))
    for tr in ((io, lo, vo), (ii, li, vi)):
        if not (all(isinstance(x, CsrPart) and x.csr is tr[0].csr for x in tr) and [x.part for x in tr] == ["indptr", "indices", "data"]):
            raise Unsupported("_likelihood of something else")
    row = lambda c, i: tuple(ident(C, st, CsrRow(c, i, p)) for p in ("indices", "data"))
    return (io.csr.nmaj, ii.csr.nmaj), lambda i, j: (d,) + row(io.csr, i) + row(ii.csr, j) + (none,)


def block_like(C, st, M, env):
    """Contract of _likelihood: sum over the pairs of a block of rows
    [a0, a1) and columns [b0, b1)."""
    I = C.I
    (a0, a1), (b0, b1) = [tuple(I.lib.sc(x).e for x in env[n]) for n in ("ind_out", "ind_in")]
    ip, ix = env["adj_i"], env["adj_j"]
    if not (isinstance(ip, CsrPart) and isinstance(ix, CsrPart) and ip.csr is ix.csr and (ip.part, ix.part) == ("indptr", "indices")):
        raise Unsupported("_likelihood of something else")
    c = ip.csr
    sl = I.truth(env.get("selfloops", env.get("slflp")), st)
    (no, ni), ids = block_ids(C, st, M, env)
    na, nb = T.sub(a1, a0), T.sub(b1, b0)
    pre = T.and_(T.le(T.I(0), a0), T.le(a0, a1), T.le(a1, c.nmaj), T.le(T.I(0), b0), T.le(b0, b1), T.le(b1, c.nmin), T.eq(no, na), T.eq(ni, nb))
    at = lambda nm, i, j, s: T.app(nm, ids(i, j), s)
    ad = lambda i, j: adm(T.add(a0, i), T.add(b0, j), sl)
    ed = lambda i, j: c.mem(T.add(a0, i), T.add(b0, j))
    val = lambda i, j: T.ite(ad(i, j), T.ite(ed(i, j), at("LP", i, j, "R"), at("LQ", i, j, "R")), Z)
    inf = lambda i, j: T.and_(ad(i, j), T.ite(ed(i, j), at("LP.ninf", i, j, "B"), at("LQ.ninf", i, j, "B")))
    i, j = T.fresh("i"), T.fresh("j")
    return pre, Sc(dsum(val, na, nb), ninf=T.ex(i, T.I(0), na, T.ex(j, T.I(0), nb, inf(i, j))))


def over_block(C, M):
    I = C.I
    f = I.find(I.cls(M.cls), "_likelihood")

    def h(I, st, f, env):
        for a in ("logp", "log1mp"):
            fn = env[a]
            if not (isinstance(fn, Fn) and fn.qual == I.find(I.cls(M.cls), a).qual):
                raise Unsupported("_likelihood with another link function")
        pre, v = block_like(C, st, M, env)
        I.oblige(st, "precondition of _likelihood", pre)
        return v
    I.over[f.qual] = h


@per_class
def like_block(C, back, cls, kind):
    M = make(C, back, cls, kind)
    I, st = C.I, M.st
    f = I.find(I.cls(cls), "_likelihood")
    g = lambda n: I.getattr(st, M.obj, n)
    a0, a1, b0, b1 = (T.var(x) for x in ("a0", "a1", "b0", "b1"))
    ed = lambda i, j: T.ne(LK.A1(i, j), Z)
    c = Csr("obs", N, N, ed, lambda i, j: Sc(LK.A1(i, j)), "csr")
    if kind == "single":
        sl_ = lambda a, lo, hi: I.alloc(st, Arr((T.sub(hi, lo),), lambda ix: a.fn((T.add(lo, ix[0]),)), a.kind))
        src = [I.rec(st, M.fields[n]) for n in ("prop_out", "prop_in")]
        fac = [sl_(src[0], a0, a1), sl_(src[1], b0, b1)]
    else:
        xo, xi = SPM.row_slice(M.csr[0], a0, a1), SPM.row_slice(M.csr[1], b0, b1)
        fac = [CsrPart(x, p) for p in ("indptr", "indices", "data") for x in (xo, xi)]
    args = [g("logp"), g("log1mp"), M.param, (Sc(a0), Sc(a1)), (Sc(b0), Sc(b1))] + fac + [g("prop_dyad"), CsrPart(c, "indptr"), CsrPart(c, "indices"), Sc(SL)]
    env = I.bind_args(f, args, {}, st)
    pre, want = block_like(C, st, M, env)
    st.pc = st.pc + (pre,)
    C.sane(st.pc)
    r = C.call(f, args, st)
    C.no_raise("_likelihood", r)
    if r.ok:
        C.sc("_likelihood is the sum of the log-probabilities of the observed presence or absence of every admissible pair of the block",
             list(r.st.pc), r.val, want, hints=[])


# ---------------------------------------------------------------- confusion matrix
@per_class
def confusion(C, back, cls, kind, how, sl):
    M = make(C, back, cls, kind)
    I = C.I
    g, ed = LK.observed(C, M, how)
    K = T.var("K")
    M.st.pc = M.st.pc + (T.le(T.I(1), K),)
    th = vec(I, M.st, "th", K)
    sv, se = AV.arg(sl)
    C.sane(M.st.pc)
    r = method(C, M, "confusion_matrix", g, thresholds=th, selfloops=sv)
    C.no_raise("confusion_matrix", r)
    if not r.ok:
        return
    if not (isinstance(r.val, tuple) and len(r.val) == 4):
        C.unknown("confusion_matrix", "result is not a quadruple")
        return
    cell = lambda k, hit, edge: dsum(lambda i, j: T.ite(T.and_(
        adm(i, j, se), ed(i, j) if edge else T.not_(ed(i, j)),
        T.le(T.app("th", (k,), "R"), M.P(i, j)) if hit else T.lt(M.P(i, j), T.app("th", (k,), "R"))), T.I(1), T.I(0)))
    for n, (nm, hit, edge) in enumerate((("true positives", True, True), ("false positives", True, False), ("true negatives", False, False), ("false negatives", False, True))):
        arr_is(C, "%s at threshold k are the admissible pairs %s probability %s the threshold" % (nm, "with an edge and" if edge else "without edge and", "at least" if hit else "below"),
               r, r.val[n], (K,), lambda k: Sc(cell(k, hit, edge)))


# ---------------------------------------------------------------- constructors
def ctor_args(C, st, kind, how):
    """Valid arguments of a constructor, of any size."""
    I = C.I
    kw = dict(num_vertices=Sc(N), selfloops=Sc(SL))
    i, j = T.fresh("i"), T.fresh("j")
    pre = [T.le(T.I(1), N), T.le(T.I(1), L)]
    for n, w in (("prop_out", "xo"), ("prop_in", "xi")):
        if kind == "single":
            kw[n] = I.alloc(st, Arr((N,), lambda ix, w=w: Sc(T.app(w, ix, "R"))))
            pre.append(T.all_(i, T.I(0), N, T.le(Z, T.app(w, (i,), "R"))))
        elif kind == "multi":
            kw["num_labels"] = Sc(L)
            val = lambda i, k, w=w: Sc(T.app(w, (i, k), "R"))
            if "sparse" in how:
                mem = lambda i, k, w=w: T.app("s" + w[1], (i, k), "B")
                kw[n] = SPM.raw(I, st, Csr(w, N, L, mem, val, "csr"))
            else:
                mem = lambda i, k, w=w: T.ne(T.app(w, (i, k), "R"), Z)
                kw[n] = I.alloc(st, Arr((N, L), lambda ix, val=val: val(*ix)))
            pre.append(T.all_(i, T.I(0), N, T.all_(j, T.I(0), L, T.implies(mem(i, j), T.le(Z, val(i, j).e)))))
    if "blocks" in how:
        kw["p_blocks"] = Sc(T.var("PB"))
        pre.append(T.le(T.I(1), T.var("PB")))
    if "edges" in how:
        kw["num_edges"] = Sc(T.var("E", "R"))
        pre.append(T.le(Z, T.var("E", "R")))
    else:
        kw["param"] = Sc(T.var("d", "R"))
        pre.append(T.le(Z, T.var("d", "R")))
    st.pc = st.pc + tuple(pre)
    return kw


def constructor(C, cls, kind, how):
    """The constructor establishes the class invariant assumed by the methods
    (base.spark_fields): consecutive intervals from 0 to num_vertices, with the
    factors of the interval."""
    from engine import rdd
    I = C.I
    SPM.install(I)
    rdd.install(I)
    st = St()
    kw = ctor_args(C, st, kind, how)
    C.sane(st.pc)
    src = dict(kw)
    r = C.call(I.cls(cls), [SymFun("SparkContext", None)], st, kw)
    C.no_raise("constructor", r)
    if not r.ok:
        return
    st, obj = r.st, r.val
    g = lambda n: I.getattr(st, obj, n)
    hy = list(st.pc)
    C.sc("num_vertices is the one passed", hy, g("num_vertices"), Sc(N))
    C.check("selfloops is the one passed", hy, T.eq(I.truth(g("selfloops"), st), SL))
    one = Arr((N,), lambda ix: Sc(T.R(1)))
    if kind == "single":
        fac = [I.lib.arr(st, src[n]) for n in ("prop_out", "prop_in")]
        for n, w in (("prop_out", "xo"), ("prop_in", "xi")):
            arr_is(C, n + " is the one passed", r, g(n), (N,), lambda i: Sc(T.app(w, (i,), "R")))
    elif kind == "multi":
        fac = []
        for n, w in (("prop_out", "xo"), ("prop_in", "xi")):
            c = g(n)
            if not isinstance(c, Csr) or c.fmt != "csr":
                C.unknown(n + " is a row-compressed matrix", "other value")
                return
            C.check(n + " stores every entry once, in order", hy, SPM.is_canonical(I, st, c))
            arr_is(C, n + " is the one passed", r, c, (N, L), lambda i, k: SPM.cell(Csr(w, N, L, lambda i, k: T.app("s" + w[1], (i, k), "B"), lambda i, k: Sc(T.app(w, (i, k), "R")), "csr"), i, k)
                   if "sparse" in how else Sc(T.app(w, (i, k), "R")))
            fac.append(c)
    else:
        fac = [one, one]

    def family(name, low):
        """Element and (block, block) binders of a doubly indexed collection."""
        x = g(name)
        if not isinstance(x, rdd.RDD):
            return None
        ls = list(rdd.leaves(x.segs))
        if len(ls) != 1 or len(ls[0][0]) != 2 or ls[0][1]:
            return None
        (b, lo, nb), (c, lo2, hi) = ls[0][0]
        if not (T.isnum(lo, 0) and T.isnum(lo2, 0)) or c in nb.fv or b in nb.fv:
            return None
        s1, el = rdd.element(I, st, x, ls[0][0], (), ls[0][2])
        return b, c, nb, hi, el, s1
    it, sy = family("p_iter_rdd", False), family("p_sym_rdd", True)
    if it is None or sy is None:
        C.unknown("collections of blocks", "not indexed by two block numbers")
        return
    b, c, nb, hi, el, s1 = it
    pair = lambda v: isinstance(v, tuple) and len(v) == 2 and all(isinstance(x, Sc) for x in v)
    if not (isinstance(el, tuple) and len(el) == 3 and isinstance(el[0], tuple) and len(el[0]) == 2 and all(pair(x) for x in el[0])):
        C.unknown("collections of blocks", "elements of another form")
        return
    # the number of blocks is arbitrary from here on: only that it is positive counts
    p = T.var("p!")
    C.check("at least one block", hy, T.le(T.I(1), nb))
    C.check("as many columns as rows of blocks", hy, T.eq(hi, nb))
    base = [T.le(T.I(1), N), T.le(T.I(1), p)]

    def ob(name, hyps, goal):
        G = [generalise(h, nb, p) for h in base + list(hyps)], generalise(goal, nb, p)
        if P.valid(*G) != "proved":     # perhaps only for the numbers of blocks that occur
            G = hy + [T.subst(h, {p: nb}) for h in G[0]], T.subst(G[1], {p: nb})
        C.check(name, *G)
    lo_ = lambda t: T.subst(T.subst(el[0][0][0].e, {c: T.I(0)}), {b: t})
    hi_ = lambda t: T.subst(T.subst(el[0][0][1].e, {c: T.I(0)}), {b: t})
    rg = [T.le(T.I(0), b), T.lt(b, p), T.le(T.I(0), c), T.lt(c, p)]
    ob("the first block starts at 0", [], T.eq(lo_(T.I(0)), T.I(0)))
    ob("the last block ends at num_vertices", [], T.eq(hi_(T.sub(nb, T.I(1))), N))
    ob("every block starts where the previous one ends", [T.le(T.I(0), b), T.lt(b, T.sub(p, T.I(1)))], T.eq(hi_(b), lo_(T.add(b, T.I(1)))))
    ob("no block has negative length", rg, T.le(lo_(b), hi_(b)))
    for k, w in ((0, "start"), (1, "end")):
        f = (lo_, hi_)[k]
        ob("p_iter_rdd: %s of the rows depends on the row block" % w, rg, T.eq(el[0][0][k].e, f(b)))
        ob("p_iter_rdd: %s of the columns is that of the column block" % w, rg, T.eq(el[0][1][k].e, f(c)))
    inside = rg + [T.le(T.I(0), lo_(b)), T.le(lo_(b), hi_(b)), T.le(hi_(b), N), T.le(T.I(0), lo_(c)), T.le(lo_(c), hi_(c)), T.le(hi_(c), N)]

    def slices(name, s, v, f, t):
        """v holds the factors f of block t."""
        if isinstance(f, Csr):
            if not isinstance(v, Csr) or v.fmt != "csr":
                C.unknown(name, "not a row-compressed matrix")
                return
            ob(name + " [length]", inside, T.eq(v.nmaj, T.sub(hi_(t), lo_(t))))
            ob(name + " [labels]", inside, T.eq(v.nmin, L))
            i, k = T.fresh("i"), T.fresh("k")
            h = inside + [T.le(T.I(0), i), T.lt(i, T.sub(hi_(t), lo_(t))), T.le(T.I(0), k), T.lt(k, L)]
            at = T.add(lo_(t), i)
            ob(name + " [stored entries]", h, T.eq(v.mem(i, k), f.mem(at, k)))
            ob(name, h + [f.mem(at, k)], T.eq(v.val(i, k).e, f.val(at, k).e))
            return
        try:
            a = I.lib.arr(s, v)
        except Unsupported as e:
            C.unknown(name, e)
            return
        if len(a.shape) != 1:
            C.unknown(name, "shape")
            return
        ob(name + " [length]", inside, T.eq(a.shape[0], T.sub(hi_(t), lo_(t))))
        i = T.fresh("i")
        h = inside + [T.le(T.I(0), i), T.lt(i, T.sub(hi_(t), lo_(t)))]
        ob(name, h, T.eq(a.fn((i,)).e, f.fn((T.add(lo_(t), i),)).e))
    slices("p_iter_rdd: out factors of the row block", s1, el[1], fac[0], b)
    slices("p_iter_rdd: in factors of the column block", s1, el[2], fac[1], c)
    b2, c2, nb2, hi2, el2, s2 = sy
    m = {b2: b, c2: c}
    C.check("p_sym_rdd: as many rows of blocks", hy, T.eq(nb2, nb))
    C.check("p_sym_rdd: the column blocks up to the row block", hy + [T.le(T.I(0), b), T.lt(b, nb)], T.eq(T.subst(hi2, m), T.add(b, T.I(1))))
    ok = isinstance(el2, tuple) and len(el2) == 3 and all(isinstance(x, tuple) and len(x) == 2 for x in el2) and all(pair(x) for x in el2[0])
    if not ok:
        C.unknown("p_sym_rdd", "elements of another form")
        return
    from engine.lib import sub_value
    for x, t, w in ((0, b, "rows"), (1, c, "columns")):
        for k, f in ((0, lo_), (1, hi_)):
            ob("p_sym_rdd: %s of the %s of the block" % (("start", "end")[k], w), rg, T.eq(T.subst(el2[0][x][k].e, m), f(t)))
    inside = inside + [T.le(c, b)]
    ren = lambda s, v: v.subst(m) if isinstance(v, Csr) else I.alloc(s, arr_sub(I.lib.arr(s, v), m))
    for n, (k, q, t, w) in enumerate(((1, 0, b, "out factors of the row block"), (1, 1, c, "out factors of the column block"),
                                      (2, 0, c, "in factors of the column block"), (2, 1, b, "in factors of the row block"))):
        slices("p_sym_rdd: " + w, s2, ren(s2, el2[k][q]), fac[k - 1], t)
    if kind == "multi":
        x = g("layers_rdd")
        ls = list(rdd.leaves(x.segs)) if isinstance(x, rdd.RDD) else []
        if len(ls) != 1 or len(ls[0][0]) != 1 or ls[0][1] or x.fns or not T.isnum(ls[0][0][0][1], 0):
            C.unknown("layers_rdd", "not indexed by label")
            return
        k, _, top = ls[0][0][0]
        e = ls[0][2]
        C.check("layers_rdd: one element per label", hy, T.eq(top, L))
        if not (isinstance(e, tuple) and len(e) == 3 and isinstance(e[0], Sc) and all(isinstance(v, SPM.ColVec) for v in e[1:])):
            C.unknown("layers_rdd", "elements of another form")
            return
        h = hy + [T.le(T.I(0), k), T.lt(k, L)]
        C.sc("layers_rdd: the label", h, e[0], Sc(k))
        i = T.fresh("i")
        h = h + [T.le(T.I(0), i), T.lt(i, N)]
        for n, v, f in (("out", e[1], fac[0]), ("in", e[2], fac[1])):
            C.check("layers_rdd: %s factors [vertices]" % n, h, T.eq(v.c.nmin, N))
            C.check("layers_rdd: %s factors [stored entries]" % n, h, T.eq(v.c.mem(v.k, i), f.mem(i, k)))
            C.check("layers_rdd: %s factors of the label" % n, h + [f.mem(i, k)], T.eq(v.c.val(v.k, i).e, f.val(i, k).e))


def arr_sub(a, m):
    from engine.values import sub_sc
    return Arr(tuple(T.subst(x, m) for x in a.shape), lambda ix: sub_sc(a.fn(ix), m), a.kind)


def generalise(e, nb, p):
    """Replace the number of blocks by an arbitrary one."""
    if nb.op == "var":
        return T.subst(e, {nb: p})
    memo = {}

    def go(x):
        if x is nb:
            return p
        if not x.args or x.op in ("var", "num"):
            return x
        if x not in memo:
            memo[x] = T.rebuild(x, [go(y) if isinstance(y, T.E) else y for y in x.args])
        return memo[x]
    return go(e)


def partition(C):
    """Consecutive intervals from 0 to n: every vertex lies in one of them, and in
    one only (inductions over the block number, step by step)."""
    n, p = N, T.var("p")
    lo, hi = (lambda b, f=f: T.app(f, (b,), "I") for f in ("lo", "hi"))
    b, c, v = T.fresh("b"), T.fresh("c"), T.fresh("v")
    one = T.I(1)

    def inv(t):
        """What the constructors establish, at block t."""
        return [T.implies(T.and_(T.le(T.I(0), t), T.lt(t, p)), T.le(lo(t), hi(t))),
                T.implies(T.and_(T.le(T.I(0), t), T.lt(t, T.sub(p, one))), T.eq(hi(t), lo(T.add(t, one))))]
    base = [T.le(one, p), T.le(one, n), T.eq(lo(T.I(0)), T.I(0)), T.eq(hi(T.sub(p, one)), n)]
    rb = [T.le(T.I(0), b), T.lt(b, p)]
    last = T.sub(p, one)
    C.sane(base + inv(b) + inv(c) + rb)
    C.check("starts: first", base, T.le(T.I(0), lo(T.I(0))))
    C.check("starts: step", base + inv(b) + rb + [T.lt(b, last), T.le(T.I(0), lo(b))], T.le(T.I(0), lo(T.add(b, one))))
    C.check("order: next block", base + inv(b) + rb + [T.lt(b, last)], T.le(hi(b), lo(T.add(b, one))))
    C.check("order: step", base + inv(b) + inv(c) + rb + [T.lt(b, c), T.lt(c, last), T.le(hi(b), lo(c))], T.le(hi(b), lo(T.add(c, one))))
    C.check("ends: before the last block", base + inv(b) + inv(last) + rb + [T.implies(T.lt(b, last), T.le(hi(b), lo(last)))], T.le(hi(b), n))
    into = lambda t, k: T.and_(T.le(T.I(0), t), T.le(t, k), T.le(lo(t), v), T.lt(v, hi(t)))
    w = T.fresh("w")
    some = lambda k: T.ex(w, T.I(0), T.add(k, one), T.and_(T.le(lo(w), v), T.lt(v, hi(w))))
    C.check("cover: first block", base + inv(T.I(0)) + [T.le(T.I(0), v), T.lt(v, hi(T.I(0)))], T.and_(T.le(lo(T.I(0)), v), T.lt(v, hi(T.I(0)))))
    nx = T.add(b, one)
    wit = T.fresh("w")
    C.check("cover: step", base + inv(b) + inv(nx) + rb + [T.lt(b, last), T.implies(T.lt(v, hi(b)), into(wit, b)), T.lt(v, hi(nx))],
            T.or_(into(wit, nx), into(nx, nx)))


def setup():
    add_task(["C17"], "partition of the vertices", partition)
    for cls, kind in CLASSES["spark"] + [("spark.models.RandomDiGraph", "random")]:
        for how in (("edges", "blocks"), ("edges",), ("param", "blocks")) + ((("edges", "blocks", "sparse"),) if kind == "multi" else ()):
            add_task(["C17"], "%s.__init__(%s)" % (cls, ", ".join(how)), constructor, cls=cls, kind=kind, how=how)
    for cls, kind in CLASSES["spark"]:
        kw = dict(back="spark", cls=cls, kind=kind)
        add_task(["C17", "C06"], cls + ".expected_num_edges", S.num_edges, **kw)
        for w, (nm, _) in enumerate(S.NAMES):
            add_task(["C17", "C07"], cls + "." + nm, S.degrees, which=w, **kw)
        add_task(["C17", "C03"], cls + ".density_fit_fun", S.fit_fun, **kw)
        if kind == "multi":
            add_task(["C17", "C06"], cls + ".expected_num_edges_label", S.num_edges_label, **kw)
            for w, (nm, _) in enumerate(S.NAMES):
                add_task(["C17", "C07"], cls + "." + nm + "_by_label", S.degrees_label, which=w, **kw)
        for ndir in AV.DIRS:
            for sl in (None, False, True):
                k2 = dict(kw, ndir=ndir, sl=sl)
                add_task(["C17", "C08"], "%s.expected_av_nn_property(%s, selfloops=%s)" % (cls, ndir, sl), AV.av_prop, **k2)
                for ddir in AV.DIRS:
                    add_task(["C17", "C08"], "%s.expected_av_nn_degree(%s, %s, selfloops=%s)" % (cls, ddir, ndir, sl), AV.av_deg, ddir=ddir, **k2)
        add_task(["C17", "C09"], cls + "._likelihood", like_block, **kw)
        for how in ("array", "sparse"):
            for sl in (None, False, True):
                add_task(["C17"], "%s.confusion_matrix(%s, selfloops=%s)" % (cls, how, sl), confusion, how=how, sl=sl, **kw)
        if kind == "multi":
            add_task(["C17", "C09"], cls + "._likelihood_layer", LK.layer, **kw)
        for how in ("array", "sparse") + (("tensor", "list") if kind == "multi" else ()):
            for sl in (None, False, True):
                add_task(["C17", "C09"], "%s.log_likelihood(%s, selfloops=%s)" % (cls, how, sl), LK.like, how=how, sl=sl, **kw)
        for x0 in (None, "array"):
            if kind == "single":
                add_task(["C17", "C05"], "%s.fit(x0=%s)" % (cls, x0), FT.fit, x0=x0, **kw)
            else:
                for pl in (True, False):
                    add_task(["C17", "C05", "C03"], "%s.fit(x0=%s, per_label=%s)" % (cls, x0, pl), FT.fit, x0=x0, per_label=pl, **kw)
        for sl in (None, False, True):
            add_task(["C17", "C10"], "%s.sample(selfloops=%s)" % (cls, sl), SA.binary, sl=sl, ref=False, **kw)
            for given in (False, True) if kind == "single" else (False, "array", "sparse"):
                add_task(["C17", "C11", "C10"], "%s.sample(cremb, strengths=%s, selfloops=%s)" % (cls, given, sl), SA.cremb, sl=sl, given=given, **kw)
        add_task(["C17", "C10"], "%s.sample(reference graph)" % cls, SA.binary, sl=None, ref=True, **kw)


setup()
