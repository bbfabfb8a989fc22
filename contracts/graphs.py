"""C14: every measure of a graph is the sum over its stored edges that its name
says.  The stored adjacency is an arbitrary table A (A = 0: no edge); C15 covers
how it is filled from the edge list."""
from contracts.base import *

G = T.var("G")
CL = {"Graph": (False, False), "DiGraph": (True, False), "MultiGraph": (False, True), "MultiDiGraph": (True, True)}


class Gr:
    pass


def A(*ix):
    return T.app("A", ix, "R")


def AB(*ix):
    return T.app("AB", ix, "B")


def make_graph(C, back, name, weighted):
    I = C.I
    SPM.install(I)
    st = St()
    g = Gr()
    g.directed, g.multi = CL[name]
    g.back, g.weighted, g.cls = back, weighted, ("graphs." if back == "dense" else "sparse.graphs.") + name
    g.name = name
    I.key_bound = G
    i, j, l = T.fresh("i"), T.fresh("j"), T.fresh("l")
    a, b = T.fresh("i"), T.fresh("w")
    W = T.var("last")
    st.pc = (T.le(T.I(1), N), T.le(T.I(1), L), T.le(T.I(1), G),
             T.all_(a, T.I(0), N, T.and_(T.le(T.I(0), T.app("grp", (a,), "I")), T.lt(T.app("grp", (a,), "I"), G))),
             # groups are numbered from the values that occur
             T.le(T.I(0), W), T.lt(W, N), T.eq(T.app("grp", (W,), "I"), T.sub(G, T.I(1))))
    P.FACTS["A"] = lambda e: [T.le(Z, e)]
    cell = (lambda *ix: Sc(A(*ix))) if weighted else (lambda *ix: Sc(AB(*ix)))
    kind = "f" if weighted else "b"
    if back == "dense":
        sh = (L, N, N) if g.multi else (N, N)
        adj = I.alloc(st, Arr(sh, lambda ix: cell(*ix), kind))
    else:
        mem = (lambda *ix: T.ne(A(*ix), Z)) if weighted else AB
        if g.multi:
            memo = {}

            def get(e):
                if e not in memo:
                    memo[e] = Csr("adj%s" % e, N, N, lambda x, y: mem(e, x, y), lambda x, y: cell(e, x, y), "csr")
                    memo[e].zero_outside = True
                return memo[e]
            adj = SpList(L, get)
        else:
            adj = Csr("adj", N, N, mem, cell, "csr")
            adj.zero_outside = True
    f = dict(num_vertices=Sc(N), num_groups=Sc(G), num_labels=Sc(L), weighted=Sc(TRUE if weighted else FALSE),
             groups=vec(I, st, "grp", N, "I"), adj=adj)
    if not g.multi:
        f.pop("num_labels")
    g.fields = f
    g.obj = I.alloc(st, Inst(I.cls(g.cls), {k: (TRUE, v) for k, v in f.items()}))
    g.st = st
    # what the stored table means
    if weighted:
        g.ek = lambda l, i, j: T.ne(A(l, i, j), Z)
        g.wk = lambda l, i, j: A(l, i, j)
    else:
        g.ek = lambda l, i, j: AB(l, i, j)
    if g.multi:
        def lsum(f):
            l = T.fresh("l")
            return T.bsum(l, T.I(0), L, f(l))
        # some label has the edge: the sum of the non-negative entries is not 0
        # (lemma sum_pos_iff)
        if weighted:
            g.w = lambda i, j: lsum(lambda l: A(l, i, j))
            g.e = lambda i, j: T.ne(g.w(i, j), Z)
        elif back == "dense":
            g.e = lambda i, j: T.ne(lsum(lambda l: T.ite(AB(l, i, j), T.I(1), T.I(0))), T.I(0))
        else:
            def some(i, j):
                l = T.fresh("l")
                return T.ex(l, T.I(0), L, AB(l, i, j))
            g.e = some
    else:
        g.e = (lambda i, j: T.ne(A(i, j), Z)) if weighted else AB
        g.w = A
    g.u = lambda i, j: T.or_(g.e(i, j), g.e(j, i))
    g.uk = lambda l, i, j: T.or_(g.ek(l, i, j), g.ek(l, j, i))
    g.uw = lambda i, j: T.ite(T.eq(i, j), g.w(i, i), T.add(g.w(i, j), g.w(j, i)))
    g.uwk = lambda l, i, j: T.ite(T.eq(i, j), A(l, i, i), T.add(A(l, i, j), A(l, j, i)))
    return g


def one(c):
    return T.ite(c, ONE, Z)


def pairs(f):
    """sum over unordered pairs {i, j}, a vertex with itself included."""
    i, j = T.fresh("i"), T.fresh("j")
    return T.bsum(i, T.I(0), N, T.bsum(j, T.I(0), N, T.ite(T.le(i, j), f(i, j), Z)))


def ing(j, q):
    return T.eq(T.app("grp", (j,), "I"), q)


def specs(g):
    """name -> (keyword arguments, shape, value at an index)."""
    ord_, un = (lambda f: dsum(lambda i, j: f(i, j))), pairs
    d = {}
    b2 = lambda c: lambda i, j: c(i, j)
    D = g.directed
    dirs = [("undirected", False, g.u)] + ([("directed", True, g.e)] if D else [])
    for nm, dv, e in dirs:
        d["adjacency_matrix %s" % nm] = ("adjacency_matrix", dict(directed=dv, weighted=False), (N, N), e)
        if g.multi:
            ek = g.ek if dv else g.uk
            d["adjacency_tensor %s" % nm] = ("adjacency_tensor", dict(directed=dv, weighted=False), (L, N, N), ek)
        if g.weighted:
            d["weighted adjacency_matrix %s" % nm] = ("adjacency_matrix", dict(directed=dv, weighted=True), (N, N), g.w if dv else g.uw)
            if g.multi:
                d["weighted adjacency_tensor %s" % nm] = ("adjacency_tensor", dict(directed=dv, weighted=True), (L, N, N), g.wk if dv else g.uwk)
    tot = ord_ if D else un
    e, ek = (g.e, g.ek) if D else (g.u, g.uk)
    d["num_edges"] = ("num_edges", {}, (), lambda: tot(lambda i, j: one(e(i, j))))
    d["degree"] = ("degree", {}, (N,), lambda a: ssum(lambda j: one(g.u(a, j))))
    d["degree_by_group"] = ("degree_by_group", {}, (N, G), lambda a, q: ssum(lambda j: one(T.and_(g.u(a, j), ing(j, q)))))
    if g.weighted:
        w = g.w if D else g.uw
        wk = (g.wk if D else g.uwk) if g.multi else None
        d["total_weight"] = ("total_weight", {}, (), lambda: tot(lambda i, j: w(i, j)))
        d["strength"] = ("strength", {}, (N,), lambda a: ssum(lambda j: g.uw(a, j)))
        d["strength_by_group"] = ("strength_by_group", {}, (N, G), lambda a, q: ssum(lambda j: T.ite(ing(j, q), g.uw(a, j), Z)))
    if D:
        d["out_degree"] = ("out_degree", {}, (N,), lambda a: ssum(lambda j: one(g.e(a, j))))
        d["in_degree"] = ("in_degree", {}, (N,), lambda a: ssum(lambda j: one(g.e(j, a))))
        d["out_degree_by_group"] = ("out_degree_by_group", {}, (N, G), lambda a, q: ssum(lambda j: one(T.and_(g.e(a, j), ing(j, q)))))
        d["in_degree_by_group"] = ("in_degree_by_group", {}, (N, G), lambda a, q: ssum(lambda j: one(T.and_(g.e(j, a), ing(j, q)))))
        if g.weighted:
            d["out_strength"] = ("out_strength", {}, (N,), lambda a: ssum(lambda j: g.w(a, j)))
            d["in_strength"] = ("in_strength", {}, (N,), lambda a: ssum(lambda j: g.w(j, a)))
            d["out_strength_by_group"] = ("out_strength_by_group", {}, (N, G), lambda a, q: ssum(lambda j: T.ite(ing(j, q), g.w(a, j), Z)))
            d["in_strength_by_group"] = ("in_strength_by_group", {}, (N, G), lambda a, q: ssum(lambda j: T.ite(ing(j, q), g.w(j, a), Z)))
    if g.multi:
        d["num_edges_label"] = ("num_edges_label", {}, (L,), lambda l: tot(lambda i, j: one(ek(l, i, j))))
        d["degree_by_label"] = ("degree_by_label", {}, (N, L), lambda a, l: ssum(lambda j: one(g.uk(l, a, j))))
        if g.weighted:
            d["total_weight_label"] = ("total_weight_label", {}, (L,), lambda l: tot(lambda i, j: wk(l, i, j)))
            d["strength_by_label"] = ("strength_by_label", {}, (N, L), lambda a, l: ssum(lambda j: g.uwk(l, a, j)))
        if D:
            d["out_degree_by_label"] = ("out_degree_by_label", {}, (N, L), lambda a, l: ssum(lambda j: one(g.ek(l, a, j))))
            d["in_degree_by_label"] = ("in_degree_by_label", {}, (N, L), lambda a, l: ssum(lambda j: one(g.ek(l, j, a))))
            if g.weighted:
                d["out_strength_by_label"] = ("out_strength_by_label", {}, (N, L), lambda a, l: ssum(lambda j: A(l, a, j)))
                d["in_strength_by_label"] = ("in_strength_by_label", {}, (N, L), lambda a, l: ssum(lambda j: A(l, j, a)))
    return d


def frame(C, g, r, what):
    """The stored graph is unchanged."""
    I = C.I
    o = I.rec(r.st, g.obj)
    hy = list(r.st.pc)
    for k, v in g.fields.items():
        p, w = o.fields.get(k, (FALSE, None))
        ok = p is TRUE and (w is v or (isinstance(w, Ref) and w == v))
        C.check("%s leaves %s unchanged" % (what, k), hy, TRUE if ok else FALSE)
        if ok and isinstance(v, Ref) and r.st.heap[v.addr] is not g.st.heap[v.addr]:
            x, y = I.lib.arr(r.st, v), I.lib.arr(g.st, v)
            ix = [T.fresh("a") for _ in x.shape]
            C.check("%s leaves the entries of %s unchanged" % (what, k), hy + bound(*zip(ix, x.shape)), T.eq(T.toint(x.fn(tuple(ix)).e), T.toint(y.fn(tuple(ix)).e)))


def same_value(C, name, r, v, shape, want):
    I = C.I
    hy = list(r.st.pc)
    toR = lambda e: T.toreal(T.toint(e))
    if shape == ():
        if not isinstance(v, Sc):
            C.unknown(name, "not a number")
            return
        C.sc(name, hy, Sc(toR(v.e), v.pinf, v.ninf, v.nan), Sc(toR(want())))
        return
    if isinstance(v, SpList) or (isinstance(v, Ref) and isinstance(I.rec(r.st, v), Lst)):
        if len(shape) != 3:
            C.unknown(name, "list")
            return
        l = T.fresh("l")
        s = r.st.copy()
        s.pc = s.pc + tuple(bound((l, L)))
        n = I.lib.c_b__len(s, [v], {})
        C.check(name + " [one matrix per label]", hy, T.eq(n.e, L))
        m = I.lib.getitem(s, v, Sc(l))
        if not isinstance(m, Csr):
            C.unknown(name, "list of something else")
            return
        same_value(C, name, Res(None, s, []), m, shape[1:], lambda i, j: want(l, i, j))
        return
    a = SPM.as_arr(v) if isinstance(v, Csr) else I.lib.arr(r.st, v)
    if len(a.shape) != len(shape):
        C.unknown(name, "shape")
        return
    for x, y in zip(a.shape, shape):
        if x is not y:
            C.check(name + " [shape]", hy, T.eq(x, y))
    ix = [T.fresh("a") for _ in shape]
    x, w = a.fn(tuple(ix)), want(*ix)
    hb = hy + bound(*zip(ix, shape))
    if w.sort == "B" and x.sort == "B":
        C.check(name, hb, T.eq(x.e, w), iff=(x.e, w))
    else:
        cases = [T.eq(ix[-1], ix[-2])] if shape[-2:] == (N, N) else ()
        C.sc(name, hb, Sc(toR(x.e), x.pinf, x.ninf, x.nan), Sc(toR(w)), cases=cases)


def opaque(C, g):
    """The contract of adjacency_matrix (its own tasks) instead of its body."""
    I = C.I
    g.w = lambda i, j: T.app("W", (i, j), "R")
    g.e = lambda i, j: T.ne(g.w(i, j), Z)
    P.FACTS["W"] = lambda e: [T.le(Z, e)]
    f = I.find(I.cls(g.cls), "adjacency_matrix")

    def h(I, st, f, env):
        d, w = env["directed"].e, env["weighted"].e
        v = {(TRUE, TRUE): g.w, (FALSE, TRUE): g.uw, (TRUE, FALSE): g.e, (FALSE, FALSE): g.u}.get((d, w))
        if v is None:
            raise Unsupported("adjacency_matrix with this direction")
        return SPM.canonical(N, N, lambda i, j: Sc(v(i, j)))
    I.over[f.qual] = h


def measure(C, back, gname, weighted, which):
    g = make_graph(C, back, gname, weighted)
    C.sane(g.st.pc)
    if g.multi and weighted and back == "sparse" and which.endswith("strength_by_group"):
        opaque(C, g)
    fn, kw, shape, want = specs(g)[which]
    f = C.I.getattr(g.st, g.obj, fn)
    r = C.call(f, [], g.st, {k: Sc(TRUE if v else FALSE) for k, v in kw.items()})
    C.no_raise(which, r)
    if r.ok:
        same_value(C, "%s is the sum over the edges that its name says" % which, r, r.val, shape, want)
        frame(C, g, r, which)


def nb_of(g, ndir, sl):
    e = {None: g.u, "out-in": g.u, "out": g.e, "in": lambda i, j: g.e(j, i)}[ndir]
    return lambda a, j: T.and_(e(a, j), T.or_(T.ne(a, j), TRUE if sl else FALSE))


def nn_check(C, g, r, what, ndir, sl, q):
    I = C.I
    nb = nb_of(g, ndir, sl)
    deg = lambda a: ssum(lambda j: one(nb(a, j)))
    num = lambda a: ssum(lambda j: T.ite(nb(a, j), q(j), Z))
    C.no_raise(what, r, hints=[deg, num])
    if not r.ok:
        return
    a = I.lib.arr(r.st, r.val)
    x = T.fresh("a")
    hy = list(r.st.pc) + bound((x, N))
    C.check(what + " [shape]", hy, T.eq(a.shape[0], N) if len(a.shape) == 1 else FALSE)
    v = a.fn((x,))
    C.sc(what + " is the mean over the neighbours", hy + [T.ne(deg(x), Z)], v, Sc(T.div(num(x), deg(x))), hints=[num(x), deg(x)])
    C.sc(what + " is 0 without neighbours", hy + [T.eq(deg(x), Z)], v, Sc(Z), hints=[num(x), deg(x)])
    frame(C, g, r, what)


def nn_property(C, back, gname, weighted, ndir, sl):
    g = make_graph(C, back, gname, weighted)
    I = C.I
    prop = vec(I, g.st, "prop", N)
    C.sane(g.st.pc)
    kw = dict(selfloops=Sc(TRUE if sl else FALSE))
    if ndir:
        kw["ndir"] = ndir
    r = C.call(I.getattr(g.st, g.obj, "average_nn_property"), [prop], g.st, kw)
    nn_check(C, g, r, "average_nn_property", ndir, sl, lambda j: T.app("prop", (j,), "R"))


def nn_degree(C, back, gname, weighted, ndir, ddir, sl):
    """Mean degree of the neighbours; the degree is the one `degree` gives."""
    g = make_graph(C, back, gname, weighted)
    I = C.I
    c = I.cls(g.cls)
    # contracts of the degrees (their own tasks)
    sp_ = specs(g)
    D = {}
    for nm in ("degree", "out_degree", "in_degree"):
        if nm not in sp_:
            continue
        sym = "DEG:" + nm
        define(sym, lambda a, nm=nm: sp_[nm][3](a))
        D[nm] = lambda j, sym=sym: T.app(sym, (j,), "R")

        def h(I, st, f, env, sym=sym):
            return I.alloc(st, Arr((N,), lambda ix: Sc(T.app(sym, (ix[0],), "R"))))
        I.over[I.find(c, nm).qual] = h
    C.sane(g.st.pc)
    kw = dict(selfloops=Sc(TRUE if sl else FALSE))
    if ndir:
        kw["ndir"], kw["ddir"] = ndir, ddir
    r = C.call(I.getattr(g.st, g.obj, "average_nn_degree"), [], g.st, kw)
    q = D[{"out": "out_degree", "in": "in_degree"}.get(ddir, "degree")]
    nn_check(C, g, r, "average_nn_degree", ndir, sl, q)


def setup():
    class Dummy:
        pass
    for back in ("dense", "sparse"):
        for name in CL:
            for weighted in (True, False):
                g = Gr()
                g.directed, g.multi = CL[name]
                g.weighted = weighted
                for f in "e u w ek uk wk uw uwk".split():
                    setattr(g, f, None)
                tag = "%s.%s%s" % ("graphs" if back == "dense" else "sparse.graphs", name, "" if weighted else " (no weights)")
                for which in specs(g):
                    add_task(["C14"], tag + ": " + which, measure, back=back, gname=name, weighted=weighted, which=which)
                for nd in (("out", "in", "out-in") if g.directed else (None,)):
                    for sl in (False, True):
                        kw = dict(back=back, gname=name, weighted=weighted, ndir=nd, sl=sl)
                        add_task(["C14"], tag + ": average_nn_property(%s, selfloops=%s)" % (nd or "", sl), nn_property, **kw)
                        for dd in (("out", "in", "out-in") if g.directed else (None,)):
                            add_task(["C14"], tag + ": average_nn_degree(%s, %s, selfloops=%s)" % (nd or "", dd or "", sl), nn_degree, ddir=dd, **kw)


setup()
