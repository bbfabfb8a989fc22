"""C18: row normalisation, one propagation step, and the recursions of PageRank
and trophic depth.

W(i, j) > 0 is the weight of a stored entry of row i; S(i) its row total.
PageRank and trophic depth are described by the sequence of their iterates
(declared recursion): X(0) is the start vector and X(n + 1) is one step applied
to X(n)."""
from contracts.base import *
from engine import csrvec, evalt
from contracts.graphs import Gr, ssum

V = {"real": ("W", "R"), "integer": ("WI", "I"), "boolean": ("WB", "B")}


def stored(i, k):
    return T.app("st", (i, k), "B")


def matrix(C, kind, fmt="csr"):
    nm, srt = V[kind]
    M = T.var("M")
    val = (lambda i, k: Sc(T.app(nm, (i, k), srt))) if kind != "boolean" else (lambda i, k: Sc(TRUE))
    return Csr("adj", N, N, stored, val, fmt)


def w(kind, i, k):
    """Weight of a stored entry as a real number."""
    nm, srt = V[kind]
    return T.ite(stored(i, k), ONE if kind == "boolean" else T.toreal(T.app(nm, (i, k), srt)), Z)


def itotal(i):
    return ssum(lambda k: T.ite(stored(i, k), T.app("WI", (i, k), "I"), T.I(0)))


def positive(kind, i):
    return T.lt(T.I(0), itotal(i)) if kind == "integer" else T.lt(Z, total(kind, i))


def total(kind, i):
    if kind == "integer":
        return T.toreal(itotal(i))
    return ssum(lambda k: w(kind, i, k))


def filled(i):
    k = T.fresh("k")
    return T.ex(k, T.I(0), N, stored(i, k))


def normalise(C, kind):
    I = C.I
    SPM.install(I)
    csrvec.install(I)
    st = St()
    c = matrix(C, kind)
    i = T.fresh("i")
    st.pc = (T.le(T.I(1), N), T.all_(i, T.I(0), N, T.implies(filled(i), positive(kind, i))))
    C.sane(st.pc)
    r = C.call("lib.normalise_rows", [CsrPart(c, "indptr"), CsrPart(c, "indices"), CsrPart(c, "data")], st)
    C.no_raise("normalise_rows", r)
    if not r.ok:
        return
    if not isinstance(r.val, csrvec.CsrArr):
        C.unknown("result has one number per stored entry", "other kind of value")
        return
    a, b = T.fresh("a"), T.fresh("b")
    hy = list(r.st.pc) + bound((a, N), (b, N)) + [stored(a, b), positive(kind, a)]
    got = I.rec(r.st, r.val.ref).fn((a, b))
    C.sc("each stored entry becomes its share of the total of its row", hy, got, Sc(T.div(w(kind, a, b), total(kind, a))))


def propagate(C, absorb):
    I = C.I
    SPM.install(I)
    csrvec.install(I)
    st = St()
    c = matrix(C, "real")
    st.pc = (T.le(T.I(1), N),)
    C.sane(st.pc)
    meas = vec(I, st, "m", N)
    ab = {"default": None, "absorbing": Sc(TRUE), "spreading": Sc(FALSE)}[absorb]
    r = C.call("lib.propagate_measure", [CsrPart(c, "indptr"), CsrPart(c, "indices"), CsrPart(c, "data"), meas], st, {} if ab is None else {"absorb": ab})
    C.no_raise("propagate_measure", r)
    if not r.ok:
        return
    out = I.lib.arr(r.st, r.val)
    C.check("one value per vertex", list(r.st.pc), T.eq(out.shape[0], N) if len(out.shape) == 1 else FALSE)
    x = T.fresh("x")
    m = lambda i: T.app("m", (i,), "R")
    want = ssum(lambda i: T.ite(filled(i), T.mul(w("real", i, x), m(i)), Z if absorb == "absorbing" else T.div(m(i), T.toreal(N))))
    C.sc("a vertex receives the measure of its predecessors along the links%s" % ("" if absorb == "absorbing" else " and an equal part of every dead end"),
         list(r.st.pc) + bound((x, N)), out.fn((x,)), Sc(want))
    mm = I.lib.arr(r.st, meas)
    C.sc("the measure itself is unchanged", list(r.st.pc) + bound((x, N)), mm.fn((x,)), Sc(m(x)))


class Rec:
    """Declared recursion: X(n, x), the n-th iterate at vertex x."""

    def __init__(self, C, name, first, step):
        self.C, self.name, self.n, self.first, self.rule = C, name, N, first, step
        self.done = False

    def at(self, n, x):
        return self.first(x) if T.isnum(n, 0) else T.app(self.name, (n, x), "R")

    def next(self, n, x):
        return self.rule(lambda y: self.at(n, y), x)

    def step(self, I, st, n, x, e):
        """The array with value e at x is the iterate after X(n)."""
        goal = T.eq(T.toreal(e), self.next(n, x))
        hy = [h for h in list(I.facts) + list(st.pc) if h is not TRUE]
        if not any(T.has_app(h, {self.name}) for h in (goal,)) or evalt.falsify(hy, goal, budget=1.0) is not None:
            return False
        try:
            ok = P.prove(hy, goal)[0] == "proved" or P.prove_cases(hy, goal)[0] == "proved"
        except P.Unknown:
            ok = False
        if ok and not self.done:
            self.done = True
            self.C.check("the next iterate is one step of the recursion", hy, goal)
        return ok


def absv(e):
    return T.ite(T.le(Z, e), e, T.neg(e))


def small(q, n, tol):
    """The step from iterate n changes no vertex by tol or more."""
    x = T.fresh("x")
    return T.all_(x, T.I(0), N, T.lt(absv(T.sub(q.at(T.add(n, T.I(1)), x), q.at(n, x))), tol))


def at_step(hyps, k):
    """Instances at k of the facts about every earlier step."""
    out = []
    for h in hyps:
        if h.op == "not" and h.args[0].op == "ex" and T.has_app(h, {"PR", "TD"}):
            v, lo, hi, b = T.open_(h.args[0], "n")
            out.append(T.implies(T.and_(T.le(lo, k), T.lt(k, hi)), T.not_(T.subst(b, {v: k}))))
    return out


def iteration(C, q, name, outs, r, mi, tol):
    """Every result is the first iterate that changed by less than tol, or the
    one at the limit."""
    I = C.I
    if not outs:
        C.unknown("result", "no outcome")
    for st, v in outs:
        a = I.lib.arr(st, v)
        hy = list(st.pc)
        C.check("%s has one value per vertex" % name, hy, T.eq(a.shape[0], N) if len(a.shape) == 1 else FALSE)
        x, k = T.fresh("x"), T.fresh("n")
        g = a.fn((x,))
        Ks = sorted({u for h in hy for u in h.fv if u.op == "var" and u.args[0].startswith("K!")}, key=str)
        if not Ks:
            C.sc("%s at the limit is the iterate of that number" % name, hy + bound((x, N)), g, Sc(q.at(mi, x)))
            C.check("at the limit no earlier step was below the tolerance", hy + bound((k, mi)) + at_step(hy, k), T.not_(small(q, k, tol)))
        else:
            K = Ks[-1]
            C.check("the number of steps is within the limit", hy, T.and_(T.le(T.I(0), K), T.lt(K, mi)))
            C.sc("%s is the iterate after the last step" % name, hy + bound((x, N)), g, Sc(q.at(T.add(K, T.I(1)), x)))
            C.check("the last step changed every vertex by less than the tolerance", hy, small(q, K, tol))
            C.check("no earlier step did", hy + bound((k, K)) + at_step(hy, k), T.not_(small(q, k, tol)))


def graph(C, cls, kind, wt):
    """Graph object, link indicator and matrix entry that the measures use.
    adjacency_matrix is used by its contract (proved under C14): the links, or
    the summed weights of the links, in the asked direction."""
    I = C.I
    SPM.install(I)
    csrvec.install(I)
    st = St()
    q = "sparse.graphs." + cls
    P.FACTS["E1"] = P.FACTS["E0"] = lambda e: [T.le(Z, e)]

    def entry(d, w):
        nm = ("E%d" if w else "B%d") % d
        val = (lambda i, j: T.app(nm, (i, j), "R")) if w else (lambda i, j: T.app(nm, (i, j), "B"))
        return val

    def adjacency(I, st, f, env):
        d, w = I.truth(env["directed"], st), I.truth(env["weighted"], st)
        if any(x not in (TRUE, FALSE) for x in (d, w)):
            raise Unsupported("orientation of the matrix")
        v = entry(d is TRUE or "Di" not in cls, w is TRUE and kind)
        if w is TRUE and kind:
            r = Csr("adj", N, N, lambda i, j: T.ne(v(i, j), Z), lambda i, j: Sc(v(i, j)), "csr")
        else:
            r = Csr("adj", N, N, v, lambda i, j: Sc(v(i, j)), "csr")
        r.zero_outside = True
        return r
    for c in ("Graph", "DiGraph", "MultiGraph", "MultiDiGraph"):
        I.over["sparse.graphs.%s.adjacency_matrix" % c] = adjacency
    st.pc = (T.le(T.I(1), N),)
    g = Gr()
    g.st = st
    g.obj = I.alloc(st, Inst(I.cls(q), dict(num_vertices=(TRUE, Sc(N)), weighted=(TRUE, Sc(TRUE if kind else FALSE)))))
    v = entry(True, wt and kind)
    if wt and kind:
        return g, lambda i, j: T.ne(v(i, j), Z), v
    return g, v, lambda i, j: T.ite(v(i, j), ONE, Z)


def share(link, m):
    """Transition probability: share of the row total, or 1/N for a dead end."""
    def dead(i):
        k = T.fresh("k")
        return T.not_(T.ex(k, T.I(0), N, link(i, k)))
    tot = lambda i: ssum(lambda k: m(i, k))
    return dead, tot, lambda i, x: T.ite(dead(i), T.inv(T.toreal(N)), T.div(m(i, x), tot(i)))


def damped(al, p):
    return lambda X, x: T.add(T.mul(al, ssum(lambda i: T.mul(X(i), p(i, x)))), T.div(T.sub(ONE, al), T.toreal(N)))


def pagerank(C, cls, kind, wt, steps=None):
    I = C.I
    g, link, m = graph(C, cls, kind, wt)
    al, tol, mi = T.var("alpha", "R"), T.var("tol", "R"), T.var("maxit") if steps is None else T.I(steps)
    if steps is None:
        g.st.pc += (T.le(T.I(0), mi),)
    C.sane(g.st.pc)
    dead, tot, p = share(link, m)
    a, b = T.fresh("a"), T.fresh("b")
    C.check("lemma: a row with a link has a positive total", list(g.st.pc) + bound((a, N), (b, N)) + [link(a, b)], T.lt(Z, tot(a)))
    q = Rec(C, "PR", lambda x: T.inv(T.toreal(N)), damped(al, p))
    I.iterates = [q] if steps is None else []
    I.watch["lib.pagerank"] = []
    kw = dict(alpha=Sc(al), max_iter=Sc(mi), tol=Sc(tol), weighted=Sc(TRUE if wt else FALSE))
    r = C.call("lib.pagerank", [g.obj], g.st, kw)
    C.no_raise("pagerank", r)
    if r.ok and steps is None:
        iteration(C, q, "the ranking", I.watch["lib.pagerank"], r, mi, tol)
    elif r.ok:
        unrolled(C, q, "the ranking", I.watch["lib.pagerank"], steps, tol)


def unrolled(C, q, name, outs, steps, tol):
    """A fixed number of steps, executed one after the other."""
    X = [lambda x: q.first(x)]
    for n in range(steps):
        X.append(lambda x, f=X[-1]: q.rule(f, x))
    for st, v in outs:
        a = C.I.lib.arr(st, v)
        hy = list(st.pc)
        C.check("%s has one value per vertex" % name, hy, T.eq(a.shape[0], N) if len(a.shape) == 1 else FALSE)
        x = T.fresh("x")
        C.sc("%s after %d step(s) is that iterate" % (name, steps), hy + bound((x, N)), a.fn((x,)), Sc(X[steps](x)))


def distribution(C):
    """A damped step turns a probability vector into one, for every stochastic p
    (the shares of a row are one: first lemma)."""
    x, i = T.fresh("x"), T.fresh("i")
    e = lambda i, j: T.app("e", (i, j), "R")
    m = lambda i: T.app("m", (i,), "R")
    p = lambda i, j: T.app("p", (i, j), "R")
    X = lambda i: T.app("X", (i,), "R")
    al, nn = T.var("alpha", "R"), T.toreal(N)
    pre = [T.le(T.I(1), N)]
    s = T.var("s", "R")
    inv = T.inv(s)
    C.check("the shares of a row add up to the share of its total", pre + [T.lt(Z, s)], T.eq(ssum(lambda k: T.mul(m(k), inv)), T.mul(inv, ssum(m))))
    C.check("which is one", [T.lt(Z, s)], T.eq(T.mul(inv, s), ONE))
    C.check("equal parts add up to their number of parts", pre, T.eq(ssum(lambda k: T.inv(nn)), T.mul(nn, T.inv(nn))))
    C.check("which is the whole", pre, T.eq(T.mul(nn, T.inv(nn)), ONE))
    C.check("mass is moved, not changed", pre, T.eq(ssum(lambda x: ssum(lambda i: T.mul(X(i), p(i, x)))), ssum(lambda i: T.mul(X(i), ssum(lambda x: p(i, x))))))
    C.check("every vertex keeps its mass", pre + [T.eq(ssum(lambda x: p(i, x)), ONE)], T.eq(T.mul(X(i), ssum(lambda x: p(i, x))), X(i)))
    Y = lambda x: T.app("Y", (x,), "R")
    step = lambda x: T.add(T.mul(al, Y(x)), T.div(T.sub(ONE, al), nn))
    C.check("damping splits the total", pre, T.eq(ssum(step), T.add(T.mul(al, ssum(Y)), T.mul(T.sub(ONE, al), T.mul(nn, T.inv(nn))))))
    y, n1 = T.var("y", "R"), T.var("n1", "R")
    C.check("damping keeps the total", [T.eq(y, ONE), T.eq(n1, ONE)], T.eq(T.add(T.mul(al, y), T.mul(T.sub(ONE, al), n1)), ONE))
    C.check("a step keeps values non-negative", pre + [T.le(Z, al), T.le(al, ONE), T.le(Z, Y(x))], T.le(Z, step(x)))


def trophic(C, cls, kind, steps=None):
    I = C.I
    g, link, m = graph(C, cls, kind, True)
    tol, mi = T.var("tol", "R"), T.var("maxit") if steps is None else T.I(steps)
    if steps is None:
        g.st.pc += (T.le(T.I(0), mi),)
    C.sane(g.st.pc)
    fin = vec(I, g.st, "fin", N)
    F = lambda x: T.app("fin", (x,), "R")
    tot = lambda x: T.add(ssum(lambda j: m(x, j)), F(x))

    def rule(X, x):
        s = ssum(lambda j: T.mul(m(x, j), T.add(X(j), ONE)))
        return T.ite(T.eq(tot(x), Z), s, T.div(T.add(F(x), s), tot(x)))
    q = Rec(C, "TD", F, rule)
    I.iterates = [q] if steps is None else []
    I.watch["lib.trophic_depth"] = []
    r = C.call("lib.trophic_depth", [g.obj, fin], g.st, dict(max_iter=Sc(mi), tol=Sc(tol)))
    C.no_raise("trophic_depth", r)
    if r.ok and steps is None:
        iteration(C, q, "the depth", I.watch["lib.trophic_depth"], r, mi, tol)
    elif r.ok:
        unrolled(C, q, "the depth", I.watch["lib.trophic_depth"], steps, tol)
    if r.ok:
        x = T.fresh("x")
        C.sc("the final demand is unchanged", list(r.st.pc) + bound((x, N)), I.lib.arr(r.st, fin).fn((x,)), Sc(F(x)))


def setup():
    add_task(["C18"], "lib.pagerank: probability vector", distribution)
    for cls in ("Graph", "DiGraph", "MultiGraph", "MultiDiGraph"):
        for kind in (True, False):
            nm = "%s %s" % ("weighted" if kind else "unweighted", cls)
            for wt in (True, False):
                add_task(["C18"], "lib.pagerank(%s, weighted=%s)" % (nm, wt), pagerank, cls=cls, kind=kind, wt=wt)
                for n in (0, 1) if cls[0] != "M" else ():
                    add_task(["C18"], "lib.pagerank(%s, weighted=%s, max_iter=%d)" % (nm, wt, n), pagerank, cls=cls, kind=kind, wt=wt, steps=n)
            add_task(["C18"], "lib.trophic_depth(%s)" % nm, trophic, cls=cls, kind=kind)
            for n in (0, 1) if cls[0] != "M" else ():
                add_task(["C18"], "lib.trophic_depth(%s, max_iter=%d)" % (nm, n), trophic, cls=cls, kind=kind, steps=n)
    for k in V:
        add_task(["C18"], "lib.normalise_rows(%s weights)" % k, normalise, kind=k)
    for a in ("default", "absorbing", "spreading"):
        add_task(["C18"], "lib.propagate_measure(%s)" % a, propagate, absorb=a)


setup()
