"""C08: expected neighbour averages."""
from contracts.base import *
from contracts.sums import degree_specs, union, NAMES

DIRS = ("out", "in", "out-in")


def weight(P_, ndir):
    if ndir == "out":
        return P_
    if ndir == "in":
        return lambda i, j: P_(j, i)
    return lambda i, j: T.ite(T.ne(i, j), union(P_(i, j), P_(j, i)), P_(i, i))


def avnn_spec(P_, ndir, sl, q, dg=None):
    """Probability-weighted mean of q over the neighbours of a."""
    w = weight(P_, ndir)
    deg = dg or degree_specs(P_, sl)[DIRS.index(ndir)]

    def num(a):
        return ssum(lambda j: T.ite(adm(a, j, sl), T.mul(w(a, j), q(j)), Z))
    return lambda a: T.ite(T.eq(deg(a), Z), Z, T.div(num(a), deg(a))), num, deg


def check_avnn(C, name, r, v, P_, ndir, sl, q, dg):
    I = C.I
    try:
        arr = I.lib.arr(r.st, v)
    except Unsupported as e:
        C.unknown(name, e)
        return
    if len(arr.shape) != 1:
        C.unknown(name, "shape")
        return
    C.check(name + " [shape]", list(r.st.pc), T.eq(arr.shape[0], N))
    a = T.fresh("a")
    hy = list(r.st.pc) + bound((a, N))
    spec, num, deg = avnn_spec(P_, ndir, sl, q, dg)
    got = arr.fn((a,))
    C.sc(name + " [zero expected degree]", hy + [T.eq(deg(a), Z)], got, Sc(Z), hints=[num(a)])
    C.sc(name, hy + [T.ne(deg(a), Z)], got, Sc(T.div(num(a), deg(a))), hints=[num(a)])


def over_degrees(C, M):
    """Contracts of the expected degrees (proved for C07) as opaque symbols."""
    I = C.I
    M.deg = []
    for n, (nm, _) in enumerate(NAMES):
        sym = "DEG:%s:%d" % (M.cls, n)
        f = I.find(I.cls(M.cls), nm)
        if f is None:
            continue
        define(sym, lambda a, s, n=n: degree_specs(M.P, s)[n](a))
        M.deg.append(lambda a, s, sym=sym: T.app(sym, (a, s), "R"))

        def h(I, st, f, env, sym=sym):
            s = I.getattr(st, M.obj, "selfloops").e
            return I.alloc(st, Arr((N,), lambda ix: Sc(T.app(sym, (ix[0], s), "R"))))
        I.over[f.qual] = h


def arg(sl):
    if sl is None:
        return None, SL
    b = TRUE if sl else FALSE
    return Sc(b), b


@per_class
def av_prop(C, back, cls, kind, ndir, sl):
    M = make(C, back, cls, kind)
    C.sane(M.st.pc)
    over_degrees(C, M)
    q = lambda j: T.app("q", (j,), "R")
    v = vec(C.I, M.st, "q", N)
    sv, se = arg(sl)
    r = method(C, M, "expected_av_nn_property", v, ndir=ndir, selfloops=sv)
    dg = lambda a: M.deg[DIRS.index(ndir)](a, se)
    _, num, deg = avnn_spec(M.P, ndir, se, q, dg)
    C.no_raise("expected_av_nn_property", r, hints=[num])
    if r.ok:
        check_avnn(C, "expected_av_nn_property[a] is the probability-weighted mean of the property over the %s-neighbours of a" % ndir,
                   r, r.val, M.P, ndir, se, q, dg)


def over_av_prop(C, M):
    """Contract of expected_av_nn_property (av_prop), for the ensemble's own
    choice of self-loops: the ensemble is left unchanged."""
    I = C.I
    f = I.find(I.cls(M.cls), "expected_av_nn_property")

    def h(I, st, f, env):
        a = I.lib.arr(st, env["prop"])
        nd = env["ndir"]
        own = I.getattr(st, M.obj, "selfloops").e
        if len(a.shape) != 1 or nd not in DIRS:
            raise Unsupported("expected_av_nn_property of something else")
        if env["selfloops"] is not None and not I.known(st, T.eq(I.lib.sc(env["selfloops"]).e, own)):
            raise Unsupported("expected_av_nn_property with other self-loops than the ensemble's")
        I.oblige(st, "precondition of expected_av_nn_property", T.eq(a.shape[0], N))
        dg = lambda x: M.deg[DIRS.index(nd)](x, own)
        _, num, _ = avnn_spec(M.P, nd, own, lambda j: T.toreal(a.fn((j,)).e), dg)
        return I.alloc(st, Arr((N,), lambda ix: Sc(T.ite(T.eq(dg(ix[0]), Z), Z, T.div(num(ix[0]), dg(ix[0]))))))
    I.over[f.qual] = h


@per_class
def av_deg(C, back, cls, kind, ndir, ddir, sl):
    M = make(C, back, cls, kind)
    C.sane(M.st.pc)
    over_degrees(C, M)
    if back == "spark":
        over_av_prop(C, M)
    sv, se = arg(sl)
    q = lambda a: M.deg[DIRS.index(ddir)](a, se)
    r = method(C, M, "expected_av_nn_degree", ndir=ndir, ddir=ddir, selfloops=sv)
    dg = lambda a: M.deg[DIRS.index(ndir)](a, se)
    _, num, deg = avnn_spec(M.P, ndir, se, q, dg)
    C.no_raise("expected_av_nn_degree", r, hints=[num])
    if r.ok:
        check_avnn(C, "expected_av_nn_degree[a] is the probability-weighted mean of the expected %s-degree over the %s-neighbours of a" % (ddir, ndir),
                   r, r.val, M.P, ndir, se, q, dg)


def setup():
    for back in ("dense", "sparse"):
        for cls, kind in CLASSES[back]:
            for ndir in DIRS:
                for sl in (None, False, True):
                    kw = dict(back=back, cls=cls, kind=kind, ndir=ndir, sl=sl)
                    add_task(["C08"], "%s.expected_av_nn_property(%s, selfloops=%s)" % (cls, ndir, sl), av_prop, **kw)
                    for ddir in DIRS:
                        add_task(["C08"], "%s.expected_av_nn_degree(%s, %s, selfloops=%s)" % (cls, ddir, ndir, sl), av_deg, ddir=ddir, **kw)


setup()
