"""C03, C06, C07: sums of link probabilities computed by the public queries."""
from contracts.base import *


@per_class
def num_edges(C, back, cls, kind):
    M = make(C, back, cls, kind)
    C.sane(M.st.pc)
    r = method(C, M, "expected_num_edges")
    C.no_raise("expected_num_edges", r)
    if r.ok:
        C.sc("expected_num_edges is the sum of the link probability over admissible ordered pairs", list(r.st.pc), r.val,
             Sc(dsum(lambda i, j: T.ite(adm(i, j), M.P(i, j), Z))))


@per_class
def num_edges_label(C, back, cls, kind):
    M = make(C, back, cls, kind)
    C.sane(M.st.pc)
    r = method(C, M, "expected_num_edges_label")
    C.no_raise("expected_num_edges_label", r)
    if r.ok:
        arr_is(C, "expected_num_edges_label[k] is the sum of the probabilities of label k over admissible ordered pairs", r, r.val, (L,),
               lambda k: Sc(dsum(lambda i, j: T.ite(adm(i, j), M.pk(i, j, k), Z))))


def union(p, q):
    return T.sub(T.add(p, q), T.mul(p, q))


def degree_specs(P, sl=SL):
    """(out, in, undirected) expected degree of vertex a for link probability P."""
    out = lambda a: ssum(lambda j: T.ite(adm(a, j, sl), P(a, j), Z))
    inn = lambda a: ssum(lambda j: T.ite(adm(a, j, sl), P(j, a), Z))
    und = lambda a: ssum(lambda j: T.ite(T.ne(a, j), union(P(a, j), P(j, a)), T.ite(sl, P(a, a), Z)))
    return out, inn, und


NAMES = (("expected_out_degree", "the probabilities leaving"), ("expected_in_degree", "the probabilities entering"),
         ("expected_degree", "the probabilities of a link in either direction at"))


@per_class
def degrees(C, back, cls, kind, which):
    M = make(C, back, cls, kind)
    C.sane(M.st.pc)
    nm, txt = NAMES[which]
    r = method(C, M, nm)
    C.no_raise(nm, r)
    if r.ok:
        spec = degree_specs(M.P)[which]
        arr_is(C, "%s[a] is the sum of %s a over admissible partners" % (nm, txt), r, r.val, (N,), lambda a: Sc(spec(a)))


@per_class
def degrees_label(C, back, cls, kind, which):
    M = make(C, back, cls, kind)
    C.sane(M.st.pc)
    nm, txt = NAMES[which]
    nm += "_by_label"
    C.I.key_bound = N
    r = method(C, M, nm)
    C.no_raise(nm, r)
    if r.ok:
        def want(a, k):
            return Sc(degree_specs(lambda i, j: M.pk(i, j, k))[which](a))
        arr_is(C, "%s[a, k] is the sum of %s a for label k over admissible partners" % (nm, txt), r, r.val, (N, L), want)


@per_class
def fit_fun(C, back, cls, kind):
    M = make(C, back, cls, kind)
    C.sane(M.st.pc)
    I = C.I
    if kind == "single":
        d = I.alloc(M.st, Arr((T.I(1),), lambda ix: Sc(T.var("delta", "R"))))
        did = T.app("vec1", (T.app("num", (T.var("delta", "R"),), "U"),), "U")
    else:
        d = I.alloc(M.st, Arr((T.I(1),), lambda ix: Sc(T.var("delta", "R"))))
        did = T.app("vec1", (T.app("num", (T.var("delta", "R"),), "U"),), "U")
    r = method(C, M, "density_fit_fun", d)
    C.no_raise("density_fit_fun", r)
    if not r.ok:
        return
    if not (isinstance(r.val, tuple) and len(r.val) == 2):
        C.unknown("density_fit_fun", "result is not a pair")
        return

    def PJ(i, j, part):
        a = M.P(i, j).args[1:]
        a = (did,) + tuple(a[1:])
        n = len(M.jac_sig) if hasattr(M, "jac_sig") else 3
        return T.app("PJ" + part, a[:n], "R")
    f = C.I.find(C.I.cls(cls), "p_jac_ij")
    M.jac_sig = f.node.args.args
    for part, v, txt in ((".f", r.val[0], "the sum of the link probabilities"), (".j", r.val[1], "the sum of their derivatives")):
        C.sc("density_fit_fun returns %s over admissible ordered pairs at the given parameter" % txt, list(r.st.pc), v,
             Sc(dsum(lambda i, j: T.ite(adm(i, j), PJ(i, j, part), Z))))


def setup():
    for back in ("dense", "sparse"):
        for cls, kind in CLASSES[back]:
            kw = dict(back=back, cls=cls, kind=kind)
            add_task(["C06"], cls + ".expected_num_edges", num_edges, **kw)
            for w, (nm, _) in enumerate(NAMES):
                add_task(["C07"], cls + "." + nm, degrees, which=w, **kw)
            add_task(["C03"], cls + ".density_fit_fun", fit_fun, **kw)
            if kind == "multi":
                add_task(["C06"], cls + ".expected_num_edges_label", num_edges_label, **kw)
                for w, (nm, _) in enumerate(NAMES):
                    add_task(["C07"], cls + "." + nm + "_by_label", degrees_label, which=w, **kw)


setup()
