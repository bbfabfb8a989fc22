"""Symbolic model instances and the contracts of the link functions that the
API-level proofs use in place of the bodies (the bodies are proved against the
same contracts in kernels.py)."""
from engine import terms as T
from engine import sparse as SPM
from engine import prover as P
from engine.contract import *
from engine.terms import TRUE, FALSE

Z, ONE = T.R(0), T.R(1)
N, L, SL = T.var("N"), T.var("L"), T.var("sl", "B")
KSTAR = T.var("k*")


def ident(C, st, v):
    """Term identifying the value handed to a link function."""
    I = C.I
    if v is None:
        return T.app("none", (), "U")
    if isinstance(v, Op):
        return v.e
    if isinstance(v, Sc):
        if not v.finite:
            raise Unsupported("identity of a possibly infinite number")
        return T.app("num", (T.toreal(v.e),), "U")
    if isinstance(v, SpPart):
        return T.app("%s:%s" % (v.part, v.vec.name), v.vec.key, "U")
    if isinstance(v, CsrRow):
        part = {"indices": "lbl", "data": "val"}[v.part]
        rk = getattr(v.csr, "rk", None)
        return T.app("%s:%s" % (part, v.csr.name), ((rk(v.row) if rk else v.row),), "U")
    r = I.rec(st, v)
    if isinstance(r, Arr) or isinstance(v, View):
        a = I.lib.arr(st, v)
        if len(a.shape) != 1:
            raise Unsupported("identity of a matrix")
        if a.shape[0] is T.I(1):
            return T.app("vec1", (ident(C, st, a.fn((T.I(0),))),), "U")
        x = a.fn((KSTAR,))
        e = x.e
        if e.op != "app" or (isinstance(x, Sc) and not x.finite):
            raise Unsupported("identity of a computed array")
        nm, args = e.args[0], e.args[1:]
        pos = [n for n, t in enumerate(args) if t is KSTAR]
        if len(pos) != 1 or any(KSTAR in t.fv for n, t in enumerate(args) if n != pos[0]):
            raise Unsupported("identity of a computed array")
        full = C.full.get((nm, pos[0]))
        if full is not a.shape[0]:
            raise Unsupported("identity of a part of an array")
        return T.app("row%d:%s" % (pos[0], nm), args[:pos[0]] + args[pos[0] + 1:], "U")
    if isinstance(v, tuple):
        return T.app("tup%d" % len(v), tuple(ident(C, st, x) for x in v), "U")
    raise Unsupported("identity of %r" % (v,))


def link(C, name, sort="R", facts=None):
    """Contract handler: an unknown function of exactly the arguments."""
    def h(I, st, f, env):
        args = [env[a.arg] for a in f.node.args.args]
        ids = tuple(ident(C, st, a) for a in args[:-1]) + ((T.app("none", (), "U"),) if getattr(C, "nodyad", False) else (ident(C, st, args[-1]),))
        r = zero_split(name, ids)
        if r is not None:
            return Sc(r)
        e = T.app(name, ids, sort)
        r = Sc(e)
        if facts:
            r = facts(e)
        return r
    return h


def zero_split(name, ids):
    """Single-label probability of a factor that is 0 on some paths: the
    contract proved for C01 gives probability 0 there."""
    if name != "PK":
        return None
    for n in (1, 2):
        x = ids[n]
        if x.op == "app" and x.args[0] == "num":
            v = x.args[1]
            if T.isnum(v, 0):
                return Z
            if v.op == "ite" and (T.isnum(v.args[2], 0) or T.isnum(v.args[1], 0)):
                def put(y):
                    j = ids[:n] + (T.app("num", (y,), "U"),) + ids[n + 1:]
                    r = zero_split(name, j)
                    return T.app(name, j, "R") if r is None else r
                return T.ite(v.args[0], put(v.args[1]), put(v.args[2]))
    return None


class Model:
    pass


BACK = {"dense": {}, "sparse": {}, "spark": {}}
CLASSES = {
    "dense": [("models.FitnessModel", "single"), ("models.ScaleInvariantModel", "single"),
              ("models.MultiFitnessModel", "multi"), ("models.MultiInvariantModel", "multi")],
    "sparse": [("sparse.models.fitness.FitnessModel", "single"), ("sparse.models.invariant.ScaleInvariantModel", "single"),
               ("sparse.models.fitness.MultiFitnessModel", "multi"), ("sparse.models.invariant.MultiInvariantModel", "multi")],
    "spark": [("spark.models.FitnessModel", "single"), ("spark.models.ScaleInvariantModel", "single"),
              ("spark.models.MultiFitnessModel", "multi"), ("spark.models.MultiInvariantModel", "multi")],
}
LINKS = {"p_ij": "P", "logp": "LP", "log1mp": "LQ", "p_ijk": "PK", "logp_ijk": "LPK", "log1mp_ijk": "LQK"}


def _prob(e):
    return [T.le(Z, e), T.le(e, ONE)]


# C01, proved for every link function in kernels.py
P.FACTS["P"] = P.FACTS["PK"] = _prob


def over_links(C, cls, extra=()):
    I = C.I
    c = I.cls(cls)
    for nm, sym in LINKS.items():
        f = I.find(c, nm)
        if f is None:
            continue
        if sym[0] == "P":
            I.over[f.qual] = link(C, sym)
        else:
            # log of a number in [0,1]: finite or minus infinity
            def mk(sym):
                def fl(e):
                    return Sc(e, ninf=T.app(sym + ".ninf", e.args[1:], "B"))
                return link(C, sym, facts=fl)
            I.over[f.qual] = mk(sym)
    for nm, sym in (("p_jac_ij", "PJ"), ("p_jac_ijk", "PJK")):
        f = I.find(c, nm)
        if f is None:
            continue

        def mk(sym):
            def h(I, st, f, env):
                ids = tuple(ident(C, st, env[a.arg]) for a in f.node.args.args)
                return (Sc(T.app(sym + ".f", ids, "R")), Sc(T.app(sym + ".j", ids, "R")))
            return h
        I.over[f.qual] = mk(sym)


def over_dyad(C, cls):
    I = C.I
    f = I.find(I.cls(cls), "prop_dyad")

    def h(I, st, f, env):
        i, j = (I.lib.sc(v).e for v in list(env.values())[:2])
        return Op(T.app("DY", (i, j), "U"))
    I.over[f.qual] = h


def dyad(i, j):
    return T.app("DY", (i, j), "U")


def make(C, back, cls, kind, st=None, real=False):
    """Symbolic fitted instance of any size with no cached results."""
    I = C.I
    st = st or St()
    M = Model()
    M.back, M.cls, M.kind = back, cls, kind
    C.full = {("xo", 1): L, ("xi", 1): L, ("d", 0): L, ("xo", 0): N, ("xi", 0): N}
    SPM.install(I)
    if back == "spark":
        # the link functions of this backend ignore their last argument (C01,
        # C02: their contracts, proved for every value of it)
        C.nodyad = True
    over_links(C, cls)
    if back != "spark":
        over_dyad(C, cls)
    st.pc = st.pc + (T.le(T.I(1), N), T.le(T.I(1), L))
    fields = dict(num_vertices=Sc(N), selfloops=Sc(SL))
    # the elements of a fitness array are opaque unless they are used as numbers
    if real:
        el = lambda nm, ix: Sc(T.app(nm, ix, "R"))
        eid = lambda nm, ix: T.app("num", (T.app(nm, ix, "R"),), "U")
        ek = "f"
    else:
        el = lambda nm, ix: Op(T.app(nm, ix, "U"))
        eid = lambda nm, ix: T.app(nm, ix, "U")
        ek = "U"
    if kind == "single":
        M.xo = lambda i: eid("xo", (i,))
        M.xi = lambda i: eid("xi", (i,))
        fields["prop_out"] = I.alloc(st, Arr((N,), lambda ix: el("xo", ix), ek))
        fields["prop_in"] = I.alloc(st, Arr((N,), lambda ix: el("xi", ix), ek))
        M.param = I.alloc(st, Arr((T.I(1),), lambda ix: Sc(T.var("d", "R"))))
        M.pid = T.app("vec1", (T.app("num", (T.var("d", "R"),), "U"),), "U")
        M.P = lambda i, j, nm="P": T.app(nm, (M.pid, M.xo(i), M.xi(j), dyad(i, j)), "R")
    else:
        fields["num_labels"] = Sc(L)
        M.param = I.alloc(st, Arr((L,), lambda ix: Sc(T.app("d", ix, "R"))))
        M.pid = T.app("row0:d", (), "U")
        M.dk = lambda k: T.app("num", (T.app("d", (k,), "R"),), "U")
        if back == "dense":
            fields["prop_out"] = I.alloc(st, Arr((N, L), lambda ix: el("xo", ix), ek))
            fields["prop_in"] = I.alloc(st, Arr((N, L), lambda ix: el("xi", ix), ek))
            M.P = lambda i, j, nm="P": T.app(nm, (M.pid, T.app("row1:xo", (i,), "U"), T.app("row1:xi", (j,), "U"), dyad(i, j)), "R")
            M.xv = lambda i, k: eid("xo", (i, k))
            M.yv = lambda i, k: eid("xi", (i, k))
            M.so = M.si = lambda i, k: TRUE
        else:
            M.so = lambda i, k: T.app("so", (i, k), "B")
            M.si = lambda i, k: T.app("si", (i, k), "B")
            xo = Csr("xo", N, L, M.so, lambda i, k: Sc(T.app("xo", (i, k), "R")), "csr")
            xi = Csr("xi", N, L, M.si, lambda i, k: Sc(T.app("xi", (i, k), "R")), "csr")
            fields["prop_out"], fields["prop_in"] = SPM.rows(xo), SPM.rows(xi)
            M.csr = (xo, xi)
            tup = lambda n, i: T.app("tup2", (T.app("lbl:" + n, (i,), "U"), T.app("val:" + n, (i,), "U")), "U")
            M.P = lambda i, j, nm="P": T.app(nm, (M.pid, tup("xo", i), tup("xi", j), dyad(i, j)), "R")
            M.xv = lambda i, k: T.app("num", (T.app("xo", (i, k), "R"),), "U")
            M.yv = lambda i, k: T.app("num", (T.app("xi", (i, k), "R"),), "U")
            cq = I.cls(cls)
            f = I.find(cq, "csx_to_tuple_list")
            if f is not None:
                I.over[f.qual] = csx_list(C)
            f = I.find(cq, "tuple_list_to_csx")
            if f is not None:
                I.over[f.qual] = list_csx(C)
        # probability of a pair for one label; an unstored entry is a zero
        # factor, for which C01 proves probability 0
        M.has = lambda i, j, k: T.and_(M.so(i, k), M.si(j, k))
        M.PK = lambda i, j, k, nm="PK": T.app(nm, (M.dk(k), M.xv(i, k), M.yv(j, k), dyad(i, j)), "R")
        M.pk = lambda i, j, k: T.ite(M.has(i, j, k), M.PK(i, j, k), Z)
    if back == "spark":
        spark_fields(C, M, st, fields, kind)
    fields["param"] = M.param
    M.obj = I.alloc(st, Inst(I.cls(cls), {k: (TRUE, v) for k, v in fields.items()}))
    M.st = st
    M.fields = fields
    return M


NB = T.var("NB")


def spark_fields(C, M, st, fields, kind):
    """Class invariant established by the constructors (contracts/spark.py): the
    collections hold the blocks of a partition of the vertices into intervals, with
    the factors of the block, for all pairs (p_iter_rdd) or lower-triangular
    pairs (p_sym_rdd) of blocks, and the columns of every label (layers_rdd)."""
    from engine import rdd
    I = C.I
    rdd.install(I)
    I.blocks = B = rdd.Blocks(N, NB)
    st.pc = st.pc + tuple(B.facts)
    b, c = T.fresh("b"), T.fresh("c")
    M.bc = (b, c)
    none = T.app("none", (), "U")
    if kind == "single":
        M.P = lambda i, j, nm="P": T.app(nm, (M.pid, M.xo(i), M.xi(j), none), "R")
        src = [I.rec(st, fields[n]) for n in ("prop_out", "prop_in")]
        cut = lambda a, t: I.alloc(st, Arr((T.sub(B.hi(t), B.lo(t)),), lambda ix: a.fn((T.add(B.lo(t), ix[0]),)), a.kind))
    else:
        xo, xi = M.csr
        fields["prop_out"], fields["prop_in"] = xo, xi
        src = [xo, xi]
        cut = lambda a, t: SPM.row_slice(a, B.lo(t), B.hi(t))
        pr = lambda n, i: (T.app("lbl:" + n, (i,), "U"), T.app("val:" + n, (i,), "U"))
        M.P = lambda i, j, nm="P": T.app(nm, (M.pid,) + pr("xo", i) + pr("xi", j) + (none,), "R")
        M.PK = lambda i, j, k, nm="PK": T.app(nm, (M.dk(k), M.xv(i, k), M.yv(j, k), none), "R")
        k = T.fresh("k")
        fields["layers_rdd"] = rdd.RDD([("for", k, T.I(0), L, TRUE, (("el", (Sc(k), SPM.ColVec(SPM.flip(xo), k), SPM.ColVec(SPM.flip(xi), k))),))])
    ends = lambda t: (Sc(B.lo(t)), Sc(B.hi(t)))
    two = lambda hi, el: rdd.RDD([("for", b, T.I(0), NB, TRUE, (("for", c, T.I(0), hi, TRUE, (("el", el),)),))])
    fields["p_iter_rdd"] = two(NB, ((ends(b), ends(c)), cut(src[0], b), cut(src[1], c)))
    fields["p_sym_rdd"] = two(T.add(b, T.I(1)), ((ends(b), ends(c)), (cut(src[0], b), cut(src[0], c)), (cut(src[1], c), cut(src[1], b))))


def csx_list(C):
    def h(I, st, f, env):
        ip, ix, dt = list(env.values())[:3]
        if not (all(isinstance(x, CsrPart) for x in (ip, ix, dt)) and ip.csr is ix.csr is dt.csr
                and (ip.part, ix.part, dt.part) == ("indptr", "indices", "data")):
            raise Unsupported("csx_to_tuple_list of something else")
        C.assumed.append("csx_to_tuple_list: entry i is the (indices, values) pair of row i (bounded check only)")
        return SPM.rows(ip.csr)
    return h


def list_csx(C):
    def h(I, st, f, env):
        v = list(env.values())[0]
        if not isinstance(v, SpList):
            raise Unsupported("tuple_list_to_csx of something else")
        C.assumed.append("tuple_list_to_csx: inverse of csx_to_tuple_list (bounded check only)")
        return ("csx", v.csr)
    return h


def bound(*ixs):
    """0 <= i < n for pairs (i, n)."""
    return [T.and_(T.le(T.I(0), i), T.lt(i, n)) for i, n in ixs]


def adm(i, j, sl=SL):
    return T.or_(T.ne(i, j), sl)


def dsum(f, n=N, m=None):
    """sum over i, j."""
    i, j = T.fresh("i"), T.fresh("j")
    return T.bsum(i, T.I(0), n, T.bsum(j, T.I(0), m or n, f(i, j)))


def ssum(f, n=N):
    j = T.fresh("j")
    return T.bsum(j, T.I(0), n, f(j))


def method(C, M, name, *args, **kw):
    f = C.I.getattr(M.st, M.obj, name)
    r = C.call(f, args, M.st, kw)
    return r


def arr_is(C, name, r, v, shape, want, extra=()):
    """v is an array of that shape and want(index) elementwise."""
    I = C.I
    try:
        a = SPM.as_arr(v) if isinstance(v, Csr) else I.lib.arr(r.st, v)
    except Unsupported as e:
        C.unknown(name, e)
        return
    if len(a.shape) != len(shape):
        C.unknown(name, "shape")
        return
    hy = list(r.st.pc)
    for x, y in zip(a.shape, shape):
        if x is not y:
            C.check(name + " [shape]", hy, T.eq(x, y))
    ix = [T.fresh("a") for _ in shape]
    hy = hy + bound(*zip(ix, shape)) + list(extra)
    C.sc(name, hy, a.fn(tuple(ix)), want(*ix))


def define(name, f):
    """Contract symbol name(args) = f(args), unfolded only where it is needed."""
    from engine import evalt
    evalt.DEFS[name] = f
    P.FACTS[name] = lambda e: [T.eq(e, f(*e.args[1:]))]


REF = {"models.ScaleInvariantModel": "models.FitnessModel", "models.MultiInvariantModel": "models.MultiFitnessModel",
       "sparse.models.invariant.ScaleInvariantModel": "sparse.models.fitness.FitnessModel",
       "sparse.models.invariant.MultiInvariantModel": "sparse.models.fitness.MultiFitnessModel",
       "spark.models.ScaleInvariantModel": "spark.models.FitnessModel", "spark.models.MultiInvariantModel": "spark.models.MultiFitnessModel"}
LINKFNS = set(LINKS) | {"p_jac_ij", "p_jac_ijk"}


def inherited(C, cls):
    """True when cls runs exactly the functions of its reference class apart
    from the link functions (which the proofs replace by their contracts)."""
    ref = REF.get(cls)
    if ref is None:
        return False
    I = C.I
    a, b = I.cls(cls), I.cls(ref)
    names = {n for c in list(I.mro(a)) + list(I.mro(b)) for n in c.methods}
    for n in sorted(names - LINKFNS):
        if I.find(a, n) is not I.find(b, n):
            return False
    C.out.append(dict(name="%s: every function except the link functions is the one of %s, where the obligations are discharged" % (C.name, ref),
                      status="proved", backend="method resolution", t=0.0, why=None, cex=None))
    return True


def per_class(f):
    def g(C, back, cls, kind, **kw):
        if inherited(C, cls):
            return
        f(C, back=back, cls=cls, kind=kind, **kw)
    return g
