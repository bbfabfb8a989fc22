"""Compressed matrices: assumed contracts of scipy.sparse (see trusted.py).

A matrix is a pair of functions mem(major, minor) (stored entry) and
val(major, minor); reading a row gives a sparse vector."""
import ast
from . import terms as T
from .terms import TRUE, FALSE
from .values import *
from .lib import DType, I_int, B
from . import prover as P


def row(c, i):
    return SpVec(c.name, c.nmin, lambda k: c.mem(i, k), lambda k: c.val(i, k), key=(i,))


def row_slice(c, lo, hi):
    """c[lo:hi] of a row-compressed matrix."""
    r = Csr(c.name, T.sub(hi, lo), c.nmin, lambda i, k: c.mem(T.add(lo, i), k), lambda i, k: c.val(T.add(lo, i), k), c.fmt)
    r.zero_outside = getattr(c, "zero_outside", False)
    rk = getattr(c, "rk", None) or (lambda i: i)
    r.rk = lambda i: rk(T.add(lo, i))
    return r


class ColVec:
    """c[:, k] of a column-compressed matrix: one stored sequence."""

    def __init__(self, c, k):
        self.c, self.k = c, k
        memo = c.__dict__.setdefault("cols", {})
        if k not in memo:
            memo[k] = row(c, k)         # the parts of one column belong together
        self.vec = memo[k]

    def subst(self, m):
        i, j = T.fresh("i"), T.fresh("j")
        x = self.c.val(i, j)
        dep = set(m) & (self.c.mem(i, j).fv | (x.e if isinstance(x, Sc) else x).fv | self.c.nmaj.fv | self.c.nmin.fv)
        return ColVec(self.c.subst(m) if dep else self.c, T.subst(self.k, m))


def rows(c):
    s = SpList(c.nmaj, lambda e: row(c, e).pair())
    s.csr = c
    return s


def flip(c):
    nm = c.name[:-2] if c.name.endswith("^T") else c.name + "^T"
    r = Csr(nm, c.nmin, c.nmaj, lambda i, k: c.mem(k, i), lambda i, k: c.val(k, i), "csc" if c.fmt == "csr" else "csr")
    r.zero_outside = getattr(c, "zero_outside", False)
    return r


def shape(c):
    s = (Sc(c.nmaj), Sc(c.nmin))
    return s if c.fmt == "csr" else s[::-1]


def transpose(c):
    """The transposed matrix, in the other format (same stored sequences)."""
    r = Csr(c.name + "'", c.nmaj, c.nmin, c.mem, c.val, "csc" if c.fmt == "csr" else "csr")
    r.zero_outside = getattr(c, "zero_outside", False)
    return r


def nonzero(v):
    return v.e if v.sort == "B" else T.ne(v.e, T.num(0, v.sort))


def canonical(n, m, f):
    """Matrix with value f(row, column) that stores exactly its non-zeros."""
    r = Csr("spm!%d" % new_addr(), n, m, lambda i, k: nonzero(f(i, k)), f, "csr")
    r.zero_outside = True
    return r


def to_fmt(c, fmt):
    return c if c.fmt == fmt else flip(c)


def from_dense(I, st, v, fmt="csr"):
    a = I.lib.arr(st, v)
    if len(a.shape) != 2:
        raise Unsupported("sparse matrix from this array")
    nm = "csr!%d" % new_addr()

    def mem(i, k):
        x = a.fn((i, k))
        return T.ne(T.toreal(x.e), T.R(0)) if x.sort != "B" else x.e
    c = Csr(nm, a.shape[0], a.shape[1], mem, lambda i, k: Sc(T.toreal(a.fn((i, k)).e)), "csr")
    return to_fmt(c, fmt)


def raw(I, st, c, flag=FALSE):
    """c as a matrix that may store an entry in parts, or its indices unsorted
    (until sum_duplicates): only its shape can be used."""
    r = Csr(c.name, c.nmaj, c.nmin, c.mem, c.val, c.fmt)
    r.zero_outside = getattr(c, "zero_outside", False)
    r.flag = I.alloc(st, Arr((), lambda ix: Sc(flag), "b"))
    return r


def is_canonical(I, st, c):
    f = getattr(c, "flag", None)
    return TRUE if f is None else I.lib.arr(st, f).fn(()).e


def need(I, st, c):
    f = is_canonical(I, st, c)
    if f is not TRUE and not I.known(st, f):
        raise Unsupported("entries of a matrix that may store them in parts")


P.FACTS["nnz"] = lambda e: [T.le(T.I(1), e)]


def by_cases(x, y):
    """x * y, where x is a choice between numbers."""
    if x.op == "ite":
        return T.ite(x.args[0], by_cases(x.args[1], y), by_cases(x.args[2], y))
    return y if T.isnum(x, 1) else T.R(0) if T.isnum(x, 0) else T.mul(x, y)


def product(I, st, a, b):
    """Matrix product of two sparse matrices."""
    if not isinstance(b, Csr):
        raise Unsupported("product of a sparse matrix with something else")
    need(I, st, b)
    (n, m), (m2, q) = [[x.e for x in shape(c)] for c in (a, b)]
    if m is not m2:
        I.oblige(st, "operands of a product match", T.eq(m, m2))
    num = lambda v: T.ite(v.e, T.R(1), T.R(0)) if v.sort == "B" else T.toreal(v.e)

    def f(i, k):
        j = T.fresh("j")
        u, v = num(cell(a, i, j)), num(cell(b, j, k))
        within = T.and_(T.le(T.I(0), j), T.lt(j, m))
        u, v = [x.args[1] if x.op == "ite" and x.args[0] is within else x for x in (u, v)]
        return Sc(T.bsum(j, T.I(0), m, by_cases(v, u) if v.op == "ite" else by_cases(u, v)))
    return canonical(n, q, f)


class Lil:
    """Row-list matrix: a dense table, sparse only in how it is stored."""

    def __init__(self, ref):
        self.ref = ref


class Dok:
    """Dictionary-of-keys matrix record."""

    def __init__(self, n, m, d):
        self.n, self.m, self.d = n, m, d


def cell(c, i, k):
    """Value of entry (row i, column k), 0 when not stored."""
    if c.fmt != "csr":
        i, k = k, i
    v = c.val(i, k)
    v = v if isinstance(v, Sc) else Sc(v)
    m = c.mem(i, k)
    if getattr(c, "zero_outside", False):
        return v
    return Sc(T.ite(m, v.e, T.num(0, v.sort)) if v.sort != "B" else T.and_(m, v.e))


def as_arr(c):
    n, m = (x.e for x in shape(c))
    return Arr((n, m), lambda ix: cell(c, *ix), "f")


def install(I):
    L = I.lib

    def dok(I, st, a, k):
        n, m = (I.lib.sc(x).e for x in a[0])
        return I.alloc(st, Dok(n, m, Dct(lambda x: T.R(0), lambda x: FALSE, 2)))
    for suf in ("array", "matrix"):
        L.extra_call["scipy.sparse.dok_" + suf] = dok

    def dok_attr(st, obj, name):
        r = I.rec(st, obj)
        if not isinstance(r, Dok):
            return None
        if name in ("_update", "update"):
            def upd(I, s, a, k):
                d = I.rec(s, a[0])
                r = I.rec(s, obj)
                if not isinstance(d, Dct):
                    raise Unsupported("dok update")
                if d.conc == {}:
                    return None
                if d.conc is not None or (r.d.pres((T.fresh("i"), T.fresh("j"))) is not FALSE):
                    raise Unsupported("dok update")
                i, j = T.fresh("i"), T.fresh("j")
                s.heap[obj.addr] = Dok(r.n, r.m, d)
                return None
            return Builtin(name, upd)
        if name in ("tocsr", "tocsc"):
            def conv_(I, s, a, k):
                r = I.rec(s, obj)
                c = Csr("dok!%d" % new_addr(), r.n, r.m, lambda i, j: r.d.pres((i, j)), lambda i, j: Sc(r.d.fn((i, j))), "csr")
                c.zero_outside = True       # absent keys hold 0
                return to_fmt(c, name[2:])
            return Builtin(name, conv_)
        if name == "shape":
            return (Sc(r.n), Sc(r.m))
        return None
    L.extra_attr.append(dok_attr)

    def attr(st, obj, name):
        if isinstance(obj, ColVec):
            if name in ("indices", "data"):
                return SpPart(obj.vec, "lbl" if name == "indices" else "val")
            if name == "shape":
                return (Sc(obj.c.nmin), Sc(T.I(1)))
        if isinstance(obj, Csr):
            if name not in ("shape", "ndim", "sum_duplicates", "todense", "toarray"):
                need(I, st, obj)
            if name == "sum_duplicates":
                def dup(I, s, a, k):
                    if getattr(obj, "flag", None) is not None:
                        s.heap[obj.flag.addr] = Arr((), lambda ix: Sc(TRUE), "b")
                return Builtin(name, dup)
            if name in ("indptr", "indices", "data"):
                return CsrPart(obj, name)
            if name == "shape":
                return shape(obj)
            if name == "ndim":
                return Sc(T.I(2))
            if name in ("tocsc", "tocsr"):
                return Builtin(name, lambda I, s, a, k: to_fmt(obj, name[2:]))
            if name == "asformat":
                return Builtin(name, lambda I, s, a, k: to_fmt(obj, a[0]))
            if name == "copy":
                return Builtin(name, lambda I, s, a, k: obj)
            if name in ("todense", "toarray"):
                def dense(I, s, a, k):
                    c = to_fmt(obj, "csr")

                    def fn(ix):
                        v = c.val(*ix)
                        v = v if isinstance(v, Sc) else Sc(v)
                        m = c.mem(*ix)
                        return Sc(T.ite(m, v.e, T.num(0, v.sort)) if v.sort != "B" else T.and_(m, v.e))
                    return I.alloc(s, Arr((c.nmaj, c.nmin), fn, "f"))
                return Builtin(name, dense)
            if name == "T":
                return transpose(obj)
            if name == "transpose":
                return Builtin(name, lambda I, s, a, k: transpose(obj))
            if name == "dtype":
                i, j = T.fresh("i"), T.fresh("j")
                return DType({"B": "b", "I": "i"}.get(cell(obj, i, j).sort, "f"))
            if name == "nnz":
                i, j, p, q = T.fresh("i"), T.fresh("j"), T.fresh("i"), T.fresh("j")
                cnt = T.bsum(i, T.I(0), obj.nmaj, T.bsum(j, T.I(0), obj.nmin, T.ite(obj.mem(i, j), T.I(1), T.I(0))))
                # a number of stored entries is 0 exactly when none is stored
                some = T.ex(p, T.I(0), obj.nmaj, T.ex(q, T.I(0), obj.nmin, obj.mem(p, q)))
                if getattr(obj, "counted", False):
                    return Sc(T.ite(some, T.app("nnz", (T.I(new_addr()),), "I"), T.I(0)))
                return Sc(T.bsum(i, T.I(0), obj.nmaj, T.bsum(j, T.I(0), obj.nmin, T.ite(obj.mem(i, j), T.I(1), T.I(0)))))
            if name == "diagonal":
                def diag(I, s, a, k):
                    if a or k:
                        raise Unsupported("diagonal of another order")
                    n, m = (x.e for x in shape(obj))
                    I.oblige(s, "square matrix", T.eq(n, m))
                    return I.alloc(s, Arr((n,), lambda ix: cell(obj, ix[0], ix[0]), "f"))
                return Builtin(name, diag)
            if name in ("dot", "__matmul__"):
                return Builtin(name, lambda I, s, a, k: product(I, s, obj, a[0]))
            if name == "sum":
                return Builtin(name, lambda I, s, a, k: I.lib.arr_method(s, I.alloc(s, as_arr(obj)), "sum", a, k))
        if isinstance(obj, (SpPart, CsrPart)) and name == "dtype":
            return DType("f" if obj.part in ("val", "data") else "i")
        return None

    def conv(fmt):
        def f(I, st, a, k):
            v = a[0]
            if isinstance(v, tuple) and v and v[0] == "csx":
                c = v[1]
                sh = k.get("shape") or (a[1] if len(a) > 1 else None)
                if sh is not None:
                    st_sh = shape(c) if fmt == "csr" else shape(c)[::-1]
                    for x, y in zip(st_sh, sh):
                        I.oblige(st, "shape of the compressed matrix", T.eq(x.e, y.e))
                return Csr(c.name, c.nmaj, c.nmin, c.mem, c.val, fmt)
            if isinstance(v, Csr):
                cp = k.get("copy", False)
                if getattr(v, "flag", None) is not None:
                    if v.fmt != fmt:
                        raise Unsupported("conversion of a matrix that may store entries in parts")
                    return raw(I, st, v, is_canonical(I, st, v)) if cp is True or cp == Sc(TRUE) or I.truth(cp, st) is TRUE else v
                return to_fmt(v, fmt)
            k.get("copy")
            if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], tuple) and len(v[1]) == 2:
                return coo(I, st, v[0], v[1][0], v[1][1], k.get("shape") or (a[1] if len(a) > 1 else None), fmt)
            r = I.rec(st, v)
            if isinstance(r, Arr) or isinstance(v, View):
                return from_dense(I, st, v, fmt)
            raise Unsupported("sparse matrix from %r" % (v,))
        return f

    def arith(st, what, args):
        for x in args:
            if isinstance(x, Csr):
                need(I, st, x)
        if what == "compare":
            op, a, b = args
            if isinstance(a, CsrPart) and a.part == "data" and isinstance(b, Sc):
                return CsrPart(a.csr, "map", lambda r, k: B(L.cmp_sc(op, I.lib.sc(a.csr.val(r, k)), b)))
            if isinstance(a, Csr) and isinstance(b, Sc) and op is ast.NotEq and T.isnum(b.e, 0) and b.finite:
                n, m = (x.e for x in shape(a))
                return canonical(n, m, lambda i, k: Sc(nonzero(cell(a, i, k))))
            if isinstance(a, Csr) and isinstance(b, Sc) and op is ast.Gt and T.isnum(b.e, 0) and b.finite:
                n, m = (x.e for x in shape(a))

                def pos(i, k):
                    v = cell(a, i, k)
                    if v.sort == "B":
                        return v
                    e = v.e
                    if e.op == "ite" and T.isnum(e.args[2], 0):
                        return Sc(T.and_(e.args[0], T.lt(T.num(0, v.sort), e.args[1])))
                    return Sc(T.lt(T.num(0, v.sort), e))
                return canonical(n, m, pos)
            if isinstance(a, Csr) and isinstance(b, Csr) and op is ast.NotEq:
                (n, m), (n2, m2) = [[x.e for x in shape(c)] for c in (a, b)]
                for x, y in ((n, n2), (m, m2)):
                    if x is not y:
                        I.oblige(st, "operands have the same shape", T.eq(x, y))
                i, k = T.fresh("i"), T.fresh("k")
                if not all(cell(c, i, k).sort == "B" for c in (a, b)):
                    raise Unsupported("comparison of sparse matrices")
                r = canonical(n, m, lambda i, k: Sc(T.or_(T.and_(cell(a, i, k).e, T.not_(cell(b, i, k).e)), T.and_(T.not_(cell(a, i, k).e), cell(b, i, k).e))))
                r.counted = True
                return r
            return None
        if what == "binop":
            op, a, b = args
            if isinstance(a, Csr) and isinstance(b, Csr) and op in (ast.Add, ast.Sub):
                (n, m), (n2, m2) = [[x.e for x in shape(c)] for c in (a, b)]
                for x, y in ((n, n2), (m, m2)):
                    if x is not y:
                        I.oblige(st, "operands have the same shape", T.eq(x, y))

                def f(i, k):
                    x, y = cell(a, i, k), cell(b, i, k)
                    if x.sort == "B" and y.sort == "B":
                        if op is ast.Sub:
                            raise Unsupported("difference of truth values")
                        return Sc(T.or_(x.e, y.e))
                    return L.binop(st, op, x, y)
                return canonical(n, m, f)
            return None
        if what == "get":
            b, ix = args
            full = lambda x: isinstance(x, slice) and x.start is None and x.stop is None and x.step is None
            if isinstance(b, Csr) and isinstance(ix, tuple) and len(ix) == 2 and full(ix[0]) and isinstance(ix[1], Sc) and b.fmt == "csc":
                return ColVec(b, L.norm_index(st, ix[1], b.nmaj))
            if isinstance(b, Csr) and isinstance(ix, slice) and ix.step is None and isinstance(ix.start, Sc) and isinstance(ix.stop, Sc) and b.fmt == "csr":
                lo, hi = ix.start.e, ix.stop.e
                I.oblige(st, "slice within the rows", T.and_(T.le(T.I(0), lo), T.le(lo, hi), T.le(hi, b.nmaj)))
                return row_slice(b, lo, hi)
            return None
        if what == "set":
            b, ix, v = args
            if isinstance(b, Lil):
                L.setitem(st, b.ref, ix, v)
                return True
        return None
    L.extra_item.append(arith)

    def lil(I, st, a, k):
        if k:
            raise Unsupported("lil_array")
        return Lil(L.c_zeros(st, [a[0]], {}))

    def spdiags(I, st, a, k):
        if len(a) != 2 or set(k) - {"m", "n"} or I_int(a[1]) != 0:
            raise Unsupported("spdiags")
        d = L.arr(st, a[0])
        m, n = k.get("m"), k.get("n")
        if n is None and isinstance(m, tuple):
            m, n = m
        if m is None or n is None or len(d.shape) != 1:
            raise Unsupported("spdiags")
        if d.shape[0] is not m.e:
            I.oblige(st, "one diagonal entry per row", T.eq(d.shape[0], m.e))
        return canonical(m.e, n.e, lambda i, j: Sc(T.ite(T.eq(i, j), T.toint(d.fn((i,)).e), T.num(0, T.toint(d.fn((i,)).e).sort))))
    for suf in ("array", "matrix"):
        L.extra_call["scipy.sparse.lil_" + suf] = lil
    L.extra_call["scipy.sparse.spdiags"] = spdiags

    def lil_attr(st, obj, name):
        if isinstance(obj, Lil):
            if name == "T":
                return Lil(L.attr(st, obj.ref, "T"))
            if name in ("tocsr", "tocsc"):
                return Builtin(name, lambda I, s, a, k: from_dense(I, s, obj.ref, name[2:]))
            if name == "shape":
                return L.attr(st, obj.ref, "shape")
        return None
    L.extra_attr.append(lil_attr)

    for fmt in ("csr", "csc"):
        for suf in ("array", "matrix"):
            L.extra_call["scipy.sparse.%s_%s" % (fmt, suf)] = conv(fmt)
    L.extra_call["scipy.sparse.coo_array"] = conv("csr")
    L.extra_attr.append(attr)

    def isinst(st, v, what):
        if what == "sparse":
            return TRUE if isinstance(v, Csr) else FALSE
        return None
    L.isinst_hooks.append(isinst)


def coo(I, st, vals, rows_, cols_, sh, fmt):
    """csr_array((vals, (rows, cols))): duplicates add up."""
    from .lib import zip_segs, seg_pick
    segs = []
    n, m = (x.e for x in sh)
    vtab = None
    plain = [I.rec(st, v) for v in (rows_, cols_)]
    if all(isinstance(r, Arr) and len(r.shape) == 1 and not (isinstance(r.meta, tuple) and r.meta[0] == "segs") for r in plain):
        # two arrays of coordinates: entry t lies at (rows[t], cols[t])
        len_ = plain[0].shape[0]
        if plain[1].shape[0] is not len_:
            I.oblige(st, "as many rows as columns", T.eq(len_, plain[1].shape[0]))
        k = T.fresh("k")
        els = [r.fn((k,)) for r in plain]
        if not all(isinstance(x, Sc) and x.sort == "I" for x in els):
            raise Unsupported("coordinates of a sparse matrix")
        q = T.fresh("k")
        for r, hi in zip(plain, (n, m)):
            x = r.fn((q,)).e
            I.oblige(st, "coordinates within the shape", T.all_(q, T.I(0), len_, T.and_(T.le(T.I(0), x), T.lt(x, hi))))
        rv = I.rec(st, vals)
        if not isinstance(rv, Arr) or len(rv.shape) != 1:
            raise Unsupported("entries of a sparse matrix")
        I.oblige(st, "as many values as coordinates", T.eq(rv.shape[0], len_))
        ve = rv.fn((k,))
        if not (isinstance(ve, Sc) and ve.finite):
            raise Unsupported("entries of a sparse matrix")
        ve = Sc(T.ite(ve.e, T.R(1), T.R(0)) if ve.sort == "B" else T.toreal(ve.e))
        tab = [("for", k, T.I(0), len_, TRUE, [("els", els)])]
        vtab = [("for", k, T.I(0), len_, TRUE, [("els", els + [ve])])]
        segs = [None]
    else:
        for v in (vals, rows_, cols_):
            segs.append(seq(I, st, v))
        tab = zip_segs([segs[1], segs[2]])
    if segs[0] is not None:
        vtab = zip_segs([segs[1], segs[2], segs[0]])

    c = Csr("coo!%d" % new_addr(), n, m, None, None, "csr")
    c.count = lambda i, k: seg_pick(tab, (i, k), lambda els: T.I(1))
    if vtab is not None:
        c.total = lambda i, k: seg_pick(vtab, (i, k), lambda els: T.toreal(els[2].e))
        c.vtab = vtab
    else:
        c.total, c.vtab = None, None
    c.tab = tab
    c.mem = lambda i, k: T.lt(T.I(0), c.count(i, k))
    c.val = lambda i, k: Sc(c.total(i, k)) if c.total else Sc(T.toreal(c.count(i, k)))
    if segs == [None]:
        c.zero_outside = True
    # entries outside the shape are an error of scipy
    return to_fmt(c, fmt)


def seq(I, st, v):
    """Segments of a list, or None for an array of ones of matching length."""
    r = I.rec(st, v)
    if isinstance(r, Lst):
        return r.segs
    if isinstance(r, Arr):
        if isinstance(r.meta, tuple) and r.meta[0] == "segs":
            return r.meta[1]
        k = T.fresh("k")
        x = r.fn((k,))
        if isinstance(x, Sc) and (x.e is TRUE or (x.e.op == "num" and x.e.args[0] == 1)):
            return None
    raise Unsupported("entries of a sparse matrix")
