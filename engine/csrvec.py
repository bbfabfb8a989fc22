"""Sequences aligned with the stored entries of a compressed matrix.

An array of length nnz that is only addressed by indptr[i]:indptr[i + 1] (or by
the positions in between) is a function of (major index, minor index) on the
stored entries; it is held as a two-dimensional table whose values at entries
that are not stored are never read."""
import ast
from . import terms as T
from .terms import TRUE, FALSE
from .values import *
from .lib import Ptr


class CsrArr:
    """Array of length nnz."""

    def __init__(self, ref, csr):
        self.ref, self.csr = ref, csr


class Pos:
    """Position of a stored entry: in its row (rel) or in the whole sequence."""

    def __init__(self, csr, row, k, rel):
        self.csr, self.row, self.k, self.rel = csr, row, k, rel


def row_len(r):
    k = T.fresh("k")
    return T.bsum(k, T.I(0), r.csr.nmin, T.ite(r.csr.mem(r.row, k), T.I(1), T.I(0)))


def row_sum(L, st, r):
    k = T.fresh("k")
    v = r.at(k)
    if not v.finite:
        raise Unsupported("sum of possibly infinite entries")
    e = T.toint(v.e)
    return Sc(T.bsum(k, T.I(0), r.csr.nmin, T.ite(r.csr.mem(r.row, k), e, T.num(0, e.sort))))


def span(csr, ix):
    """Major index i of the slice indptr[i]:indptr[i + 1]."""
    if isinstance(ix, slice) and ix.step is None and isinstance(ix.start, Ptr) and isinstance(ix.stop, Ptr) \
            and ix.start.csr is csr and ix.stop.csr is csr and T.sub(ix.stop.i, ix.start.i) is T.I(1):
        return ix.start.i
    return None


def install(I):
    L = I.lib
    L.nnz_of, L.len_of = {}, {}

    def total(c):
        e = T.app("nnz!" + c.name, (), "I")
        L.nnz_of[e] = c
        return Sc(e)

    def item(st, what, a):
        if what == "len":
            v, = a
            if isinstance(v, CsrRow):
                e = row_len(v)
                L.len_of[e] = v
                return Sc(e)
            if isinstance(v, CsrArr) or (isinstance(v, CsrPart) and v.part != "indptr"):
                return total(v.csr)
        elif what == "get":
            b, ix = a
            if isinstance(b, CsrRow) and isinstance(ix, Pos) and ix.rel and ix.csr is b.csr and ix.row is b.row:
                return b.at(ix.k)
            if isinstance(b, CsrPart) and b.part != "indptr" and isinstance(ix, Pos) and not ix.rel and ix.csr is b.csr:
                return CsrRow(b.csr, ix.row, b.part, b.fn).at(ix.k)
            if isinstance(b, CsrArr):
                t = I.rec(st, b.ref)
                i = span(b.csr, ix)
                if i is not None:
                    return CsrRow(b.csr, i, "map", lambda r, k: t.fn((r, k)))
                if isinstance(ix, Pos) and not ix.rel and ix.csr is b.csr:
                    return t.fn((ix.row, ix.k))
                raise Unsupported("position in a stored sequence")
        elif what == "set":
            b, ix, v = a
            if not isinstance(b, CsrArr):
                return None
            t = I.rec(st, b.ref)
            i = span(b.csr, ix)
            if i is not None:
                if isinstance(v, CsrRow) and v.csr is b.csr and v.row is i:
                    new = v.at
                elif isinstance(v, Sc):
                    new = lambda k: v
                else:
                    raise Unsupported("store to a stored sequence")
                here = lambda ix: T.eq(ix[0], i)
            elif isinstance(ix, Pos) and not ix.rel and ix.csr is b.csr and isinstance(v, Sc):
                new = lambda k: v
                here = lambda x: T.and_(T.eq(x[0], ix.row), T.eq(x[1], ix.k))
            else:
                raise Unsupported("position in a stored sequence")

            def fn(ix, t=t, new=new, here=here):
                n, o, h = new(ix[1]), t.fn(ix), here(ix)
                if t.kind == "i" and n.sort == "R":
                    raise Unsupported("number truncated to an integer type")
                e = T.toreal(T.toint(n.e)) if o.sort == "R" else n.e
                pick = lambda p, q: T.or_(T.and_(h, p), T.and_(T.not_(h), q))
                return Sc(T.ite(h, e, o.e), pick(n.pinf, o.pinf), pick(n.ninf, o.ninf), pick(n.nan, o.nan))
            st.heap[b.ref.addr] = Arr(t.shape, fn, t.kind)
            return True
        elif what == "binop":
            op, x, y = a
            rows = [v for v in (x, y) if isinstance(v, CsrRow)]
            if not rows:
                return None
            r = rows[0]
            if any(v.csr is not r.csr or v.row is not r.row for v in rows):
                raise Unsupported("operation on different rows")
            at = lambda v, i, k: CsrRow(v.csr, i, v.part, v.fn).at(k) if isinstance(v, CsrRow) else v
            if not all(isinstance(v, (Sc, CsrRow)) for v in (x, y)):
                raise Unsupported("operation on a row")

            def fn(i, k):
                p, q = at(x, i, k), at(y, i, k)
                if op is ast.Div:
                    # the entries are the stored ones
                    s = st.assume(r.csr.mem(i, k))
                    return L.div(s, p, q, array=True)
                if p.sort == "B" and q.sort == "B":
                    raise Unsupported("arithmetic of truth values")
                return L.binop(st, op, p, q)
            return CsrRow(r.csr, r.row, "map", fn)
        elif what == "iter":
            v, = a
            if isinstance(v, tuple) and v and v[0] == "posrange":
                return v[1]
        return None
    L.extra_item.insert(0, item)

    def rng(I, st, a, k):
        if len(a) == 1 and isinstance(a[0], Sc) and a[0].e in L.len_of:
            r = L.len_of[a[0].e]
            return Iter(T.I(0), r.csr.nmin, lambda k: Pos(r.csr, r.row, k, True), lambda k: r.csr.mem(r.row, k))
        if len(a) == 2 and isinstance(a[0], Ptr) and isinstance(a[1], Ptr):
            c = a[0].csr
            i = span(c, slice(a[0], a[1]))
            if i is not None:
                return Iter(T.I(0), c.nmin, lambda k: Pos(c, i, k, False), lambda k: c.mem(i, k))
        return NotImplemented
    L.extra_call["b.range"] = rng

    def zeros(I, st, a, k):
        if len(a) and isinstance(a[0], Sc) and a[0].e in L.nnz_of:
            c = L.nnz_of[a[0].e]
            kind = k.get("dtype")
            kind = getattr(kind, "kind", None) or "f"
            r = L.c_zeros(st, [(Sc(c.nmaj), Sc(c.nmin))], dict(k))
            return CsrArr(r, c)
        return NotImplemented
    L.extra_call["numpy.zeros"] = zeros

    def total_of(I, st, a, k):
        if len(a) == 1 and not k and isinstance(a[0], CsrRow):
            return row_sum(L, st, a[0])
        return NotImplemented
    L.extra_call["numpy.sum"] = total_of

    def attr(st, obj, name):
        if isinstance(obj, CsrRow):
            if name == "sum":
                return Builtin(name, lambda I, s, a, k: row_sum(L, s, obj))
            if name in ("size", "shape"):
                n = item(st, "len", (obj,))
                return n if name == "size" else (n,)
        if isinstance(obj, (CsrArr, CsrPart)) and name in ("size", "shape"):
            n = L.c_b__len(st, [obj], {})
            return n if name == "size" else (n,)
        return None
    L.extra_attr.append(attr)
