"""Semantics of the Python / numpy / scipy operations used by the code under
verification (assumed contracts of the dependencies, see DESIGN.md)."""
import ast
import math
from fractions import Fraction
from . import terms as T
from . import prover as P
from .terms import TRUE, FALSE, E
from .values import *

ZERO, ONE = T.R(0), T.R(1)


def B(c):
    return Sc(c)


class Ptr:
    """indptr[i] of a compressed matrix."""

    def __init__(self, csr, i):
        self.csr, self.i = csr, i


class Flat:
    """ravel() of an array held at a heap address."""

    def __init__(self, base):
        self.base = base


class DctSeq:
    """keys() or values() of a dictionary with integer keys below a bound that
    the contract supplies (the bound is an obligation).  The order is taken to be
    increasing; keys() and values() have the same order in Python."""

    def __init__(self, lib, st, d, what):
        self.d, self.what = d, what
        k = T.fresh("key")
        G = lib.I.key_bound
        lib.I.obl.append(("dictionary keys lie in the range of the groups", tuple(lib.I.hyps(st)) + (d.pres((k,)),),
                          T.and_(T.le(T.I(0), k), T.lt(k, G))))
        if id(d) not in lib.dctkey:
            lib.dctkey[id(d)] = (T.fresh("key"), d)
        self.k = lib.dctkey[id(d)][0]
        self.hi = G

    def seg(self, el=None):
        v = el if el is not None else Sc(self.k) if self.what == "keys" else Sc(self.d.fn((self.k,)))
        return ("for", self.k, T.I(0), self.hi, self.d.pres((self.k,)), (("el", v),))


class Where:
    """Increasing positions at which a boolean vector holds."""

    def __init__(self, mask):
        self.mask = mask


class ColSel:
    """mat[:, positions]."""

    def __init__(self, arr, mask):
        self.arr, self.mask = arr, mask


class DType:
    def __init__(self, name):
        self.name = name


class LIB:
    def __init__(self, I):
        self.dctlen, self.dctkey = {}, {}
        self.I = I
        self.spvec_of = {}
        self.posmap = {}
        self.match = None
        self.handlers = {}
        for n in dir(self):
            if n.startswith("c_"):
                self.handlers[n[2:].replace("__", ".")] = getattr(self, n)
        self.extra_attr = []      # hooks (st, obj, name) -> value or None
        self.extra_call = {}
        self.extra_item = []
        self.isinst_hooks = []

    # ------------------------------------------------------ scalar algebra
    def sc(self, v):
        if isinstance(v, Sc):
            return v
        raise Unsupported("number expected, got %r" % (v,))

    def neg(self, st, v):
        if isinstance(v, Sc):
            e = T.toint(v.e)
            return Sc(T.neg(e), v.ninf, v.pinf, v.nan)
        return self.map1(st, v, lambda x: self.neg(st, x))

    def invert(self, st, v):
        if isinstance(v, Sc):
            if v.sort == "B":
                return Sc(T.not_(v.e))
            raise Unsupported("bitwise not")
        return self.map1(st, v, lambda x: self.invert(st, x), "b")

    def sign(self, x):
        """(positive, negative, zero) conditions of an extended real."""
        e = T.toint(x.e)
        z = T.num(0, e.sort)
        sp = T.not_(x.special)
        return (T.or_(x.pinf, T.and_(sp, T.lt(z, e))), T.or_(x.ninf, T.and_(sp, T.lt(e, z))), T.and_(sp, T.eq(e, z)))

    def add(self, st, a, b):
        if a.sort == "B" and b.sort == "B" and a.finite and b.finite:
            return Sc(T.add(T.toint(a.e), T.toint(b.e)))
        e = T.add(a.e, b.e)
        if a.finite and b.finite:
            return Sc(e)
        nan = T.or_(a.nan, b.nan, T.and_(a.pinf, b.ninf), T.and_(a.ninf, b.pinf))
        nn = T.not_(nan)
        return Sc(T.toreal(e), T.and_(nn, T.or_(a.pinf, b.pinf)), T.and_(nn, T.or_(a.ninf, b.ninf)), nan)

    def mul(self, st, a, b):
        if a.finite and b.finite:
            return Sc(T.mul(T.toint(a.e), T.toint(b.e)))
        ap, an, az = self.sign(a)
        bp, bn, bz = self.sign(b)
        ai, bi = T.or_(a.pinf, a.ninf), T.or_(b.pinf, b.ninf)
        nan = T.or_(a.nan, b.nan, T.and_(ai, bz), T.and_(az, bi))
        nn = T.not_(nan)
        inf = T.or_(ai, bi)
        return Sc(T.toreal(T.mul(T.toint(a.e), T.toint(b.e))),
                  T.and_(nn, inf, T.or_(T.and_(ap, bp), T.and_(an, bn))),
                  T.and_(nn, inf, T.or_(T.and_(ap, bn), T.and_(an, bp))), nan)

    def div(self, st, a, b, array=False):
        bp, bn, bz = self.sign(b)
        ap, an, az = self.sign(a)
        if not array:
            if getattr(self.I, "zero_raises", False):
                if bz is not FALSE and not self.I.known(st, T.not_(bz)):
                    from .interp import Exc, Diverge
                    s2 = st.copy()
                    s2.pc = s2.pc + (bz,)
                    self.I.pend.append(Out("raise", s2, Exc("ZeroDivisionError")))
                    if bz is TRUE:
                        raise Diverge()
                    st.pc = st.pc + (T.not_(bz),)
            else:
                self.I.oblige(st, "division by a non-zero number", T.not_(bz))
            e = T.div(T.toreal(a.e), T.toreal(b.e))
            if a.finite and b.finite:
                return Sc(e)
            bi, ai = T.or_(b.pinf, b.ninf), T.or_(a.pinf, a.ninf)
            nan = T.or_(a.nan, b.nan, T.and_(ai, bi))
            nn = T.not_(nan)
            return Sc(T.ite(bi, ZERO, e), T.and_(nn, ai, T.or_(T.and_(ap, bp), T.and_(an, bn))),
                      T.and_(nn, ai, T.or_(T.and_(ap, bn), T.and_(an, bp))), nan)
        # numpy: IEEE division
        e = T.ite(bz, ZERO, T.div(T.toreal(a.e), T.toreal(b.e)))
        ai, bi = T.or_(a.pinf, a.ninf), T.or_(b.pinf, b.ninf)
        nan = T.or_(a.nan, b.nan, T.and_(ai, bi), T.and_(az, bz))
        nn = T.not_(nan)
        return Sc(T.ite(bi, ZERO, e),
                  T.and_(nn, T.or_(T.and_(bz, ap), T.and_(ai, T.or_(T.and_(ap, bp), T.and_(an, bn))))),
                  T.and_(nn, T.or_(T.and_(bz, an), T.and_(ai, T.or_(T.and_(ap, bn), T.and_(an, bp))))), nan)

    def power(self, st, a, b):
        n = b.e.args[0] if b.e.op == "num" and b.finite else None
        if n is not None and n.denominator == 1 and 0 <= n <= 4:
            r = Sc(T.num(1, "R" if a.sort == "R" else "I"))
            for _ in range(int(n)):
                r = self.mul(st, r, a)
            return r
        if n is not None and n == -1:
            return self.div(st, Sc(ONE), a)
        raise Unsupported("power")

    def binop(self, st, op, a, b):
        if isinstance(a, Sc) and isinstance(b, Sc):
            if op is ast.Add:
                return self.add(st, a, b)
            if op is ast.Sub:
                return self.add(st, a, self.neg(st, b))
            if op is ast.Mult:
                return self.mul(st, a, b)
            if op is ast.Div:
                return self.div(st, a, b)
            if op is ast.Pow:
                return self.power(st, a, b)
            if op in (ast.BitOr, ast.BitAnd):
                if a.sort == "B" and b.sort == "B":
                    return Sc(T.or_(a.e, b.e) if op is ast.BitOr else T.and_(a.e, b.e))
                raise Unsupported("bit operation")
            if op is ast.FloorDiv:
                return self.floordiv(st, a, b)
            if op is ast.Mod:
                q = self.floordiv(st, a, b)
                return Sc(T.sub(a.e, T.mul(q.e, b.e)))
            raise Unsupported("operator %s" % op.__name__)
        if isinstance(a, str) and isinstance(b, str) and op is ast.Add:
            return a + b
        if isinstance(a, str) and op is ast.Mod:
            return a
        if op is ast.Add and isinstance(a, (str,)) or isinstance(b, str):
            return "?"
        ra, rb = self.I.rec(st, a), self.I.rec(st, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and op is ast.Add:
            return a + b
        if op is ast.Mult and isinstance(ra, Lst):
            n = self.sc(b).e
            if n.op == "num":
                return self.I.alloc(st, Lst(ra.segs * int(n.args[0])))
            if len(ra.segs) == 1 and ra.segs[0][0] == "el":
                v = ra.segs[0][1]
                if n in self.dctlen:
                    return self.I.alloc(st, Arr((n,), lambda ix: v, "f" if isinstance(v, Sc) else "o", meta=("rep", self.dctlen[n], v)))
                return self.I.alloc(st, Arr((n,), lambda ix: v, "f" if isinstance(v, Sc) else "o", meta="list"))
        if op is ast.Add and isinstance(ra, Lst) and isinstance(rb, Lst):
            return self.I.alloc(st, Lst(ra.segs + rb.segs))
        if self.isarr(st, a) or self.isarr(st, b):
            return self.arr_bin(st, op, a, b)
        for h in self.extra_item:
            r = h(st, "binop", (op, a, b))
            if r is not None:
                return r
        raise Unsupported("operator on %s, %s" % (type(ra).__name__, type(rb).__name__))

    def floordiv(self, st, a, b):
        n = T.isnum(b.e) and b.e.args[0]
        if a.sort == "I" and b.sort == "I" and a.finite and b.finite:
            self.I.oblige(st, "division by a non-zero number", T.ne(b.e, T.I(0)))
            qn = T.app("floordiv", (a.e, b.e), "I")
            r = T.sub(a.e, T.mul(qn, b.e))
            st.pc = st.pc + (T.implies(T.lt(T.I(0), b.e), T.and_(T.le(T.I(0), r), T.lt(r, b.e))),)
            return Sc(qn)
        raise Unsupported("floor division")

    def isarr(self, st, v):
        r = self.arr(st, v, soft=True)
        return r is not None or isinstance(v, Masked)

    def arr(self, st, v, soft=False):
        """Array record of a value (views are resolved against the heap)."""
        if isinstance(v, View):
            base = self.arr(st, v.base)
            return Arr(v.shape, lambda ix, base=base: base.fn(v.imap(ix)), base.kind)
        r = self.I.rec(st, v)
        if isinstance(r, Arr):
            return r
        if isinstance(r, Lst) and not soft:
            return self.lst_arr(st, r)
        if soft:
            return None
        raise Unsupported("array expected, got %s" % type(r).__name__)

    def lst_arr(self, st, r):
        els = r.segs
        if all(s[0] == "el" for s in els):
            vals = [s[1] for s in els]
            if not vals:
                return Arr((T.I(0),), lambda ix: Sc(ZERO))
            if all(isinstance(v, Sc) for v in vals):
                def fn(ix):
                    i = ix[0]
                    if i.op == "num":
                        return vals[int(i.args[0])]
                    r = vals[-1]
                    for j in range(len(vals) - 2, -1, -1):
                        r = self.I.merge_vals(T.eq(i, T.I(j)), vals[j], r, st, st, st)
                    return r
                kind = "b" if all(v.sort == "B" for v in vals) else ("i" if all(v.sort == "I" for v in vals) else "f")
                return Arr((T.I(len(vals)),), fn, kind)
        if len(els) == 1 and els[0][0] == "for" and els[0][4] is TRUE and len(els[0][5]) == 1 and els[0][5][0][0] == "el":
            _, k, lo, hi, _, ((_, v),) = els[0]
            if isinstance(v, Sc):
                def fn(ix):
                    return sub_sc(v, {k: T.add(lo, ix[0])})
                n = T.sub(hi, lo)
                n = n if T.isnum(lo, 0) else T.ite(T.lt(lo, hi), n, T.I(0))
                return Arr((n,), fn, {"B": "b", "I": "i"}.get(v.sort, "f"))
            if isinstance(v, Arr) and T.isnum(lo, 0) and not any(k in x.fv for x in v.shape):
                return Arr((hi,) + v.shape, lambda ix: sub_value(v.fn(ix[1:]), {k: ix[0]}), v.kind)
        raise Unsupported("list as an array")

    def map1(self, st, v, f, kind=None):
        if isinstance(v, Masked):
            a = v.arr
            return Masked(Arr(a.shape, lambda ix: f(a.fn(ix)), kind or a.kind), v.mask, v.tr)
        a = self.arr(st, v)
        return self.I.alloc(st, Arr(a.shape, lambda ix: f(a.fn(ix)), kind or a.kind))

    def arr_bin(self, st, op, a, b, compare=False):
        def f(x, y):
            if compare:
                return self.compare(st, op, x, y)
            if op is ast.Div:
                return self.div(st, x, y, array=True)
            if isinstance(x, Sc) and isinstance(y, Sc) and x.sort == "B" and y.sort == "B":
                if op is ast.Add:
                    return Sc(T.or_(x.e, y.e))
                if op is ast.Mult:
                    return Sc(T.and_(x.e, y.e))
                if op is ast.Sub:
                    raise Unsupported("difference of truth values")
            return self.binop(st, op, x, y)
        kind = "b" if compare else None
        if isinstance(a, Masked) or isinstance(b, Masked):
            return self.masked_bin(st, f, a, b, kind)
        ra = self.arr(st, a) if not isinstance(a, Sc) else None
        rb = self.arr(st, b) if not isinstance(b, Sc) else None
        if ra is None:
            return self.I.alloc(st, Arr(rb.shape, lambda ix: f(a, rb.fn(ix)), kind or self.rk(op, a, rb)))
        if rb is None:
            return self.I.alloc(st, Arr(ra.shape, lambda ix: f(ra.fn(ix), b), kind or self.rk(op, b, ra)))
        na, nb = len(ra.shape), len(rb.shape)
        n = max(na, nb)
        sh = []
        for d in range(n):
            da = ra.shape[d - (n - na)] if d >= n - na else None
            db = rb.shape[d - (n - nb)] if d >= n - nb else None
            if da is None or (T.isnum(da, 1) and db is not None):
                sh.append((db, da is None, False, da is not None))
            elif db is None or T.isnum(db, 1) and not T.isnum(da, 1):
                sh.append((da, False, db is None, False) if db is None else (da, False, False, False, True))
            else:
                if da is not db:
                    self.I.oblige(st, "operands have the same shape", T.eq(da, db))
                sh.append((da, False, False, False))

        def fn(ix):
            ia = tuple((T.I(0) if (len(s) > 3 and s[3]) else i) for i, s in zip(ix, sh) if not s[1])
            ib = tuple((T.I(0) if len(s) > 4 else i) for i, s in zip(ix, sh) if not s[2])
            return f(ra.fn(ia), rb.fn(ib))
        k = kind or ("f" if op is ast.Div or "f" in (ra.kind, rb.kind) else ra.kind if ra.kind == rb.kind else "f")
        if k == "b" and op in (ast.Add, ast.Sub, ast.Mult):
            k = "b" if op is ast.Mult else k
        return self.I.alloc(st, Arr(tuple(s[0] for s in sh), fn, k))

    def rk(self, op, sc, arr):
        if op is ast.Div or arr.kind == "f" or sc.sort == "R":
            return "f"
        if op in (ast.BitAnd, ast.BitOr) and arr.kind == "b":
            return "b"
        return "i"

    def masked_bin(self, st, f, a, b, kind):
        m = a if isinstance(a, Masked) else b
        other = b if m is a else a
        if isinstance(other, Sc):
            g = (lambda x: f(x, other)) if m is a else (lambda x: f(other, x))
            return Masked(Arr(m.arr.shape, lambda ix: g(m.arr.fn(ix)), kind or "f"), m.mask, m.tr)
        if not isinstance(other, Masked) or not self.same_mask(st, m, other):
            raise Unsupported("operation on differently selected arrays")
        da, db = len(a.arr.shape), len(b.arr.shape)
        if da == db and (a.tr == b.tr or da == 1):
            return Masked(Arr(a.arr.shape, lambda ix: f(a.arr.fn(ix), b.arr.fn(ix)), kind or "f"), a.mask, a.tr)
        if da == 2 and db == 1 and a.tr:
            return Masked(Arr(a.arr.shape, lambda ix: f(a.arr.fn(ix), b.arr.fn(ix[:1])), kind or "f"), a.mask, True)
        if da == 1 and db == 2 and b.tr:
            return Masked(Arr(b.arr.shape, lambda ix: f(a.arr.fn(ix[:1]), b.arr.fn(ix)), kind or "f"), a.mask, True)
        raise Unsupported("broadcast of selected arrays")

    def same_mask(self, st, a, b):
        if a.mask is b.mask:
            return True
        i = T.fresh("m")
        return P.valid(self.I.hyps(st), T.eq(a.mask.fn((i,)).e, b.mask.fn((i,)).e)) == "proved"

    def inplace(self, st, op, old, v):
        if isinstance(old, Ref) and isinstance(self.I.rec(st, old), Arr):
            r = self.arr_bin(st, op, old, v)
            ra, ro = self.arr(st, r), self.arr(st, old)
            st.heap[old.addr] = Arr(ro.shape, ra.fn, ro.kind if ro.kind == "f" else ra.kind)
            return old
        if isinstance(old, Ref) and isinstance(self.I.rec(st, old), Lst) and op is ast.Add:
            rv = self.I.rec(st, v)
            if isinstance(rv, Lst):
                st.heap[old.addr] = Lst(self.I.rec(st, old).segs + rv.segs)
                return old
        return self.binop(st, op, old, v)

    # -------------------------------------------------------------- compare
    def compare(self, st, op, a, b):
        I = self.I
        if op in (ast.Is, ast.IsNot):
            r = self.is_(st, a, b)
            return B(r if op is ast.Is else T.not_(r))
        if op in (ast.In, ast.NotIn):
            r = self.contains(st, a, b)
            return B(r if op is ast.In else T.not_(r))
        if isinstance(a, Sc) and isinstance(b, Sc):
            return B(self.cmp_sc(op, a, b))
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if isinstance(a, (Poison, Maybe)) or isinstance(b, (Poison, Maybe)):
                raise Unsupported("comparison")
            same = (a is None and b is None) or (isinstance(a, str) and isinstance(b, str) and a == b)
            if "?" in (a, b) and isinstance(a, str) and isinstance(b, str):
                raise Unsupported("unknown string")
            if op is ast.Eq:
                return B(TRUE if same else FALSE)
            if op is ast.NotEq:
                return B(FALSE if same else TRUE)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                r = FALSE
            else:
                r = T.and_(*[I.truth(self.compare(st, ast.Eq, x, y), st) for x, y in zip(a, b)])
            if op is ast.Eq:
                return B(r)
            if op is ast.NotEq:
                return B(T.not_(r))
        if isinstance(a, SpPart) and a.part == "lbl" and isinstance(b, Sc) and op is ast.Eq:
            return SpMask(a.vec, b.e)
        if isinstance(b, SpPart) and b.part == "lbl" and isinstance(a, Sc) and op is ast.Eq:
            return SpMask(b.vec, a.e)
        if isinstance(a, (SpSel, SpPart)) and isinstance(b, Sc):
            return ("spcmp", op, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.csr is b.csr:
            lo, hi = a.i, b.i
            if T.sub(hi, lo) is not T.I(1):
                lo, hi = hi, lo
            if T.sub(hi, lo) is T.I(1):
                k = T.fresh("c")
                some = T.ex(k, T.I(0), a.csr.nmin, a.csr.mem(lo, k))
                if op is ast.NotEq:
                    return B(some)
                if op is ast.Eq:
                    return B(T.not_(some))
                if op in (ast.Lt, ast.Gt):
                    return B(some)
                raise Unsupported("pointer comparison")
        if isinstance(a, Op) and isinstance(b, Op) and op in (ast.Eq, ast.NotEq):
            r = T.eq(a.e, b.e)
            return B(r if op is ast.Eq else T.not_(r))
        if self.isarr(st, a) or self.isarr(st, b):
            return self.arr_bin(st, op, a, b, compare=True)
        for h in self.extra_item:
            r = h(st, "compare", (op, a, b))
            if r is not None:
                return r
        raise Unsupported("comparison of %r and %r" % (a, b))

    def cmp_sc(self, op, a, b):
        ae, be = a.e, b.e
        if not (ae.sort == "B" and be.sort == "B"):
            ae, be = T.toint(ae), T.toint(be)
        if a.finite and b.finite:
            if op is ast.Eq:
                return T.eq(ae, be)
            if op is ast.NotEq:
                return T.ne(ae, be)
            ae, be = T.toint(ae), T.toint(be)
            return {ast.Lt: T.lt, ast.LtE: T.le, ast.Gt: T.gt, ast.GtE: T.ge}[op](ae, be)
        fa, fb = T.not_(a.special), T.not_(b.special)
        nn = T.and_(T.not_(a.nan), T.not_(b.nan))
        eq = T.and_(nn, T.or_(T.and_(a.pinf, b.pinf), T.and_(a.ninf, b.ninf), T.and_(fa, fb, T.eq(ae, be))))
        if op is ast.Eq:
            return eq
        if op is ast.NotEq:
            return T.not_(eq)
        lt = T.and_(nn, T.or_(T.and_(a.ninf, T.not_(b.ninf)), T.and_(b.pinf, T.not_(a.pinf)), T.and_(fa, fb, T.lt(ae, be))))
        gt = T.and_(nn, T.or_(T.and_(b.ninf, T.not_(a.ninf)), T.and_(a.pinf, T.not_(b.pinf)), T.and_(fa, fb, T.lt(be, ae))))
        return {ast.Lt: lt, ast.Gt: gt, ast.LtE: T.or_(lt, eq), ast.GtE: T.or_(gt, eq)}[op]

    def is_(self, st, a, b):
        if a is None and b is None:
            return TRUE
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, (Poison,)):
                raise Unsupported("is None")
            if isinstance(o, Maybe):
                raise Unsupported("is None")
            if isinstance(o, Opt):
                return o.none
            return FALSE
        if isinstance(a, Sc) and isinstance(b, Sc) and a.sort == "B" and b.sort == "B":
            return T.eq(a.e, b.e)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return TRUE if a.addr == b.addr else FALSE
        if isinstance(a, Cls) and isinstance(b, Cls):
            return TRUE if a is b else FALSE
        raise Unsupported("is")

    def contains(self, st, a, b):
        I = self.I
        if isinstance(b, tuple):
            return T.or_(*[I.truth(self.compare(st, ast.Eq, a, x), st) for x in b]) if b else FALSE
        if isinstance(b, CsrRow) and b.part == "indices":
            return b.csr.mem(b.row, self.sc(a).e)
        if isinstance(b, SpPart) and b.part == "lbl":
            return b.vec.sup(self.sc(a).e)
        r = I.rec(st, b)
        if isinstance(r, Lst) and all(s[0] == "el" for s in r.segs):
            return self.contains(st, a, tuple(s[1] for s in r.segs))
        if isinstance(r, Dct):
            if r.conc is not None:
                if isinstance(a, str):
                    return TRUE if a in r.conc else FALSE
                if not r.conc:
                    return FALSE
            else:
                return r.pres(self.key(a))
        if isinstance(b, str) and isinstance(a, str):
            return TRUE if a in b else FALSE
        for h in self.extra_item:
            x = h(st, "contains", (a, b))
            if x is not None:
                return x
        raise Unsupported("in %s" % type(r).__name__)

    def key(self, a):
        if isinstance(a, tuple):
            return tuple(self.sc(x).e for x in a)
        return (self.sc(a).e,)

    # ------------------------------------------------------------- indexing
    def inb(self, st, i, n):
        self.I.oblige(st, "index in range", T.and_(T.le(T.I(0), i), T.lt(i, n)))

    def norm_index(self, st, v, n):
        e = self.sc(v).e
        if e.sort == "B":
            raise Unsupported("boolean index")
        if e.sort != "I":
            raise Unsupported("non-integer index")
        if e.op == "num" and e.args[0] < 0:
            e = T.add(n, e)
        self.inb(st, e, n)
        return e

    def getitem(self, st, b, ix):
        I = self.I
        if isinstance(b, Builtin) or isinstance(b, (Ext, Cls)):
            return b                                # typing such as float64[:]
        for h in self.extra_item:
            r = h(st, "get", (b, ix))
            if r is not None:
                return r
        if isinstance(b, str):
            raise Unsupported("string index")
        if isinstance(b, tuple):
            if isinstance(ix, slice):
                lo = 0 if ix.start is None else I_int(ix.start)
                hi = len(b) if ix.stop is None else I_int(ix.stop)
                return b[lo:hi]
            n = I_int(ix)
            return b[n]
        rows = I.rec(st, b) if isinstance(b, Ref) else None
        if isinstance(rows, Arr) and isinstance(rows.meta, tuple) and rows.meta[0] == "rows":
            if isinstance(ix, tuple) and len(ix) == 2 and ix[0] == slice(None, None, None) and isinstance(ix[1], Sc) and ix[1].e.op == "num" \
                    and 0 <= ix[1].e.args[0] < rows.shape[1].args[0]:
                if not rows.meta[2]:
                    I.oblige(st, "at least one row", T.lt(T.I(0), rows.shape[0]))
                return self.row_col(st, rows, ix[1].e)
        if isinstance(b, CsrPart):
            if b.part == "indptr":
                e = self.sc(ix).e
                self.I.oblige(st, "index in range", T.and_(T.le(T.I(0), e), T.le(e, b.csr.nmaj)))
                return Ptr(b.csr, e)
            if isinstance(ix, slice) and isinstance(ix.start, Ptr) and isinstance(ix.stop, Ptr) \
                    and ix.start.csr is b.csr and ix.stop.csr is b.csr and T.sub(ix.stop.i, ix.start.i) is T.I(1) and ix.step is None:
                return CsrRow(b.csr, ix.start.i, b.part, b.fn)
            raise Unsupported("access to a compressed matrix")
        if isinstance(b, SpPart):
            if isinstance(ix, tuple) and len(ix) == 1:
                ix = ix[0]
            if isinstance(ix, SpMask) and ix.vec is b.vec:
                return SpSel(b.vec, ix.i) if b.part == "val" else Unsupported
            if isinstance(ix, Sc):
                return self.sp_at(st, b, ix.e)
            raise Unsupported("sparse vector index")
        if isinstance(b, SpSel):
            if I_int(ix) == 0:
                self.I.oblige(st, "selected entry exists", b.vec.sup(b.i))
                return b.vec.sv(b.i)
            raise Unsupported("sparse selection index")
        if isinstance(b, SpList):
            e = self.norm_index(st, ix, b.n)
            return b.get(e)
        if isinstance(b, Masked):
            raise Unsupported("index into a selection")
        r = I.rec(st, b)
        if isinstance(r, Inst):
            m = I.find(r.cls, "__getitem__") if isinstance(r.cls, Cls) else None
            if m is not None:
                return I.call(I.bind(m, b), [ix], {}, st)
        if isinstance(r, Dct):
            if r.conc is not None and isinstance(ix, str):
                if ix not in r.conc:
                    from .interp import Exc, Diverge
                    I.pend.append(Out("raise", st.copy(), Exc("KeyError")))
                    raise Diverge()
                return r.conc[ix]
            if r.conc is None:
                k = self.key(ix)
                self.I.oblige(st, "key is present", r.pres(k))
                return Sc(r.fn(k))
            raise Unsupported("dict key")
        if isinstance(r, Lst):
            if isinstance(ix, Sc) and ix.e.op == "num" and all(s[0] == "el" for s in r.segs):
                n = int(ix.e.args[0])
                return r.segs[n][1]
            if isinstance(ix, slice):
                lo = 0 if ix.start is None else I_int(ix.start)
                hi = len(r.segs) if ix.stop is None else I_int(ix.stop)
                if all(s[0] == "el" for s in r.segs):
                    return I.alloc(st, Lst(r.segs[lo:hi]))
            if isinstance(ix, Sc):
                return self.seg_at(st, r, ix.e)
            raise Unsupported("list index")
        if isinstance(b, (Ref, View)):
            a = self.arr(st, b)
            return self.arr_get(st, b, a, ix)
        raise Unsupported("index into %r" % (b,))

    def seg_at(self, st, r, e):
        """Element of a list built by one unconditional loop."""
        if len(r.segs) == 1 and r.segs[0][0] == "for":
            _, k, lo, hi, g, segs = r.segs[0]
            if g is TRUE and len(segs) == 1 and segs[0][0] == "el" and T.isnum(lo, 0):
                self.inb(st, e, hi)
                if has_ref(segs[0][1]):
                    raise Unsupported("list of objects")
                return sub_value(segs[0][1], {k: e})
        if r.segs and all(s[0] == "el" for s in r.segs) and all(isinstance(s[1], Sc) for s in r.segs):
            self.inb(st, e, T.I(len(r.segs)))
            return self.lst_arr(st, r).fn((e,))
        raise Unsupported("symbolic list index")

    def sp_at(self, st, b, e):
        v = b.vec
        if e.op == "app" and e.args[0] == "rank:" + v.name and e.args[1:-1] == v.key:
            # the position at which label k is stored
            self.I.oblige(st, "entry is stored", v.sup(e.args[-1]))
            return Sc(e.args[-1]) if b.part == "lbl" else v.sv(e.args[-1])
        if e in self.posmap:
            k = self.posmap[e]
            return Sc(k) if b.part == "lbl" else v.sv(k)
        self.inb(st, e, v.nnz)
        if b.part == "lbl":
            return Sc(T.app("lbl:" + v.name, v.key + (e,), "I"))
        return Sc(T.app("val:" + v.name, v.key + (e,), "R"))

    def split_index(self, st, a, ix):
        """-> (list per axis: ('i',e) | ('s',lo,hi), new axes) or mask."""
        if not isinstance(ix, tuple):
            ix = (ix,)
        out = []
        for x in ix:
            if x is Ellipsis:
                while len(out) < len(a.shape) - (len(ix) - 1):
                    out.append(("s", T.I(0), a.shape[len(out)]))
                continue
            d = len(out)
            if d >= len(a.shape):
                raise Unsupported("too many indices")
            n = a.shape[d]
            if isinstance(x, slice):
                if x.step is not None:
                    raise Unsupported("slice step")
                lo = T.I(0) if x.start is None else self.sc(x.start).e
                hi = n if x.stop is None else self.sc(x.stop).e
                if hi.op == "num" and hi.args[0] < 0:
                    hi = T.add(n, hi)
                if lo.op == "num" and lo.args[0] < 0:
                    lo = T.add(n, lo)
                if x.stop is not None and not self.I.known(st, T.le(hi, n)):
                    hi = T.ite(T.le(hi, n), hi, n)
                if x.start is not None and not self.I.known(st, T.le(lo, n)):
                    lo = T.ite(T.le(lo, n), lo, n)
                out.append(("s", lo, hi))
            else:
                out.append(("i", self.norm_index(st, x, n)))
        while len(out) < len(a.shape):
            out.append(("s", T.I(0), a.shape[len(out)]))
        return out

    def arr_get(self, st, b, a, ix):
        if isinstance(ix, Where):
            ix = (ix,)
        if isinstance(ix, tuple) and any(isinstance(x, Where) for x in ix):
            if len(ix) == 2 and len(a.shape) == 2 and isinstance(ix[0], slice) and ix[0] == slice(None, None, None) and isinstance(ix[1], Where):
                self.I.oblige(st, "selected columns exist", T.eq(ix[1].mask.shape[0], a.shape[1]))
                return ColSel(a, ix[1].mask)
            if len(ix) == 1:
                self.I.oblige(st, "selected rows exist", T.eq(ix[0].mask.shape[0], a.shape[0]))
                return Masked(a, ix[0].mask)
            raise Unsupported("selection")
        m = self.mask_of(st, a, ix)
        if m is not None:
            return Masked(a, m)
        sel = self.split_index(st, a, ix)
        if all(s[0] == "i" for s in sel):
            return a.fn(tuple(s[1] for s in sel))
        shape = []
        for s in sel:
            if s[0] == "s":
                n = s[2] if T.isnum(s[1], 0) else T.sub(s[2], s[1])
                if not (T.isnum(s[1], 0)) and not self.I.known(st, T.le(s[1], s[2])):
                    n = T.ite(T.le(s[1], s[2]), n, T.I(0))
                shape.append(n)

        def imap(ixs):
            it = iter(ixs)
            return tuple(s[1] if s[0] == "i" else T.add(s[1], next(it)) for s in sel)
        if a.kind == "U" and len(shape) >= 1 and len(a.shape) == 1:
            pass
        if isinstance(b, View):
            bi = b.imap
            return View(b.base, tuple(shape), lambda i: bi(imap(i)))
        if isinstance(b, Ref):
            return View(b, tuple(shape), imap)
        raise Unsupported("slice")

    def mask_of(self, st, a, ix):
        if isinstance(ix, tuple) and len(ix) and isinstance(ix[0], (Ref, View)):
            if all(isinstance(x, slice) and x.start is None and x.stop is None for x in ix[1:]):
                ix = ix[0]
        if isinstance(ix, (Ref, View)):
            m = self.arr(st, ix, soft=True)
            if m is not None and m.kind == "b" and len(m.shape) == 1:
                return m
        return None

    def setitem(self, st, b, ix, v):
        I = self.I
        for h in self.extra_item:
            r = h(st, "set", (b, ix, v))
            if r is not None:
                return
        if isinstance(b, Flat):
            self.flat_store(st, b, ix, v)
            return
        if isinstance(b, View):
            a = self.arr(st, b)
            sel = self.split_index(st, a, ix)
            if all(s[0] == "i" for s in sel):
                self.setitem(st, b.base, tuple(Sc(x) for x in b.imap(tuple(s[1] for s in sel))), v)
                return
            raise Unsupported("store to a slice of a view")
        r = I.rec(st, b)
        if isinstance(r, Dct):
            if r.conc is not None and isinstance(ix, str):
                d = dict(r.conc)
                d[ix] = v
                st.heap[b.addr] = Dct(conc=d)
                return
            if r.conc is not None and not r.conc:
                r = Dct(lambda k: ZERO, lambda k: FALSE, None)
            if r.conc is None:
                k = self.key(ix)
                val = T.toreal(self.sc(v).e)
                if not v.finite:
                    raise Unsupported("infinite dict value")
                old = r

                def here(x):
                    return T.and_(*[T.eq(a, c) for a, c in zip(x, k)])
                pk = old.pres(k)
                d = None
                if P.valid(I.hyps(st), T.not_(pk)) == "proved":
                    d = val                       # absent: stored value is 0
                else:
                    d0 = T.sub(val, old.fn(k))
                    if d0.size < val.size or not T.has_app(d0, {a.args[0] for a in T.apps(old.fn(k))}):
                        d = d0
                if d is not None:
                    fn = lambda x: T.add(old.fn(x), T.ite(here(x), d, ZERO))
                else:
                    fn = lambda x: T.ite(here(x), val, old.fn(x))
                st.heap[b.addr] = Dct(fn, lambda x: T.or_(old.pres(x), here(x)), len(k))
                return
            raise Unsupported("dict store")
        if isinstance(r, Lst) and isinstance(ix, Sc) and ix.e.op == "num" and all(s[0] == "el" for s in r.segs):
            n = int(ix.e.args[0])
            segs = list(r.segs)
            segs[n] = ("el", v)
            st.heap[b.addr] = Lst(segs)
            return
        if not isinstance(r, Arr):
            raise Unsupported("store into %s" % type(r).__name__)
        m = self.mask_of(st, r, ix)
        if m is not None:
            self.masked_store(st, b, r, m, v)
            return
        if isinstance(ix, tuple) and any(isinstance(x, Ref) and isinstance(I.rec(st, x), Lst) for x in ix):
            self.scatter(st, b, r, ix, v)
            return
        sel = self.split_index(st, r, ix)
        if all(s[0] == "i" for s in sel):
            tgt = tuple(s[1] for s in sel)
            if r.kind == "o":
                old = r

                def ofn(x):
                    c = T.eq(x[0], tgt[0])
                    if c is TRUE or self.I.known(st, c):
                        return v
                    if c is FALSE:
                        return old.fn(x)
                    o = self.I.merge_vals(c, v, old.fn(x), st, st, st)
                    if o is None:
                        raise Unsupported("object list element")
                    return o
                st.heap[b.addr] = Arr(r.shape, ofn, "o", meta=("ostore", r, tgt, v))
                return
            v = self.sc(v)
            o = r.fn(tgt)
            if isinstance(o, Sc) and o.finite and v.finite and o.sort != "B":
                d = T.sub(v.e, o.e)
                names = {a.args[0] for a in T.apps(o.e) if a.args[0].startswith("ph!")}
                if names and not T.has_app(d, names):
                    self.additem(st, b, ix, Sc(d))
                    return

            def fn(x, r=r):
                c = T.and_(*[T.eq(a, t) for a, t in zip(x, tgt)])
                return self.I.merge_vals(c, v, r.fn(x), st, st, st)
            st.heap[b.addr] = Arr(r.shape, fn, "f" if v.sort == "R" else r.kind)
            return
        # slice store
        shape = [s for s in sel if s[0] == "s"]
        va = None if isinstance(v, Sc) else self.arr(st, v)
        if va is not None and len(va.shape) > len(shape):
            raise Unsupported("slice store shape")
        off = 0 if va is None else len(shape) - len(va.shape)
        if va is not None:
            for d, s in zip(va.shape, shape[off:]):
                n = s[2] if T.isnum(s[1], 0) else T.sub(s[2], s[1])
                if d is not n:
                    self.I.oblige(st, "stored value has the shape of the target", T.eq(d, n))

        def fn(x, r=r):
            conds, ixs = [], []
            for c, s in zip(x, sel):
                if s[0] == "i":
                    conds.append(T.eq(c, s[1]))
                else:
                    if not T.isnum(s[1], 0):
                        conds.append(T.le(s[1], c))
                    if s[2] is not r.shape[len(conds) and x.index(c)]:
                        conds.append(T.lt(c, s[2]))
                    ixs.append(T.sub(c, s[1]))
            val = v if va is None else va.fn(tuple(ixs[off:]))
            c = T.and_(*conds) if conds else TRUE
            if c is TRUE:
                return val
            return self.I.merge_vals(c, val, r.fn(x), st, st, st)
        st.heap[b.addr] = Arr(r.shape, fn, r.kind)

    def additem(self, st, b, ix, d):
        if isinstance(b, View):
            a = self.arr(st, b)
            sel = self.split_index(st, a, ix)
            if not all(s[0] == "i" for s in sel):
                raise Unsupported("slice add")
            b, tgt = b.base, b.imap(tuple(s[1] for s in sel))
            r = self.arr(st, b)
        else:
            r = self.arr(st, b)
            sel = self.split_index(st, r, ix)
            if not all(s[0] == "i" for s in sel):
                old = self.arr_get(st, b, r, ix)
                self.setitem(st, b, ix, self.binop(st, ast.Add, old, d))
                return
            tgt = tuple(s[1] for s in sel)

        def fn(x, r=r):
            c = T.and_(*[T.eq(a, t) for a, t in zip(x, tgt)])
            o = r.fn(x)
            return Sc(T.add(o.e, T.ite(c, d.e, T.num(0, d.sort if d.sort != "B" else "I"))), o.pinf, o.ninf, o.nan)
        st.heap[b.addr] = Arr(r.shape, fn, "f" if (r.kind == "f" or d.sort == "R") else "i")

    def masked_store(self, st, b, r, m, v):
        if isinstance(v, Masked):
            if v.tr and len(v.arr.shape) > 1:
                raise Unsupported("transposed selection stored")
            if not self.same_mask(st, Masked(r, m), v):
                raise Unsupported("selection stored under another mask")
            src = v.arr.fn
        elif isinstance(v, Sc):
            src = lambda ix: v
        else:
            raise Unsupported("masked store")

        def fn(x, r=r):
            return self.I.merge_vals(m.fn(x[:1]).e, src(x), r.fn(x), st, st, st)
        st.heap[b.addr] = Arr(r.shape, fn, r.kind)

    def scatter(self, st, b, r, ix, v):
        """a[rows, cols] = vals with lists built by the same loops: every index
        tuple occurs at most once (obligation), so the stored value is unique."""
        recs = [self.I.rec(st, x) for x in ix]
        if not all(isinstance(x, Lst) for x in recs):
            raise Unsupported("scatter index")
        vl = None
        if isinstance(v, Ref) and isinstance(self.I.rec(st, v), Lst):
            vl = self.I.rec(st, v)
        elif isinstance(v, (Ref, View)):
            va = self.arr(st, v)
            if va.meta == "ones":
                v = Sc(TRUE) if va.kind == "b" else Sc(ONE)
            else:
                raise Unsupported("scatter values")
        tab = zip_segs([x.segs for x in recs] + ([vl.segs] if vl else []))

        def count(x):
            return seg_pick(tab, x, lambda els: T.I(1))

        def value(x):
            if vl is None:
                return None
            return seg_pick(tab, x, lambda els: T.toreal(els[-1].e))

        def fn(x, r=r):
            c = T.lt(T.I(0), count(x))
            val = v if vl is None else Sc(value(x))
            return self.I.merge_vals(c, val, r.fn(x), st, st, st)
        xs = tuple(T.fresh("x") for _ in r.shape)
        inr = T.and_(*[T.and_(T.le(T.I(0), a), T.lt(a, n)) for a, n in zip(xs, r.shape)])
        if vl is not None:
            self.I.obl.append(("every index is stored at most once", tuple(self.I.hyps(st)) + (inr,), T.le(count(xs), T.I(1))))
        st.heap[b.addr] = Arr(r.shape, fn, r.kind, meta=("scatter", tab, vl is not None))

    # -------------------------------------------------------------- iterate
    def iterate(self, st, v):
        I = self.I
        if isinstance(v, (Iter, Conc, SeqIter)):
            return v
        if isinstance(v, tuple):
            return Conc(v)
        if isinstance(v, CsrRow):
            return Iter(T.I(0), v.csr.nmin, v.at, lambda k: v.csr.mem(v.row, k))
        if isinstance(v, SpPart):
            if v.part == "lbl":
                return Iter(T.I(0), v.vec.n, lambda k: Sc(k), lambda k: v.vec.sup(k))
            return Iter(T.I(0), v.vec.n, lambda k: v.vec.sv(k), lambda k: v.vec.sup(k))
        if isinstance(v, SpList):
            return Iter(T.I(0), v.n, v.get)
        for h in self.extra_item:
            r = h(st, "iter", (v,))
            if r is not None:
                return r
        r = I.rec(st, v)
        if isinstance(r, Lst):
            if all(s[0] == "el" for s in r.segs):
                return Conc([s[1] for s in r.segs])
            if len(r.segs) == 1 and r.segs[0][0] == "for" and len(r.segs[0][5]) == 1 and r.segs[0][5][0][0] == "el":
                _, k, lo, hi, g, ((_, x),) = r.segs[0]
                if has_ref(x):
                    def no(kk):
                        raise Unsupported("iteration over a list of objects")
                    it = Iter(lo, hi, no, (lambda kk: T.subst(g, {k: kk})) if g is not TRUE else None)
                    it.elem_in = lambda s, kk: sub_deep(I, s, x, {k: kk})
                    return it
                return Iter(lo, hi, lambda kk: sub_value(x, {k: kk}), (lambda kk: T.subst(g, {k: kk})) if g is not TRUE else None)
            return SeqIter([r.segs])
        if isinstance(r, Dct) and r.conc is not None:
            return Conc(list(r.conc))
        if isinstance(r, Dct) and r.arity == 2:
            return self.pair_keys(st, r)
        if isinstance(r, Arr) or isinstance(v, View):
            a = self.arr(st, v)
            n = a.shape[0]
            if len(a.shape) == 1:
                if n.op == "num" and n.args[0] <= 8:
                    return Conc([a.fn((T.I(i),)) for i in range(int(n.args[0]))])
                return Iter(T.I(0), n, lambda k: a.fn((k,)))
            return Iter(T.I(0), n, lambda k: self.arr_get(st, v, a, Sc(k)))
        if isinstance(v, Sc):
            from .interp import Exc, Diverge
            I.pend.append(Out("raise", st.copy(), Exc("TypeError")))
            raise Diverge()
        raise Unsupported("iteration over %s" % type(r).__name__)

    # ---------------------------------------------------------------- truth
    def truth(self, st, v):
        r = self.I.rec(st, v)
        if isinstance(r, Lst):
            if any(s[0] == "el" for s in r.segs):
                return TRUE
            if not r.segs:
                return FALSE
        if isinstance(r, Dct) and r.conc is not None:
            return TRUE if r.conc else FALSE
        if isinstance(r, Inst):
            return TRUE
        if isinstance(r, Arr) and all(T.isnum(d, 1) for d in r.shape):
            return self.I.truth(r.fn(tuple(T.I(0) for _ in r.shape)), st)
        raise Unsupported("truth of %s" % type(r).__name__)

    # ------------------------------------------------------------ attributes
    def attr(self, st, obj, name):
        for h in self.extra_attr:
            r = h(st, obj, name)
            if r is not None:
                return r
        if isinstance(obj, str):
            if name in ("replace", "format", "lower", "join", "startswith"):
                return Builtin("str." + name, lambda I, s, a, k: self.str_method(name, obj, a))
        r = self.I.rec(st, obj)
        if isinstance(r, Arr) or isinstance(obj, View):
            a = self.arr(st, obj)
            if name == "shape":
                return tuple(Sc(x) for x in a.shape)
            if name == "ndim":
                return Sc(T.I(len(a.shape)))
            if name == "size":
                e = a.shape[0]
                for x in a.shape[1:]:
                    e = T.mul(e, x)
                return Sc(e)
            if name == "dtype":
                return DType(a.kind)
            if name == "T":
                if len(a.shape) == 1:
                    return obj
                return self.perm_view(obj, a, tuple(range(len(a.shape)))[::-1])
            if name in ("astype", "copy", "reshape", "sum", "any", "all", "flatten", "max", "min", "dot", "ravel", "toarray", "todense", "tolist", "fill", "nonzero", "transpose", "diagonal"):
                return Builtin("ndarray." + name, lambda I, s, args, kw: self.arr_method(s, obj, name, args, kw))
            if r is not None and isinstance(r, Arr) and r.kind == "o" and name == "append":
                raise Unsupported("append to a list of symbolic length")
        if isinstance(obj, ColSel) and name == "sum":
            def colsum(I, s, args, kw):
                m, c = obj.arr, obj.mask
                ax = args[0] if args else kw.get("axis")
                if ax is None or I_int(ax) != 1:
                    raise Unsupported("sum of a selection")

                def fn(ix):
                    k = T.fresh("k")
                    x = m.fn((ix[0], k))
                    if not x.finite:
                        raise Unsupported("sum of possibly infinite values")
                    e = T.toint(x.e)
                    return Sc(T.bsum(k, T.I(0), m.shape[1], T.ite(c.fn((k,)).e, e, T.num(0, e.sort))))
                return I.alloc(s, Arr((m.shape[0],), fn, "f" if m.kind == "f" else "i"))
            return Builtin(name, colsum)
        if isinstance(obj, Masked):
            if name == "T":
                return Masked(obj.arr, obj.mask, not obj.tr) if len(obj.arr.shape) > 1 else obj
        if isinstance(r, Lst):
            if name in ("append", "extend"):
                return Builtin("list." + name, lambda I, s, args, kw: self.lst_method(s, obj, name, args))
        if isinstance(r, Dct):
            if name in ("get", "items", "keys", "values", "pop", "update"):
                return Builtin("dict." + name, lambda I, s, args, kw: self.dct_method(s, obj, name, args))
        if isinstance(obj, DType) and name in ("kind", "name", "str"):
            return obj.name
        raise Unsupported("attribute %s of %s" % (name, type(r).__name__))

    def perm_view(self, obj, a, perm):
        """Live view with permuted axes: axis d of the view is axis perm[d]."""
        inv = [perm.index(d) for d in range(len(perm))]
        imap = lambda ix: tuple(ix[inv[d]] for d in range(len(perm)))
        sh = tuple(a.shape[d] for d in perm)
        if isinstance(obj, View):
            bi = obj.imap
            return View(obj.base, sh, lambda ix: bi(imap(ix)))
        return View(obj, sh, imap)

    def setattr(self, st, obj, name, v):
        raise Unsupported("attribute store on %s" % type(self.I.rec(st, obj)).__name__)

    def hasattr(self, st, obj, name):
        raise Unsupported("hasattr on %s" % type(self.I.rec(st, obj)).__name__)

    def str_method(self, name, s, a):
        if all(isinstance(x, str) for x in a):
            if name == "replace":
                return s.replace(*a)
            if name == "startswith":
                return Sc(TRUE if s.startswith(a[0]) else FALSE)
        if name == "format":
            return "?" if "{" in s else s
        raise Unsupported("string method " + name)

    def lst_method(self, st, obj, name, args):
        r = self.I.rec(st, obj)
        if name == "append":
            v = args[0]
            if isinstance(v, View):
                v = self.I.alloc(st, self.arr(st, v))
            st.heap[obj.addr] = Lst(r.segs + (("el", v),))
            return None
        if name == "extend":
            if isinstance(args[0], DctSeq):
                st.heap[obj.addr] = Lst(r.segs + (args[0].seg(),))
                return None
            rv = self.I.rec(st, args[0])
            if isinstance(rv, Arr) and rv.meta is not None and rv.meta[0] == "rep":
                st.heap[obj.addr] = Lst(r.segs + (rv.meta[1].seg(rv.meta[2]),))
                return None
            if isinstance(rv, Lst):
                st.heap[obj.addr] = Lst(r.segs + rv.segs)
                return None
            if isinstance(args[0], tuple):
                st.heap[obj.addr] = Lst(r.segs + tuple(("el", x) for x in args[0]))
                return None
        raise Unsupported("list method")

    def pair_keys(self, st, d):
        """Keys (x, t) of a dictionary whose second component is one fixed number,
        and whose first components lie in the range the contract supplies; the
        order is taken to be increasing."""
        G = getattr(self.I, "key_bound", None)
        if G is None:
            raise Unsupported("keys of a dictionary")
        x, y = T.fresh("x"), T.fresh("y")
        p = d.pres((x, y))
        for l in sorted(T.eqs(p), key=lambda e: e.id):
            t = P.solve_for(l, y) if l.op == "eq" else None
            if t is None or x in t.fv or y in t.fv or t.depth:
                continue
            if P.valid(list(self.I.hyps(st)) + [p], T.eq(y, t)) == "proved":
                self.I.obl.append(("dictionary keys lie in the range of the vertices", tuple(self.I.hyps(st)) + (p,), T.and_(T.le(T.I(0), x), T.lt(x, G))))
                return Iter(T.I(0), G, lambda k: (Sc(k), Sc(t)), lambda k: d.pres((k, t)))
        raise Unsupported("keys of a dictionary")

    def dct_method(self, st, obj, name, args):
        r = self.I.rec(st, obj)
        if r.conc is not None and name == "get" and isinstance(args[0], str):
            return r.conc.get(args[0], args[1] if len(args) > 1 else None)
        if r.conc is not None and name == "items":
            return tuple((k, v) for k, v in r.conc.items())
        if r.conc is not None and name == "keys":
            return tuple(r.conc)
        if name == "keys" and r.conc is None and r.arity == 2:
            return self.pair_keys(st, r)
        if name in ("keys", "values") and r.conc is None and r.arity == 1 and getattr(self.I, "key_bound", None) is not None:
            return DctSeq(self, st, r, name)
        if name == "get" and len(args) == 2 and (r.conc is None or not r.conc):
            if r.conc is not None:
                return args[1]
            k = self.key(args[0])
            d = self.sc(args[1])
            if T.isnum(d.e, 0):
                return Sc(r.fn(k))         # absent keys hold 0
            return Sc(T.ite(r.pres(k), r.fn(k), T.toreal(d.e)))
        raise Unsupported("dict method " + name)

    def arr_method(self, st, obj, name, args, kw):
        a = self.arr(st, obj)
        if name == "reshape" and isinstance(a.meta, tuple) and a.meta[0] == "rows" and len(args) == 2 \
                and I_int(args[0]) == -1 and T.I(I_int(args[1])) is a.shape[1]:
            return self.I.alloc(st, Arr(a.shape, a.fn, a.kind, ("rows", a.meta[1], True)))
        if name in ("astype", "copy"):
            kind = a.kind
            if name == "astype":
                kind = self.kind_of(args[0] if args else kw.get("dtype"))
                return self.I.alloc(st, self.cast(Arr(a.shape, a.fn, a.kind), kind))
            return self.I.alloc(st, Arr(a.shape, a.fn, a.kind))
        if name in ("flatten", "ravel") and len(a.shape) == 1:
            return self.I.alloc(st, Arr(a.shape, a.fn, a.kind))
        if name in ("ravel", "flatten"):
            if name == "flatten" or isinstance(obj, View):
                obj = self.I.alloc(st, Arr(a.shape, a.fn, a.kind))     # a copy
            return Flat(obj)
        if name == "transpose":
            perm = args[0] if args and isinstance(args[0], tuple) else tuple(args)
            perm = tuple(I_int(x) for x in perm) or tuple(range(len(a.shape)))[::-1]
            if sorted(perm) != list(range(len(a.shape))):
                raise Unsupported("axes of a transpose")
            return self.perm_view(obj, a, perm)
        if name == "diagonal":
            return self.c_diagonal(st, [obj] + list(args), kw)
        if name == "dot" and len(args) == 1 and not kw:
            return self.dot(st, obj, args[0])
        if name in ("max", "min") and not args and not kw and len(a.shape) == 1 and a.kind == "i":
            return self.extreme(st, a, name)
        if name in ("toarray", "todense"):
            raise Unsupported("toarray of a dense array")
        if name == "sum":
            return self.np_sum(st, obj, args[0] if args else kw.get("axis"))
        if name in ("any", "all"):
            return self.quant(st, obj, name)
        if name == "fill":
            self.setitem(st, obj, slice(None, None), args[0])
            return None
        raise Unsupported("array method " + name)

    def dot(self, st, x, y):
        a, b = self.arr(st, x), self.arr(st, y)
        if len(a.shape) > 2 or len(b.shape) > 2:
            raise Unsupported("product of tensors")
        n = a.shape[-1]
        if n is not b.shape[0]:
            self.I.oblige(st, "operands of a product match", T.eq(n, b.shape[0]))
        sh = a.shape[:-1] + b.shape[1:]

        def fn(ix):
            k = T.fresh("k")
            u, v = a.fn(tuple(ix[:len(a.shape) - 1]) + (k,)), b.fn((k,) + tuple(ix[len(a.shape) - 1:]))
            if not (u.finite and v.finite):
                raise Unsupported("product with possibly infinite values")
            if u.sort == "B" and v.sort == "B":
                return Sc(T.ex(k, T.I(0), n, T.and_(u.e, v.e)))
            if u.sort == "B":
                return Sc(T.bsum(k, T.I(0), n, T.ite(u.e, v.e, T.num(0, v.sort))))
            if v.sort == "B":
                return Sc(T.bsum(k, T.I(0), n, T.ite(v.e, u.e, T.num(0, u.sort))))
            e = T.mul(u.e, v.e) if u.sort == v.sort else T.mul(T.toreal(u.e), T.toreal(v.e))
            return Sc(T.bsum(k, T.I(0), n, e))
        kind = "b" if a.kind == b.kind == "b" else "f" if "f" in (a.kind, b.kind) else "i"
        return fn(()) if not sh else self.I.alloc(st, Arr(sh, fn, kind))

    c_dot = lambda self, st, a, k: self.dot(st, a[0], a[1])

    def extreme(self, st, a, name):
        """Largest (smallest) element of a non-empty integer array."""
        n = a.shape[0]
        self.I.oblige(st, "the array is not empty", T.lt(T.I(0), n))
        m, w, i = T.fresh(name), T.fresh("at"), T.fresh("i")
        x = lambda k: T.toint(a.fn((k,)).e)
        for cand, wit in getattr(self.I, "max_hints", ()) if name == "max" else ():
            # a largest element known by name (checked here)
            if self.I.known(st, T.and_(T.le(T.I(0), wit), T.lt(wit, n), T.eq(x(wit), cand))) and \
                    self.I.known(st, T.all_(i, T.I(0), n, T.le(x(i), cand))):
                return Sc(cand)
        c = T.le(x(i), m) if name == "max" else T.le(m, x(i))
        st.pc = st.pc + (T.le(T.I(0), w), T.lt(w, n), T.eq(x(w), m), T.all_(i, T.I(0), n, c))
        return Sc(m)

    def np_extreme(self, st, a, k, name):
        if len(a) != 1 or k:
            raise Unsupported("axis of " + name)
        r = self.arr(st, a[0])
        if len(r.shape) != 1 or r.kind != "i":
            raise Unsupported(name + " of anything but an integer vector")
        return self.extreme(st, r, name)

    c_max = lambda self, st, a, k: self.np_extreme(st, a, k, "max")
    c_min = lambda self, st, a, k: self.np_extreme(st, a, k, "min")
    c_amax, c_amin = c_max, c_min

    def c_fill_diagonal(self, st, a, k):
        b, v = a[0], self.sc(a[1])
        r = self.arr(st, b)
        if len(r.shape) != 2 or k or len(a) != 2:
            raise Unsupported("fill_diagonal")
        self.I.oblige(st, "square matrix", T.eq(*r.shape))
        if r.kind == "b":
            v = Sc(self.I.truth(v, st))
        i, j = T.fresh("i"), T.fresh("j")
        base = b
        if isinstance(b, View):
            m = b.imap((i, j))
            base = b.base
            if not isinstance(base, Ref) or set(m) != {i, j} or len(m) != 2:
                raise Unsupported("diagonal of this view")
        r = self.I.rec(st, base)
        st.heap[base.addr] = Arr(r.shape, lambda ix, r=r: self.I.merge_vals(T.eq(ix[0], ix[1]), v, r.fn(ix), st, st, st), r.kind)
        return None

    def flat_store(self, st, b, ix, v):
        """Store through ravel() of a contiguous array: the diagonal of a square
        matrix (stride n+1), or of every layer of a tensor (positions
        k*(n+1) - n*(k//n), k < layers*n)."""
        r = self.I.rec(st, b.base)
        n = r.shape[-1]
        nd = len(r.shape)
        if isinstance(ix, slice) and nd == 2:
            if ix.start is not None or ix.stop is not None or not isinstance(ix.step, Sc):
                raise Unsupported("flat store")
            self.I.oblige(st, "square matrix", T.eq(*r.shape))
            self.I.oblige(st, "stride of the diagonal", T.eq(ix.step.e, T.add(n, T.I(1))))
            va = None if isinstance(v, Sc) else self.arr(st, v)
            if va is not None:
                if len(va.shape) != 1:
                    raise Unsupported("flat store")
                self.I.oblige(st, "stored value has the shape of the target", T.eq(va.shape[0], n))
            val = lambda ix: v if va is None else va.fn((ix[0],))
        elif nd == 3:
            ia = self.arr(st, ix)
            k = T.fresh("k")
            self.I.oblige(st, "square layers", T.eq(r.shape[1], n))
            e = ia.fn((k,)).e
            fd = [t for t in T.apps(e) if t.args[0] == "floordiv"]
            q = T.app("floordiv", (k, n), "I")
            self.I.obl.append(("positions of the diagonals", tuple(self.I.hyps(st)) + (T.le(T.I(0), k), T.lt(T.I(0), n)),
                               T.eq(e, T.sub(T.mul(k, T.add(n, T.I(1))), T.mul(n, q)))))
            self.I.oblige(st, "one position per diagonal entry", T.eq(ia.shape[0], T.mul(r.shape[0], n)))
            if isinstance(v, Sc):
                val = lambda ix: v
            elif isinstance(v, Flat):
                va = self.arr(st, v.base)
                if len(va.shape) != 2:
                    raise Unsupported("flat store")
                self.I.oblige(st, "stored value has the shape of the target", T.and_(T.eq(va.shape[0], r.shape[0]), T.eq(va.shape[1], n)))
                val = lambda ix: va.fn((ix[0], ix[1]))
            else:
                raise Unsupported("flat store")
        else:
            raise Unsupported("flat store")

        def fn(x, r=r):
            return self.I.merge_vals(T.eq(x[-2], x[-1]), val(x), r.fn(x), st, st, st)
        st.heap[b.base.addr] = Arr(r.shape, fn, r.kind)

    def cast(self, a, kind):
        if kind == a.kind or kind is None:
            return a

        def f(ix):
            v = a.fn(ix)
            if kind == "b":
                return Sc(self.I.truth(v, None))
            if kind == "f":
                return Sc(T.toreal(v.e), v.pinf, v.ninf, v.nan)
            if kind == "i" and v.sort in "IB":
                return Sc(T.toint(v.e))
            raise Unsupported("cast")
        return Arr(a.shape, f, kind)

    def kind_of(self, d):
        if isinstance(d, Ext):
            n = d.path.split(".")[-1]
        elif isinstance(d, Builtin):
            n = d.name
        elif isinstance(d, str):
            n = d
        elif isinstance(d, DType):
            return d.name if d.name in ("f", "i", "b") else "f"
        elif d is None:
            return "f"
        else:
            raise Unsupported("dtype %r" % (d,))
        if n in ("float64", "float", "f8", "double"):
            return "f"
        if n in ("bool", "bool_"):
            return "b"
        if n in ("int64", "int", "i8", "uint64", "intp"):
            return "i"
        raise Unsupported("dtype " + n)

    # --------------------------------------------------------- external calls
    def ext(self, path):
        if path in ("numpy.inf", "numpy.infty", "math.inf"):
            return Sc(ZERO, pinf=TRUE)
        if path == "numpy.nan":
            return Sc(ZERO, nan=TRUE)
        return Ext(path)

    def builtin(self, n):
        from .interp import EXC, Exc
        if n in EXC:
            return Builtin(n, lambda I, st, a, k: Exc(n, a[0] if a else None))
        if n in ("UserWarning", "DeprecationWarning", "RuntimeWarning"):
            return n
        if n in ("True", "False"):
            return Sc(TRUE if n == "True" else FALSE)
        if n in ("object",):
            return object
        h = self.handlers.get("b." + n)
        if h is None:
            raise Unsupported("name " + n)
        x = self.extra_call.get("b." + n)
        if x is not None:
            def first(I, st, a, k):
                r = x(I, st, a, k)
                return h(st, a, k) if r is NotImplemented else r
            return Builtin(n, first)
        return Builtin(n, lambda I, st, a, k: h(st, a, k))

    def call(self, st, path, args, kw):
        h = self.extra_call.get(path)
        if h is not None:
            r = h(self.I, st, args, kw)
            if r is not NotImplemented:
                return r
        h = self.handlers.get(path)
        if h is None:
            h = self.handlers.get(path.split(".", 1)[-1] if path.startswith(("numpy.", "math.")) else path)
        if h is None:
            raise Unsupported("external " + path)
        return h(st, args, kw)

    # builtins
    def c_b__len(self, st, a, k):
        v = a[0]
        I = self.I
        if isinstance(v, tuple):
            return Sc(T.I(len(v)))
        if isinstance(v, SpPart):
            self.spvec_of[v.vec.nnz] = v.vec
            return Sc(v.vec.nnz)
        if isinstance(v, SpList):
            return Sc(v.n)
        if isinstance(v, CsrPart) and v.part == "indptr":
            return Sc(T.add(v.csr.nmaj, T.I(1)))
        if isinstance(v, str):
            return Sc(T.I(len(v)))
        if isinstance(v, DctSeq):
            e = T.bsum(v.k, T.I(0), v.hi, T.ite(v.d.pres((v.k,)), T.I(1), T.I(0)))
            self.dctlen[e] = v
            return Sc(e)
        for h in self.extra_item:
            r = h(st, "len", (v,))
            if r is not None:
                return r
        r = I.rec(st, v)
        if isinstance(r, Dct) and r.conc is not None:
            return Sc(T.I(len(r.conc)))
        if isinstance(r, Lst):
            return Sc(seg_sum(zip_segs([r.segs]), lambda els: (TRUE, T.I(1)), sort="I"))
        if isinstance(r, Arr) or isinstance(v, View):
            return Sc(self.arr(st, v).shape[0])
        if isinstance(v, Sc):
            from .interp import Exc, Diverge
            I.pend.append(Out("raise", st.copy(), Exc("TypeError")))
            raise Diverge()
        raise Unsupported("len of %s" % type(r).__name__)

    def c_b__range(self, st, a, k):
        es = [self.sc(x).e for x in a]
        if any(e.sort != "I" for e in es):
            raise Unsupported("range of a non-integer")
        if len(es) == 1:
            lo, hi = T.I(0), es[0]
        elif len(es) == 2:
            lo, hi = es
        else:
            if T.isnum(es[2], 1):
                lo, hi = es[:2]
            else:
                raise Unsupported("range step")
        if lo.op == "num" and hi.op == "num" and hi.args[0] - lo.args[0] <= 16:
            return Conc([Sc(T.I(i)) for i in range(int(lo.args[0]), int(hi.args[0]))])
        r = Iter(lo, hi, lambda k: Sc(k))
        r.range = True
        return r

    def c_b__enumerate(self, st, a, k):
        it = self.iterate(st, a[0])
        if isinstance(it, Conc):
            return Conc([(Sc(T.I(i)), x) for i, x in enumerate(it.items)])
        if isinstance(it, SeqIter):
            return SeqIter(it.parts, it.tup, True)
        if it.guard is not None:
            if isinstance(a[0], SpPart):
                v = a[0].vec
                return Iter(it.lo, it.hi, lambda k: (Sc(T.app("rank:" + v.name, v.key + (k,), "I")), it.elem(k)), it.guard)
            return Iter(it.lo, it.hi, lambda k: (Poison("rank in a sparse sequence"), it.elem(k)), it.guard)
        return Iter(it.lo, it.hi, lambda k: (Sc(T.sub(k, it.lo)), it.elem(k)))

    def c_b__zip(self, st, a, k):
        its = [self.iterate(st, x) for x in a]
        if all(isinstance(i, Conc) for i in its):
            return Conc(list(zip(*[i.items for i in its])))
        if any(isinstance(i, Conc) for i in its):
            raise Unsupported("zip")
        if all(isinstance(i, SeqIter) and not i.tup and not i.enum for i in its):
            return SeqIter([i.parts[0] for i in its], True)
        if all(isinstance(x, SpPart) for x in a):
            if not all(x.vec is a[0].vec for x in a):
                raise Unsupported("zip of different sparse vectors")
            v = a[0].vec
            return Iter(T.I(0), v.n, lambda k: tuple(Sc(k) if x.part == "lbl" else v.sv(k) for x in a), lambda k: v.sup(k))
        if all(isinstance(x, CsrRow) for x in a) and all(x.csr is a[0].csr and x.row is a[0].row for x in a):
            return Iter(its[0].lo, its[0].hi, lambda k: tuple(x.at(k) for x in a), its[0].guard)
        if any(i.guard is not None for i in its):
            raise Unsupported("zip of sparse sequences")
        lo, hi = its[0].lo, its[0].hi
        for i in its[1:]:
            if i.lo is not lo:
                raise Unsupported("zip")
            if i.hi is not hi:
                hi = T.ite(T.le(i.hi, hi), i.hi, hi) if not self.I.known(st, T.eq(i.hi, hi)) else hi
        return Iter(lo, hi, lambda k: tuple(i.elem(k) for i in its))

    def c_b__list(self, st, a, k):
        if not a:
            return self.I.alloc(st, Lst())
        it = self.iterate(st, a[0])
        if isinstance(it, Conc):
            return self.I.alloc(st, Lst([("el", x) for x in it.items]))
        kk = T.fresh("k")
        g = it.guard(kk) if it.guard else TRUE
        return self.I.alloc(st, Lst([("for", kk, it.lo, it.hi, g, (("el", it.elem(kk)),))]))

    def c_b__tuple(self, st, a, k):
        it = self.iterate(st, a[0])
        if isinstance(it, Conc):
            return tuple(it.items)
        raise Unsupported("tuple")

    def c_b__dict(self, st, a, k):
        if a:
            raise Unsupported("dict()")
        return self.I.alloc(st, Dct(conc=dict(k)))

    def c_b__print(self, st, a, k):
        return None

    def c_b__abs(self, st, a, k):
        return self.absv(st, a[0])

    def absv(self, st, v):
        if isinstance(v, Sc):
            e = T.toint(v.e)
            return Sc(T.ite(T.le(T.num(0, e.sort), e), e, T.neg(e)), T.or_(v.pinf, v.ninf), FALSE, v.nan)
        return self.map1(st, v, lambda x: self.absv(st, x))

    def c_b__hasattr(self, st, a, k):
        return B(self.I.hasattr(st, a[0], a[1]))

    def c_b__getattr(self, st, a, k):
        from .interp import Pending
        return self.I.getattr(st, a[0], a[1], a[2] if len(a) > 2 else Pending)

    def c_b__setattr(self, st, a, k):
        if not isinstance(a[1], str):
            raise Unsupported("setattr name")
        self.I.setattr(st, a[0], a[1], a[2])

    def c_b__delattr(self, st, a, k):
        self.I.delattr(st, a[0], a[1])

    def c_b__isinstance(self, st, a, k):
        v, c = a
        cs = c if isinstance(c, tuple) else (c,)
        return B(T.or_(*[self.isinst(st, v, x) for x in cs]))

    def isinst(self, st, v, c):
        for h in self.isinst_hooks:
            r = h(st, v, c)
            if r is not None:
                return r
        r = self.I.rec(st, v)
        nm = c.path if isinstance(c, Ext) else (c.name if isinstance(c, Builtin) else None)
        if isinstance(c, Cls):
            return TRUE if isinstance(r, Inst) and isinstance(r.cls, Cls) and c in self.I.mro(r.cls) else FALSE
        if nm == "numpy.ndarray":
            return TRUE if isinstance(r, Arr) and r.meta != "list" or isinstance(v, View) else FALSE
        if nm == "list":
            return TRUE if isinstance(r, Lst) or (isinstance(r, Arr) and r.meta == "list") else FALSE
        if nm == "str":
            return TRUE if isinstance(v, str) else FALSE
        if nm == "dict":
            return TRUE if isinstance(r, Dct) else FALSE
        if nm == "tuple":
            return TRUE if isinstance(v, tuple) else FALSE
        if nm in ("int", "float") and (isinstance(r, (Arr, Lst, Dct, Inst)) or isinstance(v, (str, tuple, type(None), View, Csr))):
            return FALSE
        raise Unsupported("isinstance %r" % (c,))

    def c_b__float(self, st, a, k):
        v = self.sc(a[0])
        return Sc(T.toreal(v.e), v.pinf, v.ninf, v.nan)

    def c_b__int(self, st, a, k):
        v = self.sc(a[0])
        if v.sort in "IB" and v.finite:
            return Sc(T.toint(v.e))
        if v.sort == "R" and v.finite:
            if self.I.known(st, T.le(T.R(0), v.e)):
                return Sc(self.floor(v.e))
            return Sc(T.ite(T.le(T.R(0), v.e), self.floor(v.e), T.neg(self.floor(T.neg(v.e)))))
        raise Unsupported("int of a real")

    def floor(self, x):
        """Integer part: for a quotient a / b by a positive b, q b <= a < (q+1) b."""
        if x.op == "toreal":
            return x.args[0]
        if x.op == "num":
            return T.I(x.args[0] // 1)
        if x.op == "mul" and len(x.args) == 2 and x.args[0].op == "num" and x.args[0].args[0].numerator == 1 and x.args[1].op == "toreal":
            return T.app("floordiv", (x.args[1].args[0], T.I(x.args[0].args[0].denominator)), "I")
        if x.op == "mul" and len(x.args) == 2:
            ins = [y for y in x.args if y.op == "inv"]
            oth = [y for y in x.args if y.op != "inv"]
            if len(ins) == 1:
                den, num = whole(ins[0].args[0]), whole(oth[0])
                if den is not None and num is not None:
                    return T.app("floordiv", (num, den), "I")
        return T.app("floor", (x,), "I")

    def c_floor(self, st, a, k):
        v = self.sc(a[0])
        if not v.finite or self.isarr(st, a[0]):
            raise Unsupported("floor")
        return Sc(T.toint(v.e) if v.sort in "IB" else self.floor(v.e))

    def c_b__bool(self, st, a, k):
        return B(self.I.truth(a[0], st))

    def c_b__str(self, st, a, k):
        return a[0] if isinstance(a[0], str) else "?"

    def c_b__max(self, st, a, k):
        if len(a) == 2 and all(isinstance(x, Sc) and x.finite for x in a):
            return Sc(T.ite(T.le(a[1].e, a[0].e), a[0].e, a[1].e))
        raise Unsupported("max")

    def c_b__min(self, st, a, k):
        if len(a) == 2 and all(isinstance(x, Sc) and x.finite for x in a):
            return Sc(T.ite(T.le(a[0].e, a[1].e), a[0].e, a[1].e))
        raise Unsupported("min")

    def c_b__sum(self, st, a, k):
        it = self.iterate(st, a[0])
        if isinstance(it, Conc):
            r = a[1] if len(a) > 1 else Sc(T.I(0))
            for x in it.items:
                r = self.binop(st, ast.Add, r, x)
            return r
        kk = T.fresh("k")
        v = self.sc(it.elem(kk))
        if not v.finite:
            raise Unsupported("sum of infinite values")
        e = T.toint(v.e)
        if it.guard:
            e = T.ite(it.guard(kk), e, T.num(0, e.sort))
        s = T.bsum(kk, it.lo, it.hi, e)
        return Sc(s if len(a) < 2 else T.add(self.sc(a[1]).e, s))

    def c_warnings__warn(self, st, a, k):
        return None

    # math
    def fin(self, st, v, what):
        return v

    def c_exp(self, st, a, k):
        v = self.sc(a[0])
        e = T.app("EXP", (T.toreal(v.e),), "R") if not T.isnum(v.e, 0) else ONE
        return Sc(T.ite(v.ninf, ZERO, e), v.pinf, FALSE, v.nan)

    def c_expm1(self, st, a, k):
        v = self.sc(a[0])
        e = T.sub(T.app("EXP", (T.toreal(v.e),), "R"), ONE) if not T.isnum(v.e, 0) else ZERO
        return Sc(T.ite(v.ninf, T.R(-1), e), v.pinf, FALSE, v.nan)

    def c_log(self, st, a, k):
        v = self.sc(a[0])
        self.I.oblige(st, "argument of the logarithm is positive", T.or_(v.pinf, T.and_(T.not_(v.special), T.lt(ZERO, T.toreal(v.e)))))
        return Sc(T.app("LOG", (T.toreal(v.e),), "R"), v.pinf, FALSE, v.nan)

    def c_log1p(self, st, a, k):
        v = self.sc(a[0])
        x = T.add(ONE, T.toreal(v.e))
        self.I.oblige(st, "argument of the logarithm is positive", T.or_(v.pinf, T.and_(T.not_(v.special), T.lt(ZERO, x))))
        return Sc(T.app("LOG", (x,), "R"), v.pinf, FALSE, v.nan)

    def c_isinf(self, st, a, k):
        v = a[0]
        if isinstance(v, Sc):
            return B(T.or_(v.pinf, v.ninf))
        return self.map1(st, v, lambda x: B(T.or_(x.pinf, x.ninf)), "b")

    def c_isnan(self, st, a, k):
        v = a[0]
        if isinstance(v, Sc):
            return B(v.nan)
        return self.map1(st, v, lambda x: B(x.nan), "b")

    def c_isfinite(self, st, a, k):
        v = a[0]
        if isinstance(v, Sc):
            return B(T.not_(v.special))
        return self.map1(st, v, lambda x: B(T.not_(x.special)), "b")

    # numpy constructors
    def c_float64(self, st, a, k):
        v = self.sc(a[0])
        return Sc(T.toreal(v.e), v.pinf, v.ninf, v.nan)

    def c_int64(self, st, a, k):
        v = self.sc(a[0])
        if v.sort == "B":
            return Sc(T.toint(v.e))
        if v.sort != "I":
            raise Unsupported("int64 of a real")
        return v

    def shape_of(self, st, v):
        if isinstance(v, Sc):
            return (v.e,)
        if isinstance(v, tuple):
            return tuple(self.sc(x).e for x in v)
        raise Unsupported("shape")

    def c_zeros(self, st, a, k):
        sh = self.shape_of(st, a[0] if a else k["shape"])
        kind = self.kind_of(a[1] if len(a) > 1 else k.get("dtype"))
        z = {"f": Sc(ZERO), "i": Sc(T.I(0)), "b": Sc(FALSE)}[kind]
        return self.I.alloc(st, Arr(sh, lambda ix: z, kind, meta="zeros"))

    def c_ones(self, st, a, k):
        sh = self.shape_of(st, a[0] if a else k["shape"])
        kind = self.kind_of(a[1] if len(a) > 1 else k.get("dtype"))
        z = {"f": Sc(ONE), "i": Sc(T.I(1)), "b": Sc(TRUE)}[kind]
        return self.I.alloc(st, Arr(sh, lambda ix: z, kind, meta="ones"))

    def c_empty(self, st, a, k):
        sh = self.shape_of(st, a[0] if a else k["shape"])
        kind = self.kind_of(a[1] if len(a) > 1 else k.get("dtype"))
        nm = "uninit!%d" % new_addr()
        srt = {"f": "R", "i": "I", "b": "B"}[kind]
        return self.I.alloc(st, Arr(sh, lambda ix: Sc(T.app(nm, ix, srt)), kind))

    def c_zeros_like(self, st, a, k):
        r = self.arr(st, a[0])
        return self.c_zeros(st, [tuple(Sc(x) for x in r.shape)], {})

    def c_full(self, st, a, k):
        sh = self.shape_of(st, a[0])
        v = self.sc(a[1])
        return self.I.alloc(st, Arr(sh, lambda ix: v, {"B": "b", "I": "i"}.get(v.sort, "f")))

    def c_arange(self, st, a, k):
        if len(a) == 1:
            n = self.sc(a[0]).e
            return self.I.alloc(st, Arr((n,), lambda ix: Sc(ix[0]), "i"))
        raise Unsupported("arange")

    def c_array(self, st, a, k):
        v = a[0]
        r = self.I.rec(st, v)
        w = self.row_width(r.segs) if isinstance(r, Lst) else None
        if w is not None and not k and len(a) == 1:
            n = seg_sum(zip_segs([r.segs]), lambda els: (TRUE, T.I(1)))

            def no(ix):
                raise Unsupported("position in a list filled under conditions")
            return self.I.alloc(st, Arr((n, w), no, "f", ("rows", r.segs, False)))
        if isinstance(r, Lst):
            x = self.lst_arr(st, r)
        elif isinstance(r, Arr) or isinstance(v, View):
            x = self.arr(st, v)
        elif isinstance(v, tuple) and all(isinstance(q, Sc) for q in v):
            x = self.lst_arr(st, Lst([("el", q) for q in v]))
        elif isinstance(v, Sc):
            raise Unsupported("0-d array")
        else:
            raise Unsupported("np.array of %s" % type(r).__name__)
        x = Arr(x.shape, x.fn, x.kind)
        if "dtype" in k or len(a) > 1:
            x = self.cast(x, self.kind_of(k.get("dtype", a[1] if len(a) > 1 else None)))
        return self.I.alloc(st, x)

    c_asarray = c_array

    def row_width(self, segs):
        """Width of the rows of a list of vectors filled under conditions."""
        def leaf(segs, deep):
            for x in segs:
                if x[0] == "el":
                    yield x[1] if deep else None
                elif x[0] == "if":
                    yield from leaf(x[2], True)
                elif x[0] == "for":
                    yield from leaf(x[5], True)
                else:
                    yield None
        ws = [v.shape[0] if isinstance(v, Arr) and len(v.shape) == 1 and v.shape[0].op == "num" else None for v in leaf(segs, False)]
        return ws[0] if ws and ws[0] is not None and all(w is ws[0] for w in ws) else None

    def row_col(self, st, r, c):
        def go(segs):
            return tuple(("el", x[1].fn((c,))) if x[0] == "el" else ("if", x[1], go(x[2])) if x[0] == "if" else x[:5] + (go(x[5]),) for x in segs)
        return self.I.alloc(st, Arr((r.shape[0],), r.fn, "f", ("segs", go(r.meta[1]))))

    def c_copy(self, st, a, k):
        x = self.arr(st, a[0])
        return self.I.alloc(st, Arr(x.shape, x.fn, x.kind))

    def c_sum(self, st, a, k):
        return self.np_sum(st, a[0], a[1] if len(a) > 1 else k.get("axis"))

    def np_sum(self, st, v, axis=None):
        if isinstance(v, SpPart):
            kk = T.fresh("k")
            vec = v.vec
            body = vec.sv(kk) if v.part == "val" else Sc(kk)
            if not body.finite:
                raise Unsupported("sum of possibly infinite values")
            body = body.e
            return Sc(T.bsum(kk, T.I(0), vec.n, T.ite(vec.sup(kk), body, T.num(0, body.sort))))
        a = self.arr(st, v)
        if axis is None:
            ks = [T.fresh("k") for _ in a.shape]
            x = a.fn(tuple(ks))
            if not isinstance(x, Sc):
                raise Unsupported("sum of objects")
            hy = St(pc=st.pc + tuple(T.and_(T.le(T.I(0), i), T.lt(i, n)) for i, n in zip(ks, a.shape)))
            if not x.finite and P.valid(self.I.hyps(hy), T.not_(x.special)) != "proved":
                raise Unsupported("sum of possibly infinite values")
            e = T.toint(x.e)
            for kk, n in zip(reversed(ks), reversed(a.shape)):
                e = T.bsum(kk, T.I(0), n, e)
            return Sc(e)
        if isinstance(axis, tuple):
            for ax in sorted({I_int(x) % len(a.shape) for x in axis}, reverse=True):
                v = self.np_sum(st, v, Sc(T.I(ax)))
            return v
        ax = I_int(axis)
        if ax < 0:
            ax += len(a.shape)
        if len(a.shape) == 1:
            return self.np_sum(st, v)
        n = a.shape[ax]
        sh = a.shape[:ax] + a.shape[ax + 1:]

        def fn(ix):
            kk = T.fresh("k")
            x = a.fn(tuple(ix[:ax]) + (kk,) + tuple(ix[ax:]))
            if not x.finite:
                raise Unsupported("sum of possibly infinite values")
            return Sc(T.bsum(kk, T.I(0), n, T.toint(x.e)))
        return self.I.alloc(st, Arr(sh, fn, "f" if a.kind == "f" else "i"))

    def c_abs(self, st, a, k):
        return self.absv(st, a[0])

    c_absolute = c_fabs = c_abs

    def quant(self, st, v, which, axis=None):
        if axis is not None:
            raise Unsupported("any/all along an axis")
        if isinstance(v, Sc):
            return B(self.I.truth(v, st))
        if isinstance(v, CsrPart) and v.part == "map":
            i, j, c = T.fresh("i"), T.fresh("j"), v.csr
            x, m = self.I.truth(v.fn(i, j), st), c.mem(i, j)
            if which == "any":
                return B(T.ex(i, T.I(0), c.nmaj, T.ex(j, T.I(0), c.nmin, T.and_(m, x))))
            return B(T.all_(i, T.I(0), c.nmaj, T.all_(j, T.I(0), c.nmin, T.implies(m, x))))
        if isinstance(v, SpMask):
            return B(v.vec.sup(v.i)) if which == "any" else Unsupported
        if isinstance(v, tuple) and v and v[0] == "spcmp":
            _, op, x, y = v
            if isinstance(x, SpSel):
                c = self.cmp_sc(op, x.vec.sv(x.i), y)
                s = x.vec.sup(x.i)
                return B(T.and_(s, c) if which == "any" else T.implies(s, c))
            if isinstance(x, SpPart) and x.part == "val":
                kk = T.fresh("k")
                c = self.cmp_sc(op, x.vec.sv(kk), y)
                s = x.vec.sup(kk)
                if which == "any":
                    return B(T.ex(kk, T.I(0), x.vec.n, T.and_(s, c)))
                return B(T.all_(kk, T.I(0), x.vec.n, T.implies(s, c)))
        if isinstance(v, Masked):
            a, m = v.arr, v.mask
        else:
            a, m = self.arr(st, v), None
        ks = [T.fresh("k") for _ in a.shape]
        x = self.I.truth(a.fn(tuple(ks)), st)
        if m is not None:
            c = m.fn((ks[0],)).e
            x = T.and_(c, x) if which == "any" else T.implies(c, x)
        for kk, n in zip(reversed(ks), reversed(a.shape)):
            x = T.ex(kk, T.I(0), n, x) if which == "any" else T.all_(kk, T.I(0), n, x)
        return B(x)

    def c_any(self, st, a, k):
        return self.quant(st, a[0], "any", k.get("axis"))

    def c_all(self, st, a, k):
        return self.quant(st, a[0], "all", k.get("axis"))

    def c_count_nonzero(self, st, a, k):
        v = self.arr(st, a[0])
        m = Arr(v.shape, lambda ix: Sc(T.toint(self.I.truth(v.fn(ix), st))), "i")
        return self.np_sum(st, self.I.alloc(st, m))

    def c_diagonal(self, st, a, k):
        v = self.arr(st, a[0])
        if len(a) > 1 or set(k) - {"axis1", "axis2"}:
            raise Unsupported("diagonal")
        x, y = I_int(k.get("axis1", Sc(T.I(0)))), I_int(k.get("axis2", Sc(T.I(1))))
        x, y = sorted((x % len(v.shape), y % len(v.shape)))
        if len(v.shape) < 2 or x == y:
            raise Unsupported("diagonal")
        rest = [d for d in range(len(v.shape)) if d not in (x, y)]
        if v.shape[x] is not v.shape[y]:
            self.I.oblige(st, "square matrix", T.eq(v.shape[x], v.shape[y]))

        def fn(ix):
            full = [None] * len(v.shape)
            for d, i in zip(rest, ix):
                full[d] = i
            full[x] = full[y] = ix[-1]
            return v.fn(tuple(full))
        return self.I.alloc(st, Arr(tuple(v.shape[d] for d in rest) + (v.shape[x],), fn, v.kind))

    def c_diag(self, st, a, k):
        v = self.arr(st, a[0])
        if len(v.shape) != 2 or len(a) > 1 or k:
            raise Unsupported("diag")
        return self.c_diagonal(st, a, k)

    def c_where(self, st, a, k):
        if len(a) == 1:
            if isinstance(a[0], SpMask):
                return (a[0],)
            m = self.arr(st, a[0])
            if len(m.shape) == 1 and m.kind == "b":
                return (Where(m),)
        raise Unsupported("where")

    def c_nonzero(self, st, a, k):
        return self.c_where(st, a, k)

    def c_issubdtype(self, st, a, k):
        of = {"numpy.number": "fi", "numpy.integer": "i", "numpy.floating": "f", "numpy.bool_": "b"}
        if isinstance(a[0], DType) and a[0].name in ("f", "i", "b") and isinstance(a[1], Ext) and a[1].path in of:
            return B(TRUE if a[0].name in of[a[1].path] else FALSE)
        raise Unsupported("dtype test")

    def c_maximum(self, st, a, k):
        raise Unsupported("maximum")

    # random draws: an unconstrained value per execution of the site
    def draw(self, st, kind, args):
        nm = "%s!%d" % (kind, new_addr())
        lv = tuple(self.I.loopvars)
        e = T.app(nm, lv + tuple(args), "R")
        return e

    def uniform(self, st, a, k):
        if a or k:
            raise Unsupported("vector of draws")
        u = self.draw(st, "U", ())
        P.FACTS[u.args[0]] = lambda e: [T.le(ZERO, e), T.lt(e, ONE)]
        return Sc(u)

    def c_numpy__random__random(self, st, a, k):
        return self.uniform(st, a, k)

    def c_numpy__random__rand(self, st, a, k):
        return self.uniform(st, a, k)

    def c_numpy__random__exponential(self, st, a, k):
        v = self.sc(a[0])
        if not v.finite:
            raise Unsupported("infinite scale")
        return Sc(self.draw(st, "EXPO", (T.toreal(v.e),)))

    def c_numpy__random__geometric(self, st, a, k):
        v = self.sc(a[0])
        return Sc(self.draw(st, "GEO", (T.toreal(v.e),)))

    # numba / scipy
    def c_numba__typed__List(self, st, a, k):
        if a:
            return self.c_b__list(st, a, k)
        return self.I.alloc(st, Lst())

    def c_scipy__sparse__issparse(self, st, a, k):
        v = a[0]
        for h in self.isinst_hooks:
            r = h(st, v, "sparse")
            if r is not None:
                return B(r)
        return B(FALSE)


def whole(x):
    """The integer a real term is, or None."""
    if x.op == "toreal":
        return x.args[0]
    if x.op == "num":
        return T.I(x.args[0]) if x.args[0].denominator == 1 else None
    if x.op == "ite":
        a, b = whole(x.args[1]), whole(x.args[2])
        return None if a is None or b is None else T.ite(x.args[0], a, b)
    return None


def I_int(v):
    if isinstance(v, Sc) and v.e.op == "num":
        return int(v.e.args[0])
    raise Unsupported("concrete integer expected")


def has_ref(v):
    return isinstance(v, Ref) or isinstance(v, tuple) and any(has_ref(x) for x in v)


def sub_deep(I, st, v, m):
    """Substitution in a value and in the lists and arrays it refers to (new
    copies: an element that is changed in place is out of reach)."""
    if isinstance(v, tuple):
        return tuple(sub_deep(I, st, x, m) for x in v)
    if isinstance(v, Ref):
        r = st.heap[v.addr]
        if isinstance(r, Lst):
            return I.alloc(st, Lst(segs_sub(r.segs, m)))
        if isinstance(r, Arr):
            meta = ("segs", segs_sub(r.meta[1], m)) if isinstance(r.meta, tuple) and r.meta[0] == "segs" else r.meta if r.meta == "ones" else None
            return I.alloc(st, Arr(tuple(T.subst(x, m) for x in r.shape), lambda ix: sub_value(r.fn(ix), m), r.kind, meta))
        raise Unsupported("list of objects")
    return sub_value(v, m)


def segs_sub(segs, m):
    out = []
    for x in segs:
        if x[0] == "el":
            if has_ref(x[1]):
                raise Unsupported("list of objects")
            out.append(("el", sub_value(x[1], m)))
        elif x[0] == "if":
            out.append(("if", T.subst(x[1], m), segs_sub(x[2], m)))
        elif x[0] == "for":
            out.append(("for", x[1], T.subst(x[2], m), T.subst(x[3], m), T.subst(x[4], m), segs_sub(x[5], m)))
        else:
            raise Unsupported("substitution in a list")
    return tuple(out)


def sub_value(v, m):
    if isinstance(v, Sc):
        return sub_sc(v, m)
    if isinstance(v, Op):
        return Op(T.subst(v.e, m), v.meta)
    if isinstance(v, tuple):
        return tuple(sub_value(x, m) for x in v)
    if isinstance(v, View):
        return View(v.base, tuple(T.subst(x, m) for x in v.shape), lambda ix: tuple(T.subst(x, m) for x in v.imap(ix)))
    if isinstance(v, (str, type(None), Ref)):
        return v
    if isinstance(v, Arr):
        return Arr(tuple(T.subst(x, m) for x in v.shape), lambda ix: sub_value(v.fn(ix), m), v.kind)
    if hasattr(v, "subst"):
        return v.subst(m)
    raise Unsupported("substitution in %s" % type(v).__name__)


def zip_segs(lists):
    """Zip lists with the same segment structure: ('els', [values]) etc."""
    n = len(lists[0])
    if any(len(l) != n for l in lists):
        raise Unsupported("lists built differently")
    out = []
    for i in range(n):
        ss = [l[i] for l in lists]
        t = ss[0][0]
        if any(s[0] != t for s in ss):
            raise Unsupported("lists built differently")
        if t == "el":
            out.append(("els", [s[1] for s in ss]))
        elif t == "if":
            if any(s[1] is not ss[0][1] for s in ss):
                raise Unsupported("lists built differently")
            out.append(("if", ss[0][1], zip_segs([s[2] for s in ss])))
        elif t == "for":
            if any(s[1:5] != ss[0][1:5] for s in ss):
                raise Unsupported("lists built differently")
            out.append(("for",) + tuple(ss[0][1:5]) + (zip_segs([s[5] for s in ss]),))
        else:
            raise Unsupported("list segment " + t)
    return out


def seg_subst(tab, m):
    out = []
    for s in tab:
        if s[0] == "els":
            out.append(("els", [sub_value(v, m) for v in s[1]]))
        elif s[0] == "if":
            out.append(("if", T.subst(s[1], m), seg_subst(s[2], m)))
        else:
            out.append(("for", s[1], T.subst(s[2], m), T.subst(s[3], m), T.subst(s[4], m), seg_subst(s[5], m)))
    return out


def seg_coord(tab, k, n):
    """Coordinate below n that equals the loop counter k in every element."""
    good = set(range(n))
    for s in tab:
        if s[0] == "els":
            good &= {d for d in range(n) if isinstance(s[1][d], Sc) and T.toint(s[1][d].e) is k}
        else:
            c = seg_coord(s[2] if s[0] == "if" else s[5], k, n)
            good &= c
    return good


def seg_pick(tab, x, f):
    """Sum of f(els) over the elements whose leading coordinates are x; a loop
    whose counter is a coordinate contributes exactly the iteration x."""
    acc = []
    n = len(x)
    for s in tab:
        if s[0] == "els":
            v = f(s[1])
            acc.append(T.ite(T.and_(*[T.eq(T.toint(a.e), t) for a, t in zip(s[1], x)]), v, T.num(0, v.sort)))
        elif s[0] == "if":
            v = seg_pick(s[2], x, f)
            acc.append(T.ite(s[1], v, T.num(0, v.sort)))
        else:
            _, k, lo, hi, g, sub = s
            c = seg_coord(sub, k, n)
            if c:
                t = x[min(c)]
                v = seg_pick(seg_subst(sub, {k: t}), x, f)
                m = {k: t}
                acc.append(T.ite(T.and_(T.le(lo, t), T.lt(t, hi), T.subst(g, m)), v, T.num(0, v.sort)))
            else:
                v = seg_pick(sub, x, f)
                acc.append(one_point(k, lo, hi, T.ite(g, v, T.num(0, v.sort))))
    return T.add(*acc) if acc else T.I(0)


def one_point(k, lo, hi, e):
    """sum over k of e, where e vanishes unless k equals a fixed term."""
    gs, b = [], e
    while b.op == "ite" and (T.isnum(b.args[2], 0) or T.isnum(b.args[1], 0)):
        c, b = (b.args[0], b.args[1]) if T.isnum(b.args[2], 0) else (T.not_(b.args[0]), b.args[2])
        gs += P.conj(c)
    for l in gs:
        t = P.solve_for(l, k) if l.op == "eq" else None
        if t is not None and k not in t.fv:
            m = {k: t}
            return T.ite(T.and_(T.le(lo, t), T.lt(t, hi), *[T.subst(g, m) for g in gs]), T.subst(b, m), T.num(0, e.sort))
    return T.bsum(k, lo, hi, e)


def seg_sum(tab, f, sort=None):
    """Sum over all elements of f(els) -> (condition, value)."""
    acc = []
    for s in tab:
        if s[0] == "els":
            c, v = f(s[1])
            acc.append(T.ite(c, v, T.num(0, v.sort)))
        elif s[0] == "if":
            v = seg_sum(s[2], f)
            acc.append(T.ite(s[1], v, T.num(0, v.sort)))
        else:
            _, k, lo, hi, g, sub = s
            v = seg_sum(sub, f)
            acc.append(T.bsum(k, lo, hi, T.ite(g, v, T.num(0, v.sort))))
    return T.add(*acc) if acc else T.I(0)
