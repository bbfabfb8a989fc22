"""Values of the symbolic executor."""
import itertools
from . import terms as T
from .terms import E, TRUE, FALSE


class Unsupported(Exception):
    pass


class Sc:
    """Scalar: real/int/bool term, plus flags for the IEEE special values."""
    __slots__ = ("e", "pinf", "ninf", "nan")

    def __init__(self, e, pinf=FALSE, ninf=FALSE, nan=FALSE):
        self.e, self.pinf, self.ninf, self.nan = e, pinf, ninf, nan

    @property
    def sort(self):
        return self.e.sort

    @property
    def finite(self):
        return self.pinf is FALSE and self.ninf is FALSE and self.nan is FALSE

    @property
    def special(self):
        return T.or_(self.pinf, self.ninf, self.nan)

    def __repr__(self):
        if self.finite:
            return "Sc(%s)" % self.e
        return "Sc(%s;+%s;-%s;n%s)" % (self.e, self.pinf, self.ninf, self.nan)


def sub_sc(s, m):
    return Sc(T.subst(s.e, m), T.subst(s.pinf, m), T.subst(s.ninf, m), T.subst(s.nan, m))


class Op:
    """Opaque element (uninterpreted sort)."""
    __slots__ = ("e", "meta")

    def __init__(self, e, meta=None):
        self.e, self.meta = e, meta

    def __repr__(self):
        return "Op(%s)" % self.e


class Ref:
    __slots__ = ("addr",)

    def __init__(self, addr):
        self.addr = addr

    def __eq__(self, o):
        return isinstance(o, Ref) and o.addr == self.addr

    def __hash__(self):
        return hash(("ref", self.addr))

    def __repr__(self):
        return "Ref(%d)" % self.addr


class View:
    """Live view of an array: index map into the base."""

    def __init__(self, base, shape, imap, inv=None):
        self.base, self.shape, self.imap, self.inv = base, shape, imap, inv


class Arr:
    """Immutable array record on the heap."""
    __slots__ = ("shape", "fn", "kind", "meta")

    def __init__(self, shape, fn, kind="f", meta=None):
        self.shape, self.fn, self.kind, self.meta = tuple(shape), fn, kind, meta


class Masked:
    """arr[mask] for a boolean mask on the leading axis."""

    def __init__(self, arr, mask, tr=False):
        self.arr, self.mask, self.tr = arr, mask, tr


class Lst:
    """List record: segments."""
    __slots__ = ("segs",)

    def __init__(self, segs=()):
        self.segs = tuple(segs)


# segments: ("el", v) ("if", cond, segs) ("for", k, lo, hi, guard, segs) ("ph", name)

class Dct:
    """Dictionary record: total map with default 0 outside the present keys,
    keys are tuples of integer terms; or a concrete python dict."""
    __slots__ = ("fn", "pres", "arity", "conc", "ph")

    def __init__(self, fn=None, pres=None, arity=None, conc=None, ph=None):
        self.fn, self.pres, self.arity, self.conc, self.ph = fn, pres, arity, conc, ph


class Inst:
    """Object record: fields name -> (presence condition, value)."""
    __slots__ = ("cls", "fields")

    def __init__(self, cls, fields=None):
        self.cls, self.fields = cls, dict(fields or {})


class Maybe:
    """Variable that is bound only on some of the joined paths."""

    def __init__(self, cond, v):
        self.cond, self.v = cond, v


class Opt:
    """None when the condition holds, v otherwise."""

    def __init__(self, none, v):
        self.none, self.v = none, v


class Poison:
    def __init__(self, why):
        self.why = why


class Fn:
    """Python function of the code under verification."""

    def __init__(self, node, mod, cls=None, qual=None, self_=None, closure=None, defaults=None):
        self.node, self.mod, self.cls, self.qual = node, mod, cls, qual
        self.self_, self.closure, self.defaults = self_, closure, defaults

    def __repr__(self):
        return "Fn(%s)" % self.qual


class Builtin:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return "Builtin(%s)" % self.name


class Cls:
    def __init__(self, name, node, mod):
        self.name, self.node, self.mod = name, node, mod
        self.bases = []
        self.methods = {}
        self.mro = None

    def __repr__(self):
        return "Cls(%s)" % self.qual

    @property
    def qual(self):
        return self.mod.name + "." + self.name


class Mod:
    def __init__(self, name):
        self.name = name
        self.names = {}
        self.stars = []


class Ext:
    """Name of an external module / attribute path, resolved by the library."""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "Ext(%s)" % self.path


class Iter:
    """Iteration space: k in [lo,hi) with guard(k), element(k)."""

    def __init__(self, lo, hi, elem, guard=None):
        self.lo, self.hi, self.elem, self.guard = lo, hi, elem, guard


class SeqIter:
    """Iteration over lists filled under conditions, position by position."""

    def __init__(self, parts, tup=False, enum=False):
        self.parts, self.tup, self.enum = list(parts), tup, enum

    def __getattr__(self, name):
        raise Unsupported("iteration over a list")


class Conc:
    """Concrete finite iteration."""

    def __init__(self, items):
        self.items = list(items)


class SymFun:
    """Symbolic function argument: handler(interp, st, args) -> value."""

    def __init__(self, name, handler):
        self.name, self.handler = name, handler


class Csr:
    """Compressed matrix (rows or columns): membership and value functions of
    (major, minor)."""

    def __init__(self, name, nmaj, nmin, mem, val, fmt="csr"):
        self.name, self.nmaj, self.nmin, self.mem, self.val, self.fmt = name, nmaj, nmin, mem, val, fmt
        self.memo = {}

    def subst(self, m):
        """The matrix with loop variables replaced (the same object for the
        same replacement, so that its parts stay together)."""
        key = tuple(sorted(((k.id, v.id) for k, v in m.items())))
        r = self.memo.get(key)
        if r is None:
            def val(i, j):
                v = self.val(i, j)
                return sub_sc(v, m) if isinstance(v, Sc) else T.subst(v, m)
            r = Csr("%s@%s" % (self.name, key), T.subst(self.nmaj, m), T.subst(self.nmin, m),
                    lambda i, j: T.subst(self.mem(i, j), m), val, self.fmt)
            r.zero_outside = getattr(self, "zero_outside", False)
            if getattr(self, "count", None):
                r.count = lambda i, j: T.subst(self.count(i, j), m)
            self.memo[key] = r
        return r


class CsrPart:
    """One of the stored sequences; part "map" is a sequence computed entry by
    entry from the stored ones."""

    def __init__(self, csr, part, fn=None):
        self.csr, self.part, self.fn = csr, part, fn


class CsrRow:
    def __init__(self, csr, row, part, fn=None):
        self.csr, self.row, self.part, self.fn = csr, row, part, fn

    def at(self, k):
        if self.part == "indices":
            return Sc(k)
        if self.part == "data":
            v = self.csr.val(self.row, k)
            return v if isinstance(v, Sc) else Sc(v)
        return self.fn(self.row, k)



class SpVec:
    """Sparse vector of dimension n: support, value; parts labels/values.
    Positions: labels strictly increasing; key = extra index terms."""

    def __init__(self, name, n, sup, val, key=()):
        self.name, self.n, self.sup, self.val, self.key = name, n, sup, val, tuple(key)
        self.nnz = T.app("nnz:" + name, self.key, "I")

    def sv(self, k):
        v = self.val(k)
        return v if isinstance(v, Sc) else Sc(v)

    def pair(self):
        return (SpPart(self, "lbl"), SpPart(self, "val"))


class SpPart:
    def __init__(self, vec, part):
        self.vec, self.part = vec, part


class SpMask:
    def __init__(self, vec, i):
        self.vec, self.i = vec, i


class SpSel:
    """vals[labels == i]"""

    def __init__(self, vec, i):
        self.vec, self.i = vec, i


class SpList:
    """List of sparse vectors indexed by an integer."""

    def __init__(self, n, get):
        self.n, self.get = n, get


class St:
    __slots__ = ("env", "heap", "pc", "ret")

    def __init__(self, env=None, heap=None, pc=()):
        self.env, self.heap, self.pc = dict(env or {}), dict(heap or {}), tuple(pc)

    def copy(self):
        return St(self.env, self.heap, self.pc)

    def assume(self, c):
        s = self.copy()
        if c is not TRUE:
            s.pc = self.pc + (c,)
        return s


class Out:
    """Outcome of a statement: kind normal/return/raise/break/continue."""
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val

    def __repr__(self):
        return "Out(%s,%s)" % (self.kind, self.val)


_addr = itertools.count(1)


def new_addr():
    return next(_addr)


class Args(list):
    """Positional arguments of a library call; remembers which were read."""

    def __init__(self, a):
        list.__init__(self, a)
        self.read = set()

    def __getitem__(self, k):
        n = len(self)
        self.read.update(range(n)[k] if isinstance(k, slice) else [range(n)[k]])
        return list.__getitem__(self, k)

    def __iter__(self):
        self.read.update(range(len(self)))
        return list.__iter__(self)

    def __add__(self, o):
        return list(iter(self)) + list(o)

    def __radd__(self, o):
        return list(o) + list(iter(self))


class Kw(dict):
    """Keyword arguments of a library call; remembers which were read."""

    def __init__(self, k):
        dict.__init__(self, k)
        self.read = set()

    def __getitem__(self, k):
        self.read.add(k)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        self.read.add(k)
        return dict.get(self, k, d)

    def pop(self, k, *d):
        self.read.add(k)
        return dict.pop(self, k, *d)

    def __contains__(self, k):
        self.read.add(k)
        return dict.__contains__(self, k)

    def __iter__(self):
        self.read.update(dict.keys(self))
        return dict.__iter__(self)

    def keys(self):
        self.read.update(dict.keys(self))
        return dict.keys(self)

    def items(self):
        self.read.update(dict.keys(self))
        return dict.items(self)
