"""Symbolic executor for the functions of graph-ensembles.

The functions are taken from /repo's source by `ast` on every run; nothing is
copied by hand.  What the extraction drops: docstrings, decorators (`jit`,
`staticmethod`, `jitclass`), type information (numba's typing and dtypes: all
arithmetic is over mathematical integers and extended reals), warnings, and
printed output.  Anything outside the supported subset raises Unsupported and
the obligation is reported as undecided, never as proved."""
import ast
import itertools
import os
from fractions import Fraction
from . import terms as T
from . import prover as P
from .terms import TRUE, FALSE, E
from .values import *

PKG = "graph_ensembles"


class Diverge(Exception):
    """No normal continuation of the current expression."""


class Pending(Exception):
    pass


EXC = {"ValueError": ("Exception",), "TypeError": ("Exception",), "AssertionError": ("Exception",),
       "AttributeError": ("Exception",), "IndexError": ("LookupError", "Exception"), "KeyError": ("LookupError", "Exception"),
       "ZeroDivisionError": ("ArithmeticError", "Exception"), "NotImplementedError": ("RuntimeError", "Exception"),
       "RuntimeError": ("Exception",), "Exception": ()}


def same_vec(a, b):
    return a is b or (a.name == b.name and a.key == b.key)


class Exc:
    def __init__(self, name, msg=None):
        self.name, self.msg = name, msg

    def __repr__(self):
        return "Exc(%s)" % self.name


def num(x, sort=None):
    if isinstance(x, bool):
        return Sc(TRUE if x else FALSE)
    if isinstance(x, int):
        return Sc(T.I(x))
    if isinstance(x, float):
        if x == float("inf"):
            return Sc(T.R(0), pinf=TRUE)
        return Sc(T.R(Fraction(repr(x))))
    raise Unsupported("constant %r" % (x,))


def as_int(v):
    """Value -> python int if it is a concrete integer."""
    if isinstance(v, Sc) and v.e.op == "num" and v.finite and v.e.args[0].denominator == 1:
        return int(v.e.args[0])
    return None


class Interp:
    def __init__(self, repo, overrides=None):
        self.root = os.path.join(repo, "src", PKG)
        self.mods = {}
        self.resolving = set()
        self.opt_merge = False
        self.over = dict(overrides or {})
        self.cuts = []              # loops over the iterates of a declared recursion
        self.watch = {}             # qualified name -> its (state, result) pairs
        self.obl = []            # safety obligations (name, hyps, goal)
        self.pend = []
        self.loopvars = []
        self.lossy = False
        self.inexact = False     # facts were dropped: refutations are not reported
        self.stack = []
        self.used = {}           # qualname -> inlined | contract
        self.trace = []
        self.facts = []          # global hypotheses (e.g. about symbols)
        self.safety = True
        self.maxdepth = 40
        from . import lib
        self.lib = lib.LIB(self)

    # ------------------------------------------------------------- modules
    def module(self, dotted):
        """dotted name relative to the package ('' is the package itself)."""
        if dotted in self.mods:
            return self.mods[dotted]
        p = os.path.join(self.root, *dotted.split(".")) if dotted else self.root
        f = p + ".py" if os.path.exists(p + ".py") else os.path.join(p, "__init__.py")
        if not os.path.exists(f):
            raise Unsupported("module " + dotted)
        m = Mod(dotted)
        m.file = f
        m.is_pkg = f.endswith("__init__.py")
        self.mods[dotted] = m
        tree = ast.parse(open(f).read())
        for s in tree.body:
            self.load_stmt(m, s)
        return m

    def load_stmt(self, m, s):
        if isinstance(s, ast.Import):
            for a in s.names:
                m.names[a.asname or a.name.split(".")[0]] = Ext(a.name if a.asname else a.name.split(".")[0])
        elif isinstance(s, ast.ImportFrom):
            if s.level:
                base = m.name.split(".") if m.name else []
                up = s.level - (1 if m.is_pkg else 0)
                base = base[:len(base) - up] if up else base
                if s.level - (1 if m.is_pkg else 0) > len(m.name.split(".") if m.name else []):
                    base = []
                src = ".".join(base + (s.module.split(".") if s.module else []))
                for a in s.names:
                    if a.name == "*":
                        m.stars.append(src)
                    else:
                        m.names[a.asname or a.name] = ("lazy", src, a.name)
            elif s.module and s.module.split(".")[0] == PKG:
                src = ".".join(s.module.split(".")[1:])
                for a in s.names:
                    m.names[a.asname or a.name] = ("lazy", src, a.name)
            else:
                for a in s.names:
                    m.names[a.asname or a.name] = Ext(s.module + "." + a.name)
        elif isinstance(s, ast.FunctionDef):
            m.names[s.name] = Fn(s, m, qual=self.q(m, s.name))
        elif isinstance(s, ast.ClassDef):
            c = Cls(s.name, s, m)
            for b in s.body:
                if isinstance(b, ast.FunctionDef):
                    f = Fn(b, m, cls=c, qual=self.q(m, s.name) + "." + b.name)
                    f.static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in b.decorator_list)
                    f.prop = any(isinstance(d, ast.Name) and d.id == "property" for d in b.decorator_list)
                    c.methods[b.name] = f
                elif isinstance(b, ast.Assign):
                    for t in b.targets:
                        if isinstance(t, ast.Name):
                            c.methods[t.id] = ("const", b.value)
            m.names[s.name] = c
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    m.names[t.id] = ("expr", s.value)
        elif isinstance(s, (ast.If, ast.Try)):
            for b in s.body:
                self.load_stmt(m, b)

    def q(self, m, n):
        return (m.name + "." if m.name else "") + n

    def mod_name(self, m, n):
        v = m.names.get(n)
        if v is None:
            # star imports (latest first), then a sub-module of a package
            if m.stars and not n.startswith("_") and (m.name, n) not in self.resolving:
                self.resolving.add((m.name, n))
                try:
                    for src in reversed(m.stars):
                        try:
                            r = self.mod_name(self.module(src), n)
                        except Unsupported:
                            r = None
                        if r is not None:
                            m.names[n] = r
                            return r
                finally:
                    self.resolving.discard((m.name, n))
            if m.is_pkg:
                try:
                    return self.module((m.name + "." if m.name else "") + n)
                except Unsupported:
                    return None
            return None
        if isinstance(v, tuple) and v and v[0] == "lazy":
            src = self.module(v[1])
            r = self.mod_name(src, v[2])
            if r is None:
                raise Unsupported("import %s from %s" % (v[2], v[1]))
            m.names[n] = r
            return r
        if isinstance(v, tuple) and v and v[0] == "expr":
            st = St()
            r = self.eval(v[1], st, m)
            m.names[n] = r
            return r
        return v

    def cls(self, dotted):
        mod, _, name = dotted.rpartition(".")
        c = self.mod_name(self.module(mod), name)
        if not isinstance(c, Cls):
            raise Unsupported("class " + dotted)
        return c

    def mro(self, c):
        if c.mro is None:
            bases = []
            for b in c.node.bases:
                v = self.eval(b, St(), c.mod)
                if isinstance(v, Cls):
                    bases.append(v)
                elif isinstance(v, Ext) or v is object or isinstance(v, Builtin):
                    pass
                else:
                    raise Unsupported("base class")
            # C3 through dummy python types
            seqs = [list(self.mro(b)) for b in bases] + [list(bases)]
            res = [c]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    raise Unsupported("mro")
                res.append(h)
                for s in seqs:
                    if s[0] is h:
                        del s[0]
            c.mro = res
        return c.mro

    def find(self, c, name, after=None):
        mro = self.mro(c)
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            if name in k.methods:
                return k.methods[name]
        return None

    def fn(self, dotted):
        """'sparse.models.fitness.FitnessModel.p_ij' resolved through the MRO."""
        parts = dotted.split(".")
        for n in range(len(parts), -1, -1):
            try:
                m = self.module(".".join(parts[:n]))
            except Unsupported:
                continue
            v = m
            rest = parts[n:]
            break
        for r in rest:
            if isinstance(v, Mod):
                v = self.mod_name(v, r)
            elif isinstance(v, Cls):
                v = self.find(v, r)
            if v is None:
                raise Unsupported("no %s" % dotted)
        return v

    # --------------------------------------------------------------- state
    def alloc(self, st, rec):
        a = new_addr()
        st.heap[a] = rec
        return Ref(a)

    def rec(self, st, v):
        if isinstance(v, Ref):
            return st.heap[v.addr]
        return v

    def hyps(self, st):
        return list(self.facts) + list(st.pc)

    def known(self, st, c, timeout=1500):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        return P.valid(self.hyps(st), c, timeout=timeout, depth=0) == "proved"

    def oblige(self, st, name, goal):
        if goal is TRUE or not self.safety:
            return
        self.obl.append((name, tuple(self.hyps(st)), goal))
        # continue under the assumption that the obligation holds
        st.pc = st.pc + (goal,)

    # --------------------------------------------------------------- merge
    def merge_vals(self, c, a, b, sa, sb, so):
        """Value that is a when c, b otherwise; None if incompatible."""
        if a is b:
            return a
        if self.opt_merge:
            r = self.merge_opt(c, a, b, sa, sb, so)
            if r is not None:
                return r
        if isinstance(a, Sc) and isinstance(b, Sc):
            if a.e is b.e and a.finite and b.finite:
                return a
            if {a.sort, b.sort} & {"U"} and a.sort != b.sort:
                return None
            return Sc(T.ite(c, a.e, b.e), T.ite(c, a.pinf, b.pinf), T.ite(c, a.ninf, b.ninf), T.ite(c, a.nan, b.nan))
        if isinstance(a, Op) and isinstance(b, Op):
            return Op(T.ite(c, a.e, b.e))
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.addr == b.addr:
                return a
            ra, rb = sa.heap.get(a.addr), sb.heap.get(b.addr)
            if isinstance(ra, Arr) and isinstance(rb, Arr):
                r = self.merge_recs(c, ra, rb, sa, sb, so)
                if r is None:
                    return None
                return self.alloc(so, r)
            if isinstance(ra, Lst) and isinstance(rb, Lst):
                return self.alloc(so, Lst(self.merge_segs(c, ra.segs, rb.segs)))
            return None
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            out = [self.merge_vals(c, x, y, sa, sb, so) for x, y in zip(a, b)]
            return None if any(o is None and not (x is None and y is None) for o, x, y in zip(out, a, b)) else tuple(out)
        if isinstance(a, (str, type(None))) and isinstance(b, (str, type(None))) and a == b:
            return a
        if isinstance(a, Poison):
            return a
        if isinstance(b, Poison):
            return b
        if isinstance(a, Maybe) or isinstance(b, Maybe):
            ca, va = (a.cond, a.v) if isinstance(a, Maybe) else (TRUE, a)
            cb, vb = (b.cond, b.v) if isinstance(b, Maybe) else (TRUE, b)
            v = self.merge_vals(c, va, vb, sa, sb, so)
            return None if v is None else Maybe(T.ite(c, ca, cb), v)
        if isinstance(a, (Fn, Ext, Cls)) and type(a) is type(b):
            if isinstance(a, Fn) and a.qual == b.qual and a.self_ == b.self_ and a.node is b.node:
                return a
            if isinstance(a, Ext) and a.path == b.path:
                return a
        if isinstance(a, (SpMask, SpSel)) and type(a) is type(b) and a.i is b.i and same_vec(a.vec, b.vec):
            return a
        if isinstance(a, SpPart) and isinstance(b, SpPart) and a.part == b.part and same_vec(a.vec, b.vec):
            return a
        if isinstance(a, CsrRow) and isinstance(b, CsrRow) and a.csr is b.csr and a.row is b.row and a.part == b.part:
            return a
        if isinstance(a, Iter) and isinstance(b, Iter) and getattr(a, "range", False) and getattr(b, "range", False):
            r = Iter(T.ite(c, a.lo, b.lo), T.ite(c, a.hi, b.hi), lambda k: Sc(k))
            r.range = True
            return r
        return None

    def merge_opt(self, c, a, b, sa, sb, so):
        """Joins of None with a value, of a number with a one-element array."""
        from .hoare import cell, as_seq, Seq
        if a is None or b is None or isinstance(a, Opt) or isinstance(b, Opt):
            na, va = (TRUE, None) if a is None else (a.none, a.v) if isinstance(a, Opt) else (FALSE, a)
            nb, vb = (TRUE, None) if b is None else (b.none, b.v) if isinstance(b, Opt) else (FALSE, b)
            if va is None or vb is None:
                v = vb if va is None else va
            else:
                v = self.merge_vals(c, va, vb, sa, sb, so)
            if v is None or isinstance(v, (Poison, Maybe, str)):
                return None
            return Opt(T.ite(c, na, nb), v)
        if isinstance(a, Sc) != isinstance(b, Sc) and isinstance(a, (Sc, Ref)) and isinstance(b, (Sc, Ref)):
            try:
                x, y = cell(self, sa, a), cell(self, sb, b)
            except Unsupported:
                return None
            v = Sc(T.ite(c, T.toreal(x.e), T.toreal(y.e)), T.ite(c, x.pinf, y.pinf), T.ite(c, x.ninf, y.ninf), T.ite(c, x.nan, y.nan))
            return self.alloc(so, Arr((T.I(1),), lambda ix: v))
        if isinstance(a, Ref) and isinstance(b, Ref) and a.addr != b.addr:
            ra, rb = sa.heap.get(a.addr), sb.heap.get(b.addr)
            if isinstance(ra, Inst) and isinstance(rb, Inst) and ra.cls is rb.cls:
                r = self.merge_recs(c, ra, rb, sa, sb, so)
                return self.alloc(so, r)
            if isinstance(ra, Seq) or isinstance(rb, Seq):
                x, y = as_seq(self, sa, a), as_seq(self, sb, b)
                if x is not None and y is not None:
                    return self.alloc(so, Seq(T.ite(c, x.n, y.n), self.merge_vals(c, x.last, y.last, sa, sb, so)))
        return None

    def merge_segs(self, c, x, y):
        n = 0
        while n < len(x) and n < len(y) and (x[n] is y[n] or x[n] == y[n]):
            n += 1
        out = list(x[:n])
        a, b = x[n:], y[n:]
        if len(a) == len(b) and all(s[0] == "el" and isinstance(s[1], Sc) for s in a + b):
            # both branches append as many numbers: conditional elements
            ms = [self.merge_vals(c, s[1], t[1], None, None, None) for s, t in zip(a, b)]
            if all(m is not None for m in ms):
                return tuple(out + [("el", m) for m in ms])
        if x[n:]:
            out.append(("if", c, tuple(x[n:])))
        if y[n:]:
            out.append(("if", T.not_(c), tuple(y[n:])))
        return tuple(out)

    def merge_recs(self, c, a, b, sa, sb, so):
        if a is b:
            return a
        if isinstance(a, Arr) and isinstance(b, Arr):
            if len(a.shape) != len(b.shape):
                return None
            shape = tuple(T.ite(c, x, y) for x, y in zip(a.shape, b.shape))

            def fn(idx, a=a, b=b):
                va, vb = a.fn(idx), b.fn(idx)
                v = self.merge_vals(c, va, vb, sa, sb, so)
                if v is None:
                    raise Unsupported("merge of array elements")
                return v
            return Arr(shape, fn, a.kind if a.kind == b.kind else "f")
        if isinstance(a, Lst) and isinstance(b, Lst):
            return Lst(self.merge_segs(c, a.segs, b.segs))
        if isinstance(a, Dct) and isinstance(b, Dct):
            if a.conc is not None and b.conc is not None:
                if set(a.conc) != set(b.conc):
                    return None
                out = {}
                for k in a.conc:
                    v = self.merge_vals(c, a.conc[k], b.conc[k], sa, sb, so)
                    if v is None and a.conc[k] is not None:
                        return None
                    out[k] = v
                return Dct(conc=out)
            if a.conc == {}:
                a = Dct(lambda k: T.R(0), lambda k: FALSE, b.arity)
            if b.conc == {}:
                b = Dct(lambda k: T.R(0), lambda k: FALSE, a.arity)
            if a.conc is None and b.conc is None:
                return Dct(lambda k: T.ite(c, a.fn(k), b.fn(k)), lambda k: T.ite(c, a.pres(k), b.pres(k)), a.arity)
            return None
        if isinstance(a, Inst) and isinstance(b, Inst) and a.cls is b.cls:
            r = Inst(a.cls)
            for f in list(a.fields) + [x for x in b.fields if x not in a.fields]:
                pa, va = a.fields.get(f, (FALSE, None))
                pb, vb = b.fields.get(f, (FALSE, None))
                pr = T.ite(c, pa, pb)
                if pa is FALSE:
                    v = vb
                elif pb is FALSE:
                    v = va
                else:
                    v = self.merge_vals(c, va, vb, sa, sb, so)
                    if v is None and not (va is None and vb is None):
                        v = Poison("field %s differs" % f)
                if pr is not FALSE:
                    r.fields[f] = (pr, v)
            return r
        return None

    def merge2(self, c, a, b, va, vb, pc):
        """Join states a (when c) and b (otherwise)."""
        so = St(pc=pc)
        # heap
        for ad in set(a.heap) | set(b.heap):
            if ad not in a.heap:
                so.heap[ad] = b.heap[ad]
            elif ad not in b.heap:
                so.heap[ad] = a.heap[ad]
            else:
                x, y = a.heap[ad], b.heap[ad]
                r = self.merge_recs(c, x, y, a, b, so)
                if r is None:
                    return None
                so.heap[ad] = r
        for n in list(a.env) + [x for x in b.env if x not in a.env]:
            if n in a.env and n in b.env:
                x, y = a.env[n], b.env[n]
                if x is None and y is None:
                    so.env[n] = None
                    continue
                v = self.merge_vals(c, x, y, a, b, so)
                if v is None:
                    if not self.lossy:
                        return None
                    v = Poison("differs between the joined paths")
                so.env[n] = v
            elif n in a.env:
                v = a.env[n]
                so.env[n] = Maybe(T.and_(c, v.cond), v.v) if isinstance(v, Maybe) else Maybe(c, v)
            else:
                v = b.env[n]
                nc = T.not_(c)
                so.env[n] = Maybe(T.and_(nc, v.cond), v.v) if isinstance(v, Maybe) else Maybe(nc, v)
        if va is None and vb is None:
            v = None
        else:
            v = self.merge_vals(c, va, vb, a, b, so)
            if v is None:
                return None
        return so, v

    def merge_many(self, base, items):
        """items: [(state, value)], all with pc extending base.  Returns a
        shorter list of (state, value)."""
        if len(items) <= 1:
            return items
        n = len(base)

        def go(its, depth):
            # its: list of (extra, st, v); returns list of same
            if len(its) == 1:
                return its
            # common prefix
            pre = []
            ex = [list(e) for e, _, _ in its]
            while all(x for x in ex) and all(x[0] is ex[0][0] for x in ex):
                pre.append(ex[0][0])
                ex = [x[1:] for x in ex]
            its2 = [(tuple(e), s, v) for e, (_, s, v) in zip(ex, its)]
            r = split(its2)
            return [(tuple(pre) + e, s, v) for e, s, v in r]

        def split(its):
            if len(its) == 1:
                return its
            first = next((e[0] for e, _, _ in its if e), None)
            if first is None:
                # several states under the same condition: cannot order them
                return its
            l = first.args[0] if first.op == "not" else first
            nl = T.not_(l)
            A = [(e[1:], s, v) for e, s, v in its if e and e[0] is l]
            B = [(e[1:], s, v) for e, s, v in its if e and e[0] is nl]
            O = [x for x in its if not (x[0] and (x[0][0] is l or x[0][0] is nl))]
            A = go(A, 0) if A else []
            B = go(B, 0) if B else []
            if O:
                # generic: disjunction guarded by their own conditions
                rest = [((l,) + e, s, v) for e, s, v in A] + [((nl,) + e, s, v) for e, s, v in B] + O
                acc = rest[0]
                out = []
                for e, s, v in rest[1:]:
                    ca, cb = T.and_(*acc[0]), T.and_(*e)
                    m = self.merge2(ca, acc[1], s, acc[2], v, ())
                    if m is None:
                        out.append((e, s, v))
                        continue
                    acc = ((T.or_(ca, cb),), m[0], m[1])
                return [acc] + out
            if len(A) == 1 and len(B) == 1:
                ea, sa, va = A[0]
                eb, sb, vb = B[0]
                m = self.merge2(l, sa, sb, va, vb, ())
                if m is None:
                    return [((l,) + ea, sa, va), ((nl,) + eb, sb, vb)]
                ca, cb = T.and_(*ea), T.and_(*eb)
                extra = () if (ca is TRUE and cb is TRUE) else (T.implies(l, ca), T.implies(nl, cb))
                extra = tuple(x for x in extra if x is not TRUE)
                return [(extra, m[0], m[1])]
            return [((l,) + e, s, v) for e, s, v in A] + [((nl,) + e, s, v) for e, s, v in B]

        its = []
        for s, v in items:
            assert s.pc[:n] == base, "pc prefix"
            its.append((s.pc[n:], s, v))
        res = go(its, 0)
        out = []
        for e, s, v in res:
            s2 = St(s.env, s.heap, base + tuple(x for x in e if x is not TRUE))
            out.append((s2, v))
        return out

    # ---------------------------------------------------------- statements
    def block(self, stmts, st, mod):
        outs = []
        cur = [st]
        base = st.pc
        for s in stmts:
            nxt = []
            for c in cur:
                for o in self.exec(s, c, mod):
                    if o.kind == "normal":
                        nxt.append(o.st)
                    else:
                        outs.append(o)
            if not nxt:
                return outs
            cur = [x for x, _ in self.merge_many(base, [(x, None) for x in nxt])]
            if len(cur) > 24:
                raise Unsupported("too many paths")
        return [Out("normal", c) for c in cur] + outs

    def exec(self, s, st, mod):
        st = st.copy()
        saved, self.pend = self.pend, []
        try:
            try:
                outs = getattr(self, "x_" + type(s).__name__, self.x_unsup)(s, st, mod)
            except Diverge:
                outs = []
            return outs + self.pend
        finally:
            self.pend = saved

    def x_unsup(self, s, st, mod):
        raise Unsupported("statement " + type(s).__name__)

    def x_Pass(self, s, st, mod):
        return [Out("normal", st)]

    def x_Expr(self, s, st, mod):
        if isinstance(s.value, ast.Constant):
            return [Out("normal", st)]
        self.eval(s.value, st, mod)
        return [Out("normal", st)]

    def x_Import(self, s, st, mod):
        for a in s.names:
            st.env[a.asname or a.name.split(".")[0]] = Ext(a.name if a.asname else a.name.split(".")[0])
        return [Out("normal", st)]

    def x_ImportFrom(self, s, st, mod):
        if s.level:
            raise Unsupported("local relative import")
        for a in s.names:
            st.env[a.asname or a.name] = Ext(s.module + "." + a.name)
        return [Out("normal", st)]

    def x_Return(self, s, st, mod):
        v = self.eval(s.value, st, mod) if s.value is not None else None
        return [Out("return", st, v)]

    def x_Raise(self, s, st, mod):
        if s.exc is None:
            e = st.env.get("@exc", Exc("Exception"))
        else:
            e = self.eval(s.exc, st, mod)
            if isinstance(e, Ext) and e.path in EXC:
                e = Exc(e.path)
            if isinstance(e, Builtin) and e.name in EXC:
                e = Exc(e.name)
        if not isinstance(e, Exc):
            raise Unsupported("raise")
        return [Out("raise", st, e)]

    def x_Assert(self, s, st, mod):
        c = self.truth(self.eval(s.test, st, mod), st)
        return self.guard(st, c, Exc("AssertionError"))

    def guard(self, st, c, exc):
        if self.known(st, c):
            return [Out("normal", st)]
        outs = []
        bad = T.not_(c)
        if not self.known(st, c if False else bad):
            outs.append(Out("normal", st.assume(c)))
        outs.append(Out("raise", st.assume(bad), exc))
        return outs

    def x_Assign(self, s, st, mod):
        v = self.eval(s.value, st, mod)
        for t in s.targets:
            self.assign(t, v, st, mod)
        return [Out("normal", st)]

    def x_AnnAssign(self, s, st, mod):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st, mod), st, mod)
        return [Out("normal", st)]

    def x_AugAssign(self, s, st, mod):
        op = type(s.op)
        t = s.target
        if isinstance(t, ast.Subscript):
            base = self.eval(t.value, st, mod)
            idx = self.eval_index(t.slice, st, mod)
            old = self.lib.getitem(st, base, idx)
            v = self.eval(s.value, st, mod)
            r = self.rec(st, base)
            if isinstance(r, Arr) and op in (ast.Add, ast.Sub) and isinstance(old, Sc) and isinstance(v, Sc):
                d = v if op is ast.Add else self.lib.neg(st, v)
                if d.finite:
                    self.lib.additem(st, base, idx, d)
                    return [Out("normal", st)]
            self.lib.setitem(st, base, idx, self.lib.binop(st, op, old, v))
            return [Out("normal", st)]
        if isinstance(t, ast.Attribute):
            obj = self.eval(t.value, st, mod)
            old = self.getattr(st, obj, t.attr)
            v = self.eval(s.value, st, mod)
            r = self.lib.inplace(st, op, old, v)
            self.setattr(st, obj, t.attr, r)
            return [Out("normal", st)]
        old = self.eval(ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t), st, mod)
        v = self.eval(s.value, st, mod)
        st.env[t.id] = self.lib.inplace(st, op, old, v)
        return [Out("normal", st)]

    def x_Delete(self, s, st, mod):
        for t in s.targets:
            if isinstance(t, ast.Attribute):
                self.delattr(st, self.eval(t.value, st, mod), t.attr)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            else:
                raise Unsupported("del")
        return [Out("normal", st)]

    def x_If(self, s, st, mod):
        c = self.truth(self.eval(s.test, st, mod), st)
        if c is not TRUE and c is not FALSE:
            if self.known(st, c):
                c = TRUE
            elif self.known(st, T.not_(c)):
                c = FALSE
        if c is TRUE:
            return self.block(s.body, st, mod)
        if c is FALSE:
            return self.block(s.orelse, st, mod) if s.orelse else [Out("normal", st)]
        base = st.pc
        a = self.block(s.body, st.assume(c), mod)
        b = self.block(s.orelse, st.assume(T.not_(c)), mod) if s.orelse else [Out("normal", st.assume(T.not_(c)))]
        outs = a + b
        nr = [(o.st, None) for o in outs if o.kind == "normal"]
        res = [Out("normal", x) for x, _ in self.merge_many(base, nr)]
        return res + [o for o in outs if o.kind != "normal"]

    def x_With(self, s, st, mod):
        for it in s.items:
            v = self.eval(it.context_expr, st, mod)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, mod)
        return self.block(s.body, st, mod)

    def x_Try(self, s, st, mod):
        outs = []
        for o in self.block(s.body, st, mod):
            if o.kind == "raise":
                h = next((h for h in s.handlers if self.catches(h, o.val)), None)
                if h is None:
                    outs.append(o)
                    continue
                st2 = o.st.copy()
                st2.env["@exc"] = o.val
                if h.name:
                    st2.env[h.name] = o.val
                outs += self.block(h.body, st2, mod)
            elif o.kind == "normal" and s.orelse:
                outs += self.block(s.orelse, o.st, mod)
            else:
                outs.append(o)
        if s.finalbody:
            fin = []
            for o in outs:
                for f in self.block(s.finalbody, o.st, mod):
                    if f.kind == "normal":
                        fin.append(Out(o.kind, f.st, o.val))
                    else:
                        fin.append(f)
            outs = fin
        nr = [(o.st, None) for o in outs if o.kind == "normal"]
        res = [Out("normal", x) for x, _ in self.merge_many(st.pc, nr)]
        return res + [o for o in outs if o.kind != "normal"]

    def catches(self, h, e):
        if h.type is None:
            return True
        names = [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
        for n in names:
            nm = n.id if isinstance(n, ast.Name) else n.attr
            if nm == e.name or nm in EXC.get(e.name, ("Exception",)) or nm == "BaseException":
                return True
        return False

    def x_Break(self, s, st, mod):
        return [Out("break", st)]

    def x_Continue(self, s, st, mod):
        return [Out("continue", st)]

    def x_FunctionDef(self, s, st, mod):
        st.env[s.name] = Fn(s, mod, qual=(self.stack[-1] if self.stack else "") + ".<locals>." + s.name, closure=dict(st.env))
        return [Out("normal", st)]

    # --------------------------------------------------------- assignments
    def assign(self, t, v, st, mod):
        if isinstance(t, ast.Name):
            if self.cuts and isinstance(v, Ref):
                from .loops import cut
                cut(self, st, v)
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), st)
            for x, y in zip(t.elts, vs):
                self.assign(x, y, st, mod)
        elif isinstance(t, ast.Attribute):
            self.setattr(st, self.eval(t.value, st, mod), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.lib.setitem(st, self.eval(t.value, st, mod), self.eval_index(t.slice, st, mod), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, st):
        if isinstance(v, tuple):
            if len(v) != n:
                raise Unsupported("unpack")
            return v
        r = self.rec(st, v)
        if isinstance(r, Lst) and all(s[0] == "el" for s in r.segs) and len(r.segs) == n:
            return [s[1] for s in r.segs]
        if isinstance(r, Arr):
            return [self.lib.getitem(st, v, num(i)) for i in range(n)]
        raise Unsupported("unpack %r" % (v,))

    # -------------------------------------------------------------- objects
    def getattr(self, st, obj, name, default=Pending):
        r = self.rec(st, obj)
        if isinstance(r, Inst):
            if name in r.fields:
                c, v = r.fields[name]
                if c is not TRUE and default is Pending:
                    if not self.known(st, c):
                        self.pend.append(Out("raise", st.assume(T.not_(c)), Exc("AttributeError")))
                        if self.known(st, T.not_(c)):
                            raise Diverge()
                        st.pc = st.pc + (c,)
                if isinstance(v, Poison):
                    raise Unsupported("field %s: %s" % (name, v.why))
                if c is TRUE or default is Pending:
                    return v
                m = self.merge_vals(c, v, default, st, st, st)
                if m is None:
                    raise Unsupported("getattr default")
                return m
            m = self.find(r.cls, name) if isinstance(r.cls, Cls) else None
            if m is not None:
                if isinstance(m, tuple):
                    return self.eval(m[1], st, r.cls.mod)
                if getattr(m, "prop", False):
                    return self.call(self.bind(m, obj), [], {}, st)
                return m if m.static else self.bind(m, obj)
            if default is not Pending:
                return default
            self.pend.append(Out("raise", st.copy(), Exc("AttributeError")))
            raise Diverge()
        if isinstance(obj, Mod):
            v = self.mod_name(obj, name)
            if v is None:
                raise Unsupported("module attribute %s.%s" % (obj.name, name))
            return v
        if isinstance(obj, Cls):
            m = self.find(obj, name)
            if m is not None:
                if isinstance(m, tuple):
                    return self.eval(m[1], st, obj.mod)
                return m
            if name == "__new__":
                return Builtin("new", lambda I, st2, a, k: I.alloc(st2, Inst(a[0])))
            if name == "__name__":
                return obj.name
            raise Unsupported("class attribute " + name)
        if isinstance(obj, Ext):
            return self.lib.ext(obj.path + "." + name)
        if isinstance(obj, tuple) and obj and obj[0] == "super":
            m = self.find(self.rec(st, obj[2]).cls, name, after=obj[1])
            if m is None:
                if name == "__init__":
                    return Builtin("object.__init__", lambda I, st2, a, k: None)
                raise Unsupported("super()." + name)
            return m if m.static else self.bind(m, obj[2])
        return self.lib.attr(st, obj, name)

    def bind(self, f, self_):
        g = Fn(f.node, f.mod, f.cls, f.qual, self_, f.closure, f.defaults)
        g.static = False
        return g

    def setattr(self, st, obj, name, v):
        r = self.rec(st, obj)
        if isinstance(r, Inst):
            n = Inst(r.cls, r.fields)
            n.fields[name] = (TRUE, v)
            st.heap[obj.addr] = n
            return
        self.lib.setattr(st, obj, name, v)

    def delattr(self, st, obj, name):
        r = self.rec(st, obj)
        if isinstance(r, Inst):
            c = r.fields.get(name, (FALSE, None))[0]
            if not self.known(st, c):
                self.pend.append(Out("raise", st.assume(T.not_(c)), Exc("AttributeError")))
                if c is FALSE:
                    raise Diverge()
                st.pc = st.pc + (c,)
            n = Inst(r.cls, r.fields)
            n.fields.pop(name, None)
            st.heap[obj.addr] = n
            return
        raise Unsupported("delattr")

    def hasattr(self, st, obj, name):
        r = self.rec(st, obj)
        if isinstance(r, Inst):
            if name in r.fields:
                return r.fields[name][0]
            return TRUE if (isinstance(r.cls, Cls) and self.find(r.cls, name)) else FALSE
        return self.lib.hasattr(st, obj, name)

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kw, st):
        if isinstance(f, SymFun):
            return f.handler(self, st, args, kw)
        if isinstance(f, Builtin):
            return self.audited(f.name, lambda a, k: f.f(self, st, a, k), args, kw)
        if isinstance(f, Ext):
            return self.audited(f.path, lambda a, k: self.lib.call(st, f.path, a, k), args, kw)
        if isinstance(f, Exc):
            return f
        if isinstance(f, Cls):
            return self.construct(f, args, kw, st)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw, st)
        r = self.rec(st, f)
        if isinstance(r, Inst) and isinstance(r.cls, Cls):
            m = self.find(r.cls, "__call__")
            if m is not None:
                return self.call_fn(self.bind(m, f), args, kw, st)
        raise Unsupported("call of %r" % (f,))

    def audited(self, name, call, args, kw):
        """A library call whose model ignores an argument is not modelled."""
        a, k = Args(args), Kw(kw)
        r = call(a, k)
        if name not in self.NO_AUDIT and name not in EXC and (len(a.read) < len(args) or any(x not in k.read for x in dict.keys(k))):
            bad = [n for n in range(len(args)) if n not in a.read] + [x for x in dict.keys(k) if x not in k.read]
            raise Unsupported("argument %s of %s" % (bad, name))
        return r

    NO_AUDIT = {"print", "warnings.warn", "object.__init__"}

    def construct(self, c, args, kw, st):
        h = self.over.get(c.qual if c.mod.name else c.name)
        if h is not None:
            self.used[c.qual] = "contract"
            return h(self, st, c, args, kw)
        o = self.alloc(st, Inst(c))
        init = self.find(c, "__init__")
        if init is not None:
            self.call_fn(self.bind(init, o), args, kw, st)
        return o

    def bind_args(self, f, args, kw, st):
        a = f.node.args
        if f.self_ is not None:
            args = [f.self_] + list(args)
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        for n, v in zip(names, args):
            env[n] = v
        extra = args[len(names):]
        if a.vararg:
            env[a.vararg.arg] = tuple(extra)
        elif extra:
            raise Unsupported("too many arguments for %s" % f.qual)
        kw = dict(kw)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                if n in env:
                    raise Unsupported("duplicate argument")
                env[n] = kw.pop(n)
        defs = a.defaults
        for n, d in zip(names[len(names) - len(defs):], defs):
            if n not in env:
                env[n] = self.eval(d, St(heap=st.heap, pc=st.pc), f.mod)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.eval(d, St(heap=st.heap, pc=st.pc), f.mod)
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(st, Dct(conc=kw))
        elif kw:
            raise Unsupported("unexpected keyword %s in %s" % (list(kw), f.qual))
        for n in names:
            if n not in env:
                raise Unsupported("missing argument %s of %s" % (n, f.qual))
        return env

    def call_fn(self, f, args, kw, st):
        h = self.over.get(f.qual)
        if h is not None:
            self.used[f.qual] = "contract"
            return h(self, st, f, self.bind_args(f, args, kw, st))
        if len(self.stack) > self.maxdepth or self.stack.count(f.qual) > 3:
            raise Unsupported("recursion in " + f.qual)
        self.used.setdefault(f.qual, "inlined")
        env = dict(f.closure or {})
        env.update(self.bind_args(f, args, kw, st))
        env["@cls"] = f.cls
        env["@self"] = f.self_
        inner = St(env, st.heap, st.pc)
        self.stack.append(f.qual)
        saved, self.pend = self.pend, []
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body, inner, f.mod)
                outs = [Out("return", inner, v)] + self.pend
            else:
                outs = self.block(f.node.body, inner, f.mod)
        except Diverge:
            outs = list(self.pend)
        finally:
            self.stack.pop()
            self.pend = saved
        rets = []
        for o in outs:
            if o.kind in ("return", "normal"):
                rets.append((o.st, o.val))
            elif o.kind == "raise":
                s = St(st.env, o.st.heap, o.st.pc)
                self.pend.append(Out("raise", s, o.val))
            else:
                raise Unsupported("break outside loop")
        if f.qual in self.watch:
            self.watch[f.qual] = [(s.copy(), v) for s, v in rets]
        if not rets:
            raise Diverge()
        for s, _ in rets:
            s.env = {}
        m = self.merge_many(st.pc, rets)
        if len(m) != 1:
            raise Unsupported("results of %s cannot be joined" % f.qual)
        s, v = m[0]
        st.heap, st.pc = s.heap, s.pc
        return v

    # ---------------------------------------------------------- expressions
    def eval(self, e, st, mod):
        return getattr(self, "e_" + type(e).__name__, self.e_unsup)(e, st, mod)

    def e_unsup(self, e, st, mod):
        raise Unsupported("expression " + type(e).__name__)

    def e_Constant(self, e, st, mod):
        v = e.value
        if v is None or isinstance(v, str):
            return v
        if v is Ellipsis:
            return v
        return num(v)

    def e_JoinedStr(self, e, st, mod):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.eval(p.value, st, mod)
                if isinstance(v, str):
                    parts.append(v)
                elif as_int(v) is not None:
                    parts.append(str(as_int(v)))
                else:
                    parts.append("?")
        return "".join(parts)

    def e_Name(self, e, st, mod):
        n = e.id
        if n in st.env:
            v = st.env[n]
            if isinstance(v, Poison):
                raise Unsupported("%s: %s" % (n, v.why))
            if isinstance(v, Maybe):
                if not self.known(st, v.cond):
                    self.pend.append(Out("raise", st.assume(T.not_(v.cond)), Exc("UnboundLocalError")))
                    if self.known(st, T.not_(v.cond)):
                        raise Diverge()
                    st.pc = st.pc + (v.cond,)
                return v.v
            if isinstance(v, Opt):
                return self.unopt(st, v)
            return v
        v = self.mod_name(mod, n)
        if v is not None:
            return v
        return self.lib.builtin(n)

    def unopt(self, st, v):
        if self.known(st, T.not_(v.none), 300):
            return v.v
        if self.known(st, v.none, 300):
            return None
        return v

    def e_Tuple(self, e, st, mod):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st, mod)
                if not isinstance(v, tuple):
                    raise Unsupported("starred")
                out += list(v)
            else:
                out.append(self.eval(x, st, mod))
        return tuple(out)

    def e_List(self, e, st, mod):
        return self.alloc(st, Lst([("el", self.eval(x, st, mod)) for x in e.elts]))

    def e_Set(self, e, st, mod):
        return tuple(self.eval(x, st, mod) for x in e.elts)

    def e_Dict(self, e, st, mod):
        d = {}
        for k, v in zip(e.keys, e.values):
            kk = self.eval(k, st, mod)
            if not isinstance(kk, str):
                raise Unsupported("dict literal key")
            d[kk] = self.eval(v, st, mod)
        return self.alloc(st, Dct(conc=d))

    def e_Lambda(self, e, st, mod):
        return Fn(e, mod, cls=st.env.get("@cls"), qual=(self.stack[-1] if self.stack else "") + ".<lambda>", closure=dict(st.env))

    def e_Attribute(self, e, st, mod):
        return self.getattr(st, self.eval(e.value, st, mod), e.attr)

    def e_Subscript(self, e, st, mod):
        b = self.eval(e.value, st, mod)
        return self.lib.getitem(st, b, self.eval_index(e.slice, st, mod))

    def eval_index(self, s, st, mod):
        if isinstance(s, ast.Slice):
            g = lambda x: None if x is None else self.eval(x, st, mod)
            return slice(g(s.lower), g(s.upper), g(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, st, mod) for x in s.elts)
        return self.eval(s, st, mod)

    def e_UnaryOp(self, e, st, mod):
        v = self.eval(e.operand, st, mod)
        if isinstance(e.op, ast.Not):
            return Sc(T.not_(self.truth(v, st)))
        if isinstance(e.op, ast.USub):
            return self.lib.neg(st, v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.lib.invert(st, v)
        raise Unsupported("unary")

    def e_BinOp(self, e, st, mod):
        a = self.eval(e.left, st, mod)
        b = self.eval(e.right, st, mod)
        return self.lib.binop(st, type(e.op), a, b)

    def e_BoolOp(self, e, st, mod):
        isand = isinstance(e.op, ast.And)
        acc = TRUE if isand else FALSE
        s = st
        for i, x in enumerate(e.values):
            if i:
                s2 = s.copy()
                g = acc if isand else T.not_(acc)
                n = len(s2.pc)
                s2.pc = s2.pc + ((g,) if g is not TRUE else ())
                v = self.eval(x, s2, mod)
                c = self.truth(v, s2)
                if any(s2.heap.get(k) is not st.heap.get(k) for k in st.heap):
                    raise Unsupported("side effect in boolean operator")
                st.heap.update(s2.heap)
                # facts learned while evaluating under the guard
                learned = s2.pc[n + (1 if g is not TRUE else 0):]
                for l in learned:
                    st.pc = st.pc + (T.implies(g, l),)
            else:
                v = self.eval(x, st, mod)
                c = self.truth(v, st)
            acc = T.and_(acc, c) if isand else T.or_(acc, c)
            if acc is (FALSE if isand else TRUE):
                return v if not isinstance(v, Sc) and len(e.values) == i + 1 else Sc(acc)
            if acc is (TRUE if isand else FALSE) and i + 1 < len(e.values):
                continue
        return Sc(acc)

    def e_Compare(self, e, st, mod):
        l = self.eval(e.left, st, mod)
        acc = None
        for op, x in zip(e.ops, e.comparators):
            r = self.eval(x, st, mod)
            c = self.lib.compare(st, type(op), l, r)
            acc = c if acc is None else Sc(T.and_(self.truth(acc, st), self.truth(c, st)))
            l = r
        return acc

    def e_IfExp(self, e, st, mod):
        c = self.truth(self.eval(e.test, st, mod), st)
        if c is TRUE or self.known(st, c):
            return self.eval(e.body, st, mod)
        if c is FALSE or self.known(st, T.not_(c)):
            return self.eval(e.orelse, st, mod)
        s1, s2 = st.assume(c), st.assume(T.not_(c))
        a, b = self.eval(e.body, s1, mod), self.eval(e.orelse, s2, mod)
        m = self.merge_many(st.pc, [(s1, a), (s2, b)])
        if len(m) != 1:
            raise Unsupported("conditional expression")
        st.heap, st.env, st.pc = m[0][0].heap, m[0][0].env, m[0][0].pc
        return m[0][1]

    def e_Call(self, e, st, mod):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return ("super", st.env["@cls"], st.env["@self"])
        f = self.eval(e.func, st, mod)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, mod)
                if not isinstance(v, tuple):
                    r = self.rec(st, v)
                    if isinstance(r, Lst) and all(s[0] == "el" for s in r.segs):
                        v = tuple(s[1] for s in r.segs)
                    else:
                        raise Unsupported("star argument")
                args += list(v)
            else:
                args.append(self.eval(a, st, mod))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, st, mod)
            if k.arg is None:
                r = self.rec(st, v)
                if isinstance(r, Dct) and r.conc is not None:
                    kw.update(r.conc)
                else:
                    raise Unsupported("** argument")
            else:
                kw[k.arg] = v
        self.site = e
        return self.call(f, args, kw, st)

    def e_ListComp(self, e, st, mod):
        return self.comp(e, st, mod)

    def e_GeneratorExp(self, e, st, mod):
        return self.comp(e, st, mod)

    def comp(self, e, st, mod):
        """Comprehension as the equivalent loop over an accumulator list."""
        if len(e.generators) == 1 and not e.generators[0].ifs:
            src = self.eval(e.generators[0].iter, st, mod)
            if isinstance(src, CsrPart) and src.part != "indptr":
                return self.comp_csr(e, src, st, mod)
        acc = "@comp%d" % new_addr()
        inner = St(dict(st.env), st.heap, st.pc)
        inner.env[acc] = self.alloc(inner, Lst())
        body = ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), "append", ast.Load()), [e.elt], []))
        for g in reversed(e.generators):
            b = [body] if not isinstance(body, list) else body
            for c in reversed(g.ifs):
                b = [ast.If(c, b, [])]
            body = ast.For(g.target, g.iter, b, [])
        ast.fix_missing_locations(body)
        outs = self.exec(body, inner, mod)
        nr = [o for o in outs if o.kind == "normal"]
        for o in outs:
            if o.kind == "raise":
                self.pend.append(Out("raise", St(st.env, o.st.heap, o.st.pc), o.val))
        if not nr and outs and all(o.kind == "raise" for o in outs):
            raise Diverge()
        if len(nr) != 1:
            raise Unsupported("comprehension paths")
        s = nr[0].st
        v = s.env[acc]
        st.heap, st.pc = s.heap, s.pc
        return v

    def comp_csr(self, e, src, st, mod):
        """[f(x) for x in stored sequence]: computed entry by entry."""
        c = src.csr
        i, k = T.fresh("r"), T.fresh("c")
        inner = St(dict(st.env), st.heap, st.pc + (T.le(T.I(0), i), T.lt(i, c.nmaj), T.le(T.I(0), k), T.lt(k, c.nmin), c.mem(i, k)))
        heap = inner.heap
        self.assign(e.generators[0].target, CsrRow(c, i, src.part, src.fn).at(k), inner, mod)
        v = self.eval(e.elt, inner, mod)
        if inner.heap is not heap and inner.heap != heap or not isinstance(v, Sc):
            raise Unsupported("comprehension over stored entries")
        from .lib import sub_value
        return CsrPart(c, "map", lambda r, q: sub_value(v, {i: r, k: q}))

    # ----------------------------------------------------------------- truth
    def truth(self, v, st):
        if isinstance(v, Sc):
            if v.sort == "B":
                return v.e
            z = T.ne(v.e, T.num(0, v.sort))
            return z if v.finite else T.or_(v.special, z)
        if v is None:
            return FALSE
        if isinstance(v, str):
            return TRUE if v else FALSE
        if isinstance(v, tuple):
            return TRUE if v else FALSE
        return self.lib.truth(st, v)

    # ----------------------------------------------------------------- loops
    def x_For(self, s, st, mod):
        if s.orelse:
            raise Unsupported("for-else")
        it = self.lib.iterate(st, self.eval(s.iter, st, mod))
        from . import loops
        if isinstance(it, Conc):
            return loops.unroll(self, s, st, mod, it.items)
        if isinstance(it, SeqIter):
            return loops.copy_loop(self, s, it, st, mod)
        return loops.for_loop(self, s.target, it, s.body, st, mod)

    def x_While(self, s, st, mod):
        from . import loops
        if s.orelse:
            raise Unsupported("while-else")
        return loops.while_loop(self, s, st, mod)
