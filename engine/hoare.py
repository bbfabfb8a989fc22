"""While loops by invariants.

The loop head is abstracted by the *shape* of its variables (None, number,
one-element array, growing sequence) and a conjunction of invariants per shape.
Invariants are found by elimination (Houdini): all candidates true on entry,
minus those the body does not preserve, until the rest is inductive.  Each
surviving invariant is thus proved to hold initially and to be preserved; the
code after the loop is executed from an arbitrary state satisfying them and
the negated condition."""
import ast
import time
from . import terms as T
from . import prover as P
from .terms import TRUE, FALSE
from .values import *
from .loops import assigned


import os
DEBUG = bool(os.environ.get("HD"))


class Seq:
    """A list or array that only grows at its end: length and last element."""

    def __init__(self, n, last):
        self.n, self.last = n, last


def install_seq(I):
    L = I.lib

    def attr(st, obj, name):
        r = I.rec(st, obj) if isinstance(obj, Ref) else None
        if not isinstance(r, Seq):
            return None
        if name == "append":
            def app(I, s, a, k):
                r = I.rec(s, obj)
                s.heap[obj.addr] = Seq(T.add(r.n, T.I(1)), cell(I, s, a[0]))
            return Builtin(name, app)
        return None
    L.extra_attr.insert(0, attr)

    def item(st, what, a):
        if what != "get":
            return None
        b, ix = a
        r = I.rec(st, b) if isinstance(b, Ref) else None
        if isinstance(r, Seq):
            if isinstance(ix, Sc) and T.isnum(ix.e, -1):
                return r.last
            raise Unsupported("element of a growing sequence")
        return None
    L.extra_item.append(item)

    def arr(I, st, a, k):
        r = I.rec(st, a[0]) if isinstance(a[0], Ref) else None
        if isinstance(r, Seq):
            return I.alloc(st, Seq(r.n, r.last))
        s = as_seq(I, st, a[0])
        if s is not None and isinstance(r, Lst) and isinstance(r.segs[-1][1], Ref):
            return I.alloc(st, s)
        return NotImplemented

    def append(I, st, a, k):
        r = I.rec(st, a[0]) if isinstance(a[0], Ref) else None
        if not isinstance(r, Seq):
            r = as_seq(I, st, a[0])
        if r is None:
            raise Unsupported("numpy.append")
        return I.alloc(st, Seq(T.add(r.n, T.I(1)), cell(I, st, a[1])))
    L.extra_call["numpy.array"] = arr
    L.extra_call["numpy.append"] = append


def cell(I, st, v):
    """The number in a scalar or one-element array."""
    if isinstance(v, Sc):
        return v
    a = I.lib.arr(st, v)
    if all(T.isnum(d, 1) for d in a.shape):
        return a.fn(tuple(T.I(0) for _ in a.shape))
    raise Unsupported("array where a number is expected")


def as_seq(I, st, v):
    r = I.rec(st, v) if isinstance(v, Ref) else None
    if isinstance(r, Seq):
        return r
    if isinstance(r, Lst) and r.segs and all(s[0] == "el" for s in r.segs):
        try:
            return Seq(T.I(len(r.segs)), cell(I, st, r.segs[-1][1]))
        except Unsupported:
            return None
    if isinstance(r, Arr) and len(r.shape) == 1 and r.shape[0].op == "num":
        return Seq(r.shape[0], r.fn((T.sub(r.shape[0], T.I(1)),)))
    return None


def shape_of(I, st, v, growing):
    if v is None or isinstance(v, Opt):
        return "opt"
    if isinstance(v, Sc):
        return "sc" + v.sort
    r = I.rec(st, v) if isinstance(v, Ref) else None
    if growing and as_seq(I, st, v) is not None:
        return "seq"
    if isinstance(r, Arr) and len(r.shape) == 1 and T.isnum(r.shape[0], 1):
        return "arr"
    if isinstance(v, Maybe):
        return "maybe"
    raise Unsupported("loop variable of this kind")


def ext(name):
    e, p, m = T.fresh(name, "R"), T.fresh(name + ".pinf", "B"), T.fresh(name + ".ninf", "B")
    return Sc(e, p, m), (T.not_(T.and_(p, m)),)


def sc_eq(a, b):
    return T.and_(T.eq(a.pinf, b.pinf), T.eq(a.ninf, b.ninf), T.eq(a.nan, b.nan),
                  T.or_(a.special, T.eq(T.toreal(a.e), T.toreal(b.e))))


def sc_le(a, b):
    return T.and_(T.not_(a.nan), T.not_(b.nan),
                  T.or_(a.ninf, b.pinf, T.and_(T.not_(a.special), T.not_(b.special), T.le(T.toreal(a.e), T.toreal(b.e)))))


class Loop:
    def __init__(self, I, s, st, mod, templates):
        self.I, self.s, self.st, self.mod = I, s, st, mod
        self.templates = templates
        names = assigned(s.body)
        self.grow = set()
        for n in ast.walk(ast.Module(s.body, [])):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "append":
                if isinstance(n.func.value, ast.Name) and n.func.value.id in st.env:
                    self.grow.add(n.func.value.id)
                    continue
                if not (isinstance(n.func.value, ast.Name) and n.func.value.id in mod.names):
                    continue
                for a in n.args[:1]:
                    if isinstance(a, ast.Name) and a.id in st.env and a.id in names:
                        self.grow.add(a.id)
        self.names = [n for n in st.env if n in names or n in self.grow]
        # variables first bound inside the body
        self.heads = {}       # shape -> list of candidate functions (cells -> formula)

    def shape(self, st):
        out = []
        for n in self.names:
            out.append((n, shape_of(self.I, st, st.env[n], n in self.grow)))
        return tuple(out)

    def cells(self, st, shape):
        out = {}
        for n, k in shape:
            if k == "maybe":
                continue
            if k == "opt":
                v = st.env[n]
                if v is None:
                    out[n], out[n + "?"] = Sc(T.R(0)), TRUE
                else:
                    out[n], out[n + "?"] = cell(self.I, st, v.v), v.none
            elif k == "seq":
                q = as_seq(self.I, st, st.env[n])
                out[n + ".last"], out[n + ".len"] = q.last, Sc(q.n)
            else:
                out[n] = cell(self.I, st, st.env[n])
        return out

    def havoc(self, shape):
        I = self.I
        st = self.st.copy()
        facts = []
        for n, k in shape:
            if k == "opt":
                v, f = ext(n)
                facts += f
                st.env[n] = Opt(T.fresh(n + ".none", "B"), I.alloc(st, Arr((T.I(1),), lambda ix, v=v: v)))
            elif k == "maybe":
                st.env[n] = Poison("assigned in loop")
            elif k == "scI":
                st.env[n] = Sc(T.fresh(n))
            elif k == "scB":
                st.env[n] = Sc(T.fresh(n, "B"))
            elif k in ("scR", "arr"):
                v, f = ext(n)
                facts += f
                st.env[n] = v if k == "scR" else I.alloc(st, Arr((T.I(1),), lambda ix, v=v: v))
            else:
                v, f = ext(n)
                facts += f
                st.env[n] = I.alloc(st, Seq(T.fresh(n + ".len"), v))
        st.pc = st.pc + tuple(facts)
        return st

    def run(self):
        I = self.I
        s0 = self.shape(self.st)
        pend = [(s0, self.st)]
        self.cand = {}
        # candidate instances per shape, filtered by the states reaching it
        work = []
        for sh, st in pend:
            self.cand[sh] = self.filter(self.all(sh), self.cells(st, sh), I.hyps(st))
        changed = True
        rounds = 0
        nobl = len(I.obl)
        while changed:
            rounds += 1
            if rounds > 40:
                raise Unsupported("no inductive invariant")
            changed = False
            del I.obl[nobl:]
            exits, others = [], []
            for sh in list(self.cand):
                t0 = time.time()
                res = self.body(sh)
                if DEBUG:
                    print("body", [k for _, k in sh], len(self.cand[sh]), [len(x) for x in res], round(time.time() - t0, 2), flush=True)
                exits += res[0]
                others += res[1]
                for o in res[2]:
                    s2 = self.shape(o)
                    cl = self.cells(o, s2)
                    hy = I.hyps(o)
                    if s2 not in self.cand:
                        self.cand[s2] = self.filter(self.all(s2), cl, hy)
                        changed = True
                    else:
                        keep = self.filter(self.cand[s2], cl, hy)
                        if len(keep) != len(self.cand[s2]):
                            self.cand[s2] = keep
                            changed = True
        I.invariants = getattr(I, "invariants", [])
        for sh, c in self.cand.items():
            I.invariants.append((sh, [n for n, _ in c]))
        return exits + others

    def filter(self, cands, cells, hyps):
        """The candidates that hold in every state satisfying hyps."""
        import z3
        t0 = time.time()
        gs = [(n, f, f(cells)) for n, f in cands]
        out = [(n, f) for n, f, g in gs if g is TRUE]
        gs = [x for x in gs if x[2] is not TRUE]
        tr = P.Tr()
        s = z3.Solver()
        s.set("rlimit", 30000000)
        s.add(*[tr.z(h) for h in hyps if h is not TRUE])
        zs = {n: tr.z(g) for n, f, g in gs}
        s.add(*P.axioms(tr, 0, hyps))
        live = [n for n, f, g in gs]
        bad = 0
        while live:
            s.push()
            s.add(z3.Not(z3.And([zs[n] for n in live])))
            r = s.check()
            P.STAT["z3_calls"] += 1
            if r == z3.unsat:
                s.pop()
                break
            if r == z3.sat:
                m = s.model()
                s.pop()
                keep = [n for n in live if not z3.is_false(m.eval(zs[n], model_completion=True))]
                if len(keep) < len(live):
                    live = keep
                    continue
            else:
                s.pop()
            # undecided together: one by one
            keep = []
            for n in live:
                s.push()
                s.add(z3.Not(zs[n]))
                s.set("rlimit", 3000000)
                if s.check() == z3.unsat:
                    keep.append(n)
                s.pop()
            live = keep
            break
        ok = set(live)
        if DEBUG:
            print('filter', len(cands), '->', len(ok) + len(out), round(time.time() - t0, 2), flush=True)
        return [(n, f) for n, f in cands if n in ok or (n, f) in out]

    def all(self, shape):
        dummy = {}
        for n, k in shape:
            if k == "maybe":
                continue
            if k == "seq":
                dummy[n + ".last"], dummy[n + ".len"] = "R", "I"
            else:
                dummy[n] = {"scI": "I", "scB": "B"}.get(k, "R")
        out = []
        for nm, use, f in self.templates(self.I, dummy):
            def g(c, f=f, use=use):
                r = f(*[c[u] for u in use])
                absent = [c[u + "?"] for u in use if u + "?" in c]
                return T.or_(r, *absent) if absent else r
            out.append((nm, g))
        return out

    def body(self, sh):
        """Execute test and body once from an arbitrary state of this shape."""
        I = self.I
        st = self.havoc(sh)
        cl = self.cells(st, sh)
        inv = tuple(f(cl) for _, f in self.cand[sh])
        st.pc = st.pc + tuple(x for x in inv if x is not TRUE)
        own = {st.env[n].addr for n, k in sh if k == "arr" and isinstance(st.env[n], Ref)}
        recs = {a: st.heap[a] for a in own}
        c = I.truth(I.eval(self.s.test, st, self.mod), st)
        exits, others, loops = [], [], []
        ex = st.assume(T.not_(c))
        if P.sat(I.hyps(ex)):
            exits.append(Out("normal", ex))
        go = st.assume(c)
        if P.sat(I.hyps(go)):
            for o in I.block(self.s.body, go, self.mod):
                if not P.sat(I.hyps(o.st)):
                    continue
                for a in own:
                    if o.st.heap.get(a) is not recs[a]:
                        raise Unsupported("loop variable changed in place")
                if o.kind in ("normal", "continue"):
                    for n, k in sh:
                        pass
                    loops.append(o.st)
                elif o.kind == "break":
                    exits.append(Out("normal", o.st))
                else:
                    others.append(o)
        return exits, others, loops
