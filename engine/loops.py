"""Loop rules.

for-loops over an integer range (possibly guarded) with a generic iteration:
the body is executed once for a generic index with placeholders for everything
it modifies; the effect is then solved as one of a fixed set of inductive
patterns, each verified by the solver before it is used:
  additive      x' = x + D(k)            ->  x0 + sum_k D(k)
  multiplicative x' = x * G(k)           ->  x0 * prod_k G(k)
  or / and      b' = b or c(k)           ->  b0 or exists k. c(k)
  constant      x' = if c(k) then v else x (v independent of k)
  overwrite     x' = f(k)                ->  last value
  array add     a'(i) = a(i) + D(k,i);   array store a'(i) = if i==s(k) then v
  list append, dictionary accumulate (absent = 0, presence shared)
Early return / raise: there is a first index K at which the exit condition
holds, or there is none.  These are the lemmas of lemmas/Sums.lean."""
import ast
from . import terms as T
from . import prover as P
from .terms import TRUE, FALSE
from .values import *


def unroll(I, s, st, mod, items):
    cur = [st]
    outs = []
    done = []
    for x in items:
        nxt = []
        for c in cur:
            c = c.copy()
            I.assign(s.target, x, c, mod)
            for o in I.block(s.body, c, mod):
                if o.kind in ("normal", "continue"):
                    nxt.append(o.st)
                elif o.kind == "break":
                    done.append(o.st)
                else:
                    outs.append(o)
        cur = [a for a, _ in I.merge_many(st.pc, [(a, None) for a in nxt])]
        if not cur:
            break
    res = [a for a, _ in I.merge_many(st.pc, [(a, None) for a in cur + done])]
    return [Out("normal", a) for a in res] + outs


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Sc) and isinstance(b, Sc):
        return a.e is b.e and a.pinf is b.pinf and a.ninf is b.ninf and a.nan is b.nan
    if isinstance(a, Op) and isinstance(b, Op):
        return a.e is b.e
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.addr == b.addr
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Maybe) and isinstance(b, Maybe):
        return a.cond is b.cond and same(a.v, b.v)
    if isinstance(a, (Fn,)) and isinstance(b, Fn):
        return a.node is b.node
    return isinstance(a, (str, type(None))) and a == b


def drop_flags(I, st, v):
    if v.finite:
        return v
    if P.valid(I.hyps(st), T.not_(v.special)) == "proved":
        return Sc(v.e)
    return None


class Ph:
    """Placeholder bookkeeping of one loop."""

    def __init__(self):
        self.env = {}       # name -> var
        self.arr = {}       # addr -> app name
        self.lst = {}
        self.dct = {}
        self.fld = {}       # (addr, field) -> var or Poison
        self.csr = {}       # name -> app name
        self.iter = {}      # name -> iterates of a recursion (contract)


def iterate_of(I, st, v, it):
    """The declared recursion whose first element is the array v."""
    r = I.rec(st, v) if isinstance(v, Ref) else None
    if not isinstance(r, Arr) or len(r.shape) != 1:
        return None
    x = T.fresh("x")
    for q in getattr(I, "iterates", ()):
        g = r.fn((x,))
        if not isinstance(g, Sc) or r.shape[0] is not q.n:
            continue
        g = drop_flags(I, st.assume(T.and_(T.le(T.I(0), x), T.lt(x, q.n))), g)
        if g is None:
            continue
        if P.valid(I.hyps(st) + [T.le(T.I(0), x), T.lt(x, q.n)], T.eq(T.toreal(g.e), q.at(it.lo, x))) == "proved":
            return q
    return None


def cut(I, st, v):
    """An array that provably is the next iterate is named so."""
    r = I.rec(st, v)
    for q, k in I.cuts:
        if not isinstance(r, Arr) or len(r.shape) != 1 or r.shape[0] is not q.n:
            continue
        z = T.fresh("x")
        nxt = T.add(k, T.I(1))
        g = r.fn((z,))
        if not isinstance(g, Sc) or g.e in (q.at(k, z), q.at(nxt, z)):
            continue
        hy = st.assume(T.and_(T.le(T.I(0), z), T.lt(z, q.n)))
        g = drop_flags(I, hy, g)
        if g is not None and q.step(I, hy, k, z, g.e):
            st.heap[v.addr] = Arr((q.n,), lambda ix, q=q: Sc(q.at(nxt, ix[0])), "f")
            return


def setup(I, st, mods, s0, it=None, k=None):
    ph = Ph()
    presname = None
    for m in sorted(mods, key=str):
        if m[0] == "env":
            v = st.env.get(m[1])
            if isinstance(v, Sc) and v.sort in "IRB":
                x = T.fresh("ph_" + m[1], m[2])
                ph.env[m[1]] = x
                s0.env[m[1]] = Sc(x)
            elif isinstance(v, Csr):
                from . import sparse as SPM
                nm = "ph!%d" % new_addr()
                n_, m_ = (x.e for x in SPM.shape(v))
                srt = SPM.cell(v, T.fresh("i"), T.fresh("j")).sort
                ph.csr[m[1]] = (nm, srt)
                s0.env[m[1]] = SPM.canonical(n_, m_, lambda i, j, nm=nm, srt=srt: Sc(T.app(nm, (i, j), srt)))
            elif k is not None and it.guard is None and iterate_of(I, st, v, it) is not None:
                q = iterate_of(I, st, v, it)
                ph.iter[m[1]] = q
                s0.env[m[1]] = I.alloc(s0, Arr((q.n,), lambda ix, q=q: Sc(q.at(k, ix[0])), "f"))
            else:
                s0.env[m[1]] = Poison("assigned in loop")
        elif m[0] == "heap":
            r = st.heap[m[1]]
            if isinstance(r, Arr):
                nm = "ph!%d" % new_addr()
                ph.arr[m[1]] = nm
                kind = r.kind
                srt = {"b": "B", "i": "I"}.get(kind, "R")
                if kind == "o":
                    s0.heap[m[1]] = Arr(r.shape, lambda idx: Op(T.app(nm, idx, "U")), kind)
                else:
                    s0.heap[m[1]] = Arr(r.shape, lambda idx, nm=nm, srt=srt: Sc(T.app(nm, idx, srt)), kind)
            elif isinstance(r, Lst):
                nm = "ph!%d" % new_addr()
                ph.lst[m[1]] = nm
                s0.heap[m[1]] = Lst([("ph", nm)])
            elif isinstance(r, Dct) and (r.conc is None or not r.conc):
                nm = "ph!%d" % new_addr()
                if presname is None:
                    presname = "pres!%d" % new_addr()
                ph.dct[m[1]] = (nm, presname)
                s0.heap[m[1]] = Dct(lambda k, nm=nm: T.app(nm, k, "R"), lambda k, p=presname: T.app(p, k, "B"))
            else:
                raise Unsupported("loop modifies %s" % type(r).__name__)
        elif m[0] == "fld":
            r = s0.heap[m[1]]
            c, v = r.fields.get(m[2], (FALSE, None))
            n = Inst(r.cls, r.fields)
            if isinstance(v, Sc) and c is TRUE and v.sort in "IRB":
                x = T.fresh("ph_" + m[2], v.sort)
                ph.fld[m[1:]] = x
                n.fields[m[2]] = (TRUE, Sc(x))
            else:
                n.fields[m[2]] = (c, Poison("assigned in loop"))
            s0.heap[m[1]] = n
    return ph


def find_mods(st, s0, n):
    new = set()
    for x, v in st.env.items():
        if x in n.env and not same(n.env[x], s0.env.get(x)):
            srt = n.env[x].sort if isinstance(n.env[x], Sc) else "?"
            if isinstance(v, Sc) and isinstance(n.env[x], Sc) and srt != "B":
                srt = "R" if "R" in (srt, v.sort) else srt
            new.add(("env", x, srt))
    for a, r in st.heap.items():
        r0, r1 = s0.heap[a], n.heap[a]
        if r0 is r1:
            continue
        if isinstance(r1, Inst):
            for f in set(r0.fields) | set(r1.fields):
                x, y = r0.fields.get(f), r1.fields.get(f)
                if x is None or y is None or x[0] is not y[0] or not same(x[1], y[1]):
                    new.add(("fld", a, f))
        elif isinstance(r1, Lst) and r0.segs == r1.segs:
            continue
        else:
            new.add(("heap", a))
    return new


def copy_loop(I, s, it, st, mod):
    """for n, (x, y, ..) in enumerate(zip(xs, ys, ..)): a[n] = x; ..: arrays of the
    length of the lists are filled with their elements, in order."""
    from .lib import zip_segs, seg_sum
    if not it.enum:
        raise Unsupported("iteration over a list")
    tab = zip_segs(it.parts)
    n = seg_sum(tab, lambda els: (TRUE, T.I(1)))
    pos = T.fresh("pos")

    def first(segs):
        return next((x for x in leaf(segs)), None)

    def leaf(segs):
        for x in segs:
            if x[0] == "el":
                yield x[1]
            elif x[0] in ("if", "for"):
                yield from leaf(x[-1])
            else:
                raise Unsupported("iteration over a list")
    els = []
    for p in it.parts:
        xs = list(leaf(p))
        if not all(isinstance(x, Sc) and x.finite and x.sort == xs[0].sort for x in xs):
            raise Unsupported("iteration over a list")
        els.append(Sc(T.fresh("el", xs[0].sort)))
    s0 = st.copy()
    s0.pc = st.pc + (T.le(T.I(0), pos), T.lt(pos, n))
    s1 = s0.copy()
    nobl = len(I.obl)
    I.assign(s.target, (Sc(pos), tuple(els) if it.tup else els[0]), s1, mod)
    outs = I.block(s.body, s1, mod)
    if len(outs) != 1 or outs[0].kind not in ("normal", "continue"):
        raise Unsupported("iteration over a list")
    f = st.copy()
    e = outs[0].st
    for x in e.env:
        if e.env[x] is not s0.env.get(x):
            f.env[x] = Poison("variable of a finished loop")
    for a, r in e.heap.items():
        r0 = st.heap.get(a)
        if r is r0 or r0 is None:
            continue
        if not (isinstance(r, Arr) and isinstance(r0, Arr) and len(r0.shape) == 1 and r0.shape[0] is n):
            raise Unsupported("iteration over a list")
        z = T.fresh("z")
        src = next((q for q, x in enumerate(els) if r.fn((pos,)).e is x.e), None)
        same = I.merge_vals(T.eq(pos, z), els[src], r0.fn((z,)), st, st, st) if src is not None else None
        got = r.fn((z,))
        if src is None or T.subst(got.e, {z: pos}) is not els[src].e or \
                P.valid([T.ne(z, pos)], T.eq(got.e, r0.fn((z,)).e)) != "proved" or not got.finite:
            raise Unsupported("iteration over a list")
        segs = it.parts[src]

        def fn(ix):
            raise Unsupported("position in a list filled under conditions")
        f.heap[a] = Arr(r0.shape, fn, r0.kind, ("segs", segs))
    return [Out("normal", f)]


def for_loop(I, target, it, body, st, mod):
    if T.lt(it.lo, it.hi) is FALSE:
        return [Out("normal", st)]
    k = T.fresh("k")
    mods = set()
    nobl = len(I.obl)
    for attempt in range(8):
        del I.obl[nobl:]
        s0 = st.copy()
        ph = setup(I, st, mods, s0, it, k)
        g = it.guard(k) if it.guard else TRUE
        rc = T.and_(T.le(it.lo, k), T.lt(k, it.hi))
        s0.pc = st.pc + (rc,) + ((g,) if g is not TRUE else ())
        base = s0.pc
        I.loopvars.append(k)
        cuts, I.cuts = I.cuts, [(q, k) for q in ph.iter.values()]
        try:
            s1 = s0.copy()
            I.assign(target, it.elem_in(s1, k) if hasattr(it, "elem_in") else it.elem(k), s1, mod)
            outs = I.block(body, s1, mod)
        finally:
            I.loopvars.pop()
            I.cuts = cuts
        nrm = [(o.st, None) for o in outs if o.kind in ("normal", "continue")]
        ext = [o for o in outs if o.kind in ("return", "raise", "break")]
        m = I.merge_many(base, nrm) if nrm else []
        if len(m) > 1:
            I.lossy = True
            try:
                m = I.merge_many(base, nrm)
            finally:
                I.lossy = False
        if len(m) > 1:
            raise Unsupported("loop body paths cannot be joined")
        n = m[0][0] if m else None
        new = find_mods(st, s0, n) if n is not None else set()
        # an assigned-in-loop variable may change sort
        names = {x[1] for x in mods if x[0] == "env"}
        add = {x for x in new if not (x[0] == "env" and x[1] in names)} - mods
        for x in new:
            if x[0] == "env" and x[1] in names:
                old = next(y for y in mods if y[0] == "env" and y[1] == x[1])
                if old[2] != x[2] and x[2] == "R":
                    mods.discard(old)
                    add.add(x)
        if not add:
            break
        mods |= add
    else:
        raise Unsupported("loop: no fixpoint of modified variables")
    guard = g
    nb = len(st.pc)
    # ---- exit condition
    R = T.or_(*[T.and_(*o.st.pc[nb:]) for o in ext]) if ext else FALSE
    sol = Solver(I, st, it, k, ph, s0, n, guard, ext)
    # what an iteration that runs to its end establishes
    done = T.and_(*n.pc[nb + 1 + (1 if guard is not TRUE else 0):]) if n is not None else T.not_(guard)
    if done is not TRUE and sol.depends(done):
        I.inexact = True
        done = TRUE
    if ext and not (sol.depends(R) or inner_vars(R, st, k)):
        done = T.and_(done, T.not_(R))
    res = []
    final = sol.final(it.hi) if n is not None else None
    if n is not None or True:
        f = sol.state(final, it.hi) if n is not None else st.copy()
        if n is None:
            # every iteration exits: falls through only if there is none
            f.pc = st.pc + (T.all_(k, it.lo, it.hi, T.not_(guard)),)
        elif ext:
            if sol.depends(R):
                raise Unsupported("exit condition depends on accumulators")
            f.pc = st.pc + (T.all_(k, it.lo, it.hi, T.implies(guard, done)),)
        else:
            f.pc = st.pc
            if done is not TRUE and not sol.depends(done):
                # facts established in every iteration
                f.pc = st.pc + (T.all_(k, it.lo, it.hi, T.implies(guard, done)),)
        res.append(Out("normal", f))
    for o in ext:
        K = T.fresh("K")
        pre = sol.final(K) if n is not None else {}
        cond = T.and_(*o.st.pc[nb:])
        cond = sol.put(cond, K, pre)
        s = sol.exit_state(o, K, pre)
        before = T.all_(k, it.lo, K, T.implies(guard, done)) if n is not None else T.all_(k, it.lo, K, T.not_(guard))
        s.pc = st.pc + tuple(x for x in (T.and_(T.le(it.lo, K), T.lt(K, it.hi)), cond, before) if x is not TRUE)
        v = sol.sub_val(o.val, K, pre)
        if o.kind == "break":
            res.append(Out("normal", s))
        else:
            res.append(Out(o.kind, s, v))
    # obligations raised in the body mention placeholders: they are facts about
    # a generic iteration, so their hypotheses stay as they are
    for i in range(nobl, len(I.obl)):
        nm, h, gl = I.obl[i]
        I.obl[i] = (nm, tuple(sol.close(x) for x in h), sol.close(gl))
    return res


def inner_vars(e, st, k):
    """Positions introduced by early exits inside the body."""
    known = set().union(*[x.fv for x in st.pc]) if st.pc else set()
    return [v for v in e.fv - known - {k} if v.args[0].startswith("K!")]


class Solver:
    def __init__(self, I, st, it, k, ph, s0, n, guard, ext):
        self.I, self.st, self.it, self.k, self.ph, self.s0, self.n, self.guard, self.ext = I, st, it, k, ph, s0, n, guard, ext
        self.sols = {}
        if n is not None:
            self.solve()

    def phnames(self):
        return {x[0] for x in self.ph.csr.values()} | set(self.ph.arr.values()) | {x[0] for x in self.ph.dct.values()} | {x[1] for x in self.ph.dct.values()}

    def depends(self, e):
        if e.fv & (set(self.ph.env.values()) | {v for v in self.ph.fld.values() if isinstance(v, T.E)}):
            return True
        return T.has_app(e, self.phnames())

    def zero_apps(self, e, val):
        nms = self.phnames()
        return T.subst_app(e, lambda f, a, s: (FALSE if s == "B" else T.num(val, s)) if f in nms else None)

    def solve(self):
        I, n = self.I, self.n
        for x, v in self.ph.env.items():
            self.sols["env", x] = self.scalar(x, v, n.env.get(x), self.st.env[x])
        for x, (nm, srt) in self.ph.csr.items():
            self.sols["csr", x] = self.matrix(x, nm, srt)
        for x, q in self.ph.iter.items():
            self.sols["iter", x] = self.recursion(x, q)
        for (a, f), v in self.ph.fld.items():
            self.sols["fld", a, f] = self.scalar(f, v, n.heap[a].fields[f][1], self.st.heap[a].fields[f][1])
        for a, nm in self.ph.arr.items():
            self.sols["arr", a] = self.array(a, nm)
        for a, nm in self.ph.lst.items():
            segs = n.heap[a].segs
            if not segs or segs[0] != ("ph", nm) or any(s == ("ph", nm) for s in segs[1:]):
                raise Unsupported("list is not only appended to in the loop")
            self.sols["lst", a] = tuple(self.by_value(s) for s in segs[1:])
        if self.ph.dct:
            self.dicts()

    def by_value(self, s):
        """Arrays created in the body are kept in lists by value."""
        if s[0] == "el":
            v = s[1]
            if isinstance(v, tuple):
                return ("el", tuple(self.by_value(("el", x))[1] for x in v))
            if isinstance(v, Ref) and v.addr not in self.st.heap and isinstance(self.n.heap.get(v.addr), Arr):
                return ("el", self.n.heap[v.addr])
            r = self.n.heap.get(v.addr) if isinstance(v, Ref) and v.addr not in self.st.heap else None
            if isinstance(r, Lst) and r.segs and all(x[0] == "el" and isinstance(x[1], Sc) for x in r.segs):
                return ("el", self.I.lib.lst_arr(self.n, r))
            return s
        if s[0] == "if":
            return ("if", s[1], tuple(self.by_value(x) for x in s[2]))
        if s[0] == "for":
            return s[:5] + (tuple(self.by_value(x) for x in s[5]),)
        return s

    def prove(self, goal):
        return P.valid(self.I.hyps(self.n), goal) == "proved"

    def scalar(self, name, v, new, init):
        if not isinstance(new, Sc):
            return Poison("%s is not a number after the loop" % name)
        fl = drop_flags(self.I, self.n, new)
        if fl is None or not (isinstance(init, Sc) and init.finite):
            return Poison("%s may be infinite" % name)
        f = fl.e
        i0 = init.e
        if v.sort == "R":
            f, i0 = T.toreal(f), T.toreal(i0)
        if v not in f.fv:
            if self.depends(f):
                return Poison("%s depends on other accumulators" % name)
            return ("last", f, i0)
        if v.sort == "B":
            c0, c1 = T.subst(f, {v: FALSE}), T.subst(f, {v: TRUE})
            if not self.depends(c0) and self.prove(T.eq(c1, TRUE)):
                return ("or", c0, i0)
            if not self.depends(c1) and self.prove(T.not_(c0)):
                return ("and", c1, i0)
            return Poison(name)
        D = T.subst(f, {v: T.num(0, v.sort)})
        if not self.depends(D) and (T.sub(f, T.add(v, D)) is T.num(0, v.sort) or self.prove(T.eq(f, T.add(v, D)))):
            return ("add", D, i0)
        G = T.subst(f, {v: T.num(1, v.sort)})
        if not self.depends(G) and self.prove(T.eq(f, T.mul(v, G))):
            return ("mul", G, i0)
        # conditional constant
        c = cond_of(f, v)
        if c is not None:
            cc, val = c
            if self.k not in val.fv and not self.depends(val) and not self.depends(cc):
                return ("const", cc, val, i0)
        if not self.depends(D) or True:
            if D is not None and self.depends(D):
                # linear in several accumulators: solved in dependency order is
                # not supported
                pass
        return Poison("%s: no inductive pattern" % name)

    def recursion(self, x, q):
        """The body turns the k-th iterate into the next one."""
        r = self.I.rec(self.n, self.n.env.get(x))
        if not isinstance(r, Arr) or len(r.shape) != 1 or r.shape[0] is not q.n:
            raise Unsupported("%s is not an iterate" % x)
        a = self.s0.env[x].addr
        if self.n.heap.get(a) is not self.s0.heap[a]:
            raise Unsupported("iterate changed in place")
        z = T.fresh("x")
        if r.fn((z,)).e is not q.at(T.add(self.k, T.I(1)), z):
            raise Unsupported("%s does not follow the recursion of the contract" % x)
        return ("iter", q)

    def matrix(self, x, nm, srt):
        """Sparse matrix to which every iteration adds."""
        from . import sparse as SPM
        init, new = self.st.env[x], self.n.env.get(x)
        if not isinstance(new, Csr):
            return Poison("%s is not a matrix after the loop" % x)
        sh0, sh1 = SPM.shape(init), SPM.shape(new)
        if any(a.e is not b.e for a, b in zip(sh0, sh1)):
            return Poison("shape of %s changes in the loop" % x)
        idx = (T.fresh("x"), T.fresh("y"))
        g = SPM.cell(new, *idx)
        v = T.fresh("cell", srt)
        f = T.subst_app(g.e, lambda fn, ar, s: v if fn == nm and tuple(ar) == idx else None)
        if not g.finite or g.sort != srt:
            return Poison("entries of %s" % x)
        if srt == "B":
            D = T.subst(f, {v: FALSE})
            if not self.depends(D) and self.prove(T.eq(f, T.or_(v, D))):
                return ("or", idx, D, init, sh0)
        else:
            D = T.subst(f, {v: T.num(0, srt)})
            if not self.depends(D) and (T.sub(f, T.add(v, D)) is T.num(0, srt) or self.prove(T.eq(f, T.add(v, D)))):
                return ("add", idx, D, init, sh0)
        return Poison("%s: no inductive pattern" % x)

    def array(self, a, nm):
        I = self.I
        r0, r1 = self.st.heap[a], self.n.heap[a]
        idx = tuple(T.fresh("x") for _ in r0.shape)
        if r0.kind == "o":
            return self.obj_array(a, nm, r0, r1, idx)
        g = r1.fn(idx)
        if not isinstance(g, Sc):
            raise Unsupported("array of objects in loop")
        hy = self.n.assume(T.and_(*[T.and_(T.le(T.I(0), i), T.lt(i, s)) for i, s in zip(idx, r0.shape)]))
        fl = drop_flags(I, hy, g)
        if fl is None:
            raise Unsupported("array element may be infinite")
        g = fl.e
        srt = {"b": "B", "i": "I"}.get(r0.kind, "R")
        here = T.app(nm, idx, srt)
        v = T.fresh("cell", srt)
        f = T.subst_app(here_cell(g, nm, idx), lambda fn, ar, s: v if fn == nm and tuple(ar) == idx else None)
        init = r0.fn
        if srt != "B":
            D = T.subst(f, {v: T.num(0, srt)})
            if not self.depends(D):
                hyps = I.hyps(hy)
                if T.sub(f, T.add(v, D)) is T.num(0, srt) or P.valid(hyps, T.eq(f, T.add(v, D))) == "proved":
                    return ("add", idx, D, init, r0)
        c = cond_of(f, v)
        if c is not None:
            cc, val = c
            if not self.depends(cc) and not self.depends(val):
                K = None
                for lit in P.conj(cc):
                    K = P.solve_for(lit, self.k)
                    if K is not None and self.k not in K.fv:
                        break
                    K = None
                if K is not None:
                    return ("store", idx, K, cc, val, init, r0)
                if self.k not in val.fv:
                    return ("const", idx, cc, val, init, r0)
        raise Unsupported("array: no inductive pattern: %s" % str(f)[:300])

    def obj_array(self, a, nm, r0, r1, idx):
        """Objects stored at one index per iteration."""
        g = r1.meta
        if not (isinstance(g, tuple) and g[0] == "ostore"):
            raise Unsupported("object array in loop")
        _, prev, ix, val = g
        if prev is not self.s0.heap[a] or len(ix) != 1:
            raise Unsupported("object array in loop")
        K = P.solve_for(T.eq(ix[0], idx[0]), self.k)
        if K is None:
            raise Unsupported("object array index")
        return ("ostore", idx, K, ix[0], val, r0)

    def dicts(self):
        idx = None
        press = []
        for a, (nm, pn) in self.ph.dct.items():
            r0, r1 = self.st.heap[a], self.n.heap[a]
            ar = r1.arity or 2
            if idx is None:
                idx = tuple(T.fresh("x") for _ in range(ar))
            p = r1.pres(idx)
            press.append(p)
            f0 = r1.fn(idx)
            cell, pv = T.fresh("cell", "R"), T.fresh("pr", "B")
            # value with absent = 0
            nms = {nm}
            f = T.subst_app(f0, lambda fn, ag, s: cell if fn == nm and tuple(ag) == idx else None)
            D = T.subst(f, {cell: T.R(0)})
            if T.has_app(T.subst(f, {cell: T.R(0)}), {nm}):
                raise Unsupported("dict: no inductive pattern")
            hyp = self.I.hyps(self.n) + [T.implies(T.not_(T.app(pn, idx, "B")), T.eq(cell, T.R(0)))]
            # presence placeholders may remain in D's conditions
            if T.has_app(D, {pn}):
                D2 = T.subst_app(D, lambda fn, ag, s: TRUE if fn == pn else None)
                if P.valid(hyp, T.eq(D, D2)) != "proved":
                    raise Unsupported("dict: value depends on presence")
                D = D2
            if P.valid(hyp, T.eq(f, T.add(cell, D))) != "proved":
                # each iteration overwrites the key that determines it
                c = cond_of(f, cell)
                K = None
                if c is not None and not self.depends(c[0]) and not self.depends(c[1]):
                    for lit in P.conj(c[0]):
                        K = P.solve_for(lit, self.k)
                        if K is not None and self.k not in K.fv:
                            break
                        K = None
                if K is None:
                    raise Unsupported("dict: no inductive pattern: %s" % str(f)[:400])
                self.sols["dct", a] = ("dstore", idx, K, c[0], c[1], r0)
                continue
            # absent keys stay at 0 by construction: every store marks its key present
            self.sols["dct", a] = ("dict", idx, D, r0)
        p0 = press[0]
        for p in press[1:]:
            if P.valid(self.I.hyps(self.n), T.eq(p0, p)) != "proved":
                raise Unsupported("dicts with different keys")
        pn = next(iter(self.ph.dct.values()))[1]
        pv = T.fresh("pr", "B")
        f = T.subst_app(p0, lambda fn, ag, s: pv if fn == pn and tuple(ag) == idx else None)
        # p' = p or c   (c may not depend on the dictionaries)
        c = T.subst_app(T.subst(f, {pv: FALSE}), lambda fn, ag, s: FALSE if fn == pn else None)
        if P.valid(self.I.hyps(self.n), T.eq(f, T.or_(pv, c))) != "proved":
            raise Unsupported("dict keys: no inductive pattern: %s" % str(f)[:300])
        self.presence = (idx, c)

    # ------------------------------------------------------------- results
    def gsum(self, D, hi):
        body = T.ite(self.guard, D, T.num(0, D.sort)) if D.sort != "B" else T.and_(self.guard, D)
        return T.bsum(self.k, self.it.lo, hi, body)

    def final(self, hi):
        """Values after the iterations below hi."""
        out = {}
        lo, k, G = self.it.lo, self.k, self.guard
        for key, s in self.sols.items():
            if isinstance(s, Poison):
                out[key] = s
                continue
            if key[0] in ("env", "fld"):
                if s[0] == "add":
                    out[key] = Sc(T.add(s[2], self.gsum(s[1], hi)))
                elif s[0] == "mul":
                    out[key] = Sc(T.mul(s[2], T.bprod(k, lo, hi, T.ite(G, s[1], T.num(1, s[1].sort)))))
                elif s[0] == "or":
                    out[key] = Sc(T.or_(s[2], T.ex(k, lo, hi, T.and_(G, s[1]))))
                elif s[0] == "and":
                    out[key] = Sc(T.and_(s[2], T.not_(T.ex(k, lo, hi, T.and_(G, T.not_(s[1]))))))
                elif s[0] == "const":
                    out[key] = Sc(T.ite(T.ex(k, lo, hi, T.and_(G, s[1])), s[2], s[3]))
                elif s[0] == "last":
                    if G is TRUE:
                        out[key] = Sc(T.ite(T.lt(lo, hi), T.subst(s[1], {k: T.sub(hi, T.I(1))}), s[2]))
                    elif k not in s[1].fv:
                        out[key] = Sc(T.ite(T.ex(k, lo, hi, G), s[1], s[2]))
                    else:
                        out[key] = Poison("last value of a guarded loop")
            elif key[0] == "iter":
                out[key] = Arr((s[1].n,), lambda ix, q=s[1]: Sc(q.at(hi, ix[0])), "f")
            elif key[0] == "csr":
                from . import sparse as SPM
                kind, idx, D, init, sh = s
                S = self.gsum(D, hi) if kind == "add" else T.ex(k, lo, hi, T.and_(G, D))
                first = T.sub(lo, T.I(1))
                c0 = SPM.cell(init, *idx)
                if G is TRUE and c0.finite and c0.e is T.subst(D, {k: first}) and \
                        (hi is k or P.valid(self.I.hyps(self.st), T.le(lo, hi)) == "proved"):
                    # f(lo - 1) + sum over lo .. hi of f is the sum over lo - 1 .. hi
                    S = T.bsum(k, first, hi, D) if kind == "add" else T.ex(k, first, hi, D)

                    def cellw(i, j, S=S, idx=idx):
                        return Sc(T.subst(S, dict(zip(idx, (i, j)))))
                    out[key] = SPM.canonical(sh[0].e, sh[1].e, cellw)
                    continue

                def cellf(i, j, S=S, idx=idx, init=init, kind=kind):
                    c, d = SPM.cell(init, i, j), T.subst(S, dict(zip(idx, (i, j))))
                    return Sc(T.add(c.e, d) if kind == "add" else T.or_(c.e, d))
                out[key] = SPM.canonical(sh[0].e, sh[1].e, cellf)
            elif key[0] == "arr":
                out[key] = self.arr_final(s, hi)
            elif key[0] == "lst":
                old = self.st.heap[key[1]].segs
                out[key] = Lst(old + ((("for", k, lo, hi, G, s),) if s else ()))
            elif key[0] == "dct":
                out[key] = self.dct_final(s, hi)
        return out

    def arr_final(self, s, hi):
        k, lo, G = self.k, self.it.lo, self.guard
        r0 = s[-1]
        if s[0] == "add":
            _, idx, D, init, _ = s
            S = self.gsum(D, hi)

            def fn(ix):
                v0 = init(ix)
                return Sc(T.add(v0.e, T.subst(S, dict(zip(idx, ix)))), v0.pinf, v0.ninf, v0.nan)
            return Arr(r0.shape, fn, "f" if r0.kind != "i" else ("i" if D.sort == "I" else "f"))
        if s[0] == "store":
            _, idx, K, cc, val, init, _ = s
            c = T.and_(T.le(lo, K), T.lt(K, hi), T.subst(T.and_(G, cc), {k: K}))
            v = T.subst(val, {k: K})

            def fn(ix):
                m = dict(zip(idx, ix))
                v0 = init(ix)
                cx = T.subst(c, m)
                nc = T.not_(cx)
                return Sc(T.ite(cx, T.subst(v, m), v0.e), T.and_(nc, v0.pinf), T.and_(nc, v0.ninf), T.and_(nc, v0.nan))
            return Arr(r0.shape, fn, r0.kind)
        if s[0] == "const":
            _, idx, cc, val, init, _ = s
            c = T.ex(k, lo, hi, T.and_(G, cc))

            def fn(ix):
                m = dict(zip(idx, ix))
                v0 = init(ix)
                cx = T.subst(c, m)
                nc = T.not_(cx)
                return Sc(T.ite(cx, T.subst(val, m), v0.e), T.and_(nc, v0.pinf), T.and_(nc, v0.ninf), T.and_(nc, v0.nan))
            return Arr(r0.shape, fn, r0.kind)
        if s[0] == "ostore":
            _, idx, K, pos, val, r0 = s
            from .lib import has_ref
            if has_ref(val):
                raise Unsupported("list of objects")

            def fn(ix):
                m = {idx[0]: ix[0]}
                KK = T.subst(K, m)
                c = T.and_(T.le(lo, KK), T.lt(KK, hi), T.subst(G, {k: KK}))
                if self.I.known(self.st, c) or P.valid(self.I.hyps(self.st) + [T.le(T.I(0), ix[0]), T.lt(ix[0], r0.shape[0])], c) == "proved":
                    return self.sub_val(val, KK, {})
                raise Unsupported("object array element possibly unset")
            return Arr(r0.shape, fn, "o", meta=("olist", val, k))
        raise Unsupported("array solution")

    def dct_final(self, s, hi):
        pidx, pc = self.presence
        k, lo, G = self.k, self.it.lo, self.guard
        PP = T.ex(k, lo, hi, T.and_(G, pc))
        if s[0] == "dstore":
            _, idx, K, cc, val, r0 = s
            c = T.and_(T.le(lo, K), T.lt(K, hi), T.subst(T.and_(G, cc), {k: K}))
            v = T.subst(val, {k: K})
            z0 = lambda ix: r0.fn(ix) if r0.conc is None else T.R(0)
            p0 = lambda ix: r0.pres(ix) if r0.conc is None else FALSE
            if r0.conc:
                raise Unsupported("dictionary with named keys in a loop")
            return Dct(lambda ix: T.ite(T.subst(c, dict(zip(idx, ix))), T.subst(v, dict(zip(idx, ix))), z0(ix)),
                       lambda ix: T.or_(p0(ix), T.subst(c, dict(zip(idx, ix)))), len(idx))
        _, idx, D, r0 = s
        S = self.gsum(D, hi)

        def fn(ix):
            a = T.subst(S, dict(zip(idx, ix)))
            return T.add(r0.fn(ix), a) if r0.conc is None else a

        def pres(ix):
            a = T.subst(PP, dict(zip(pidx, ix)))
            return T.or_(r0.pres(ix), a) if r0.conc is None else a
        return Dct(fn, pres, len(idx))

    def state(self, final, hi):
        s = self.st.copy()
        n = self.n
        # objects created inside the loop are not visible after it
        for key, v in final.items():
            if key[0] in ("env", "csr"):
                s.env[key[1]] = v
            elif key[0] == "iter":
                s.env[key[1]] = self.I.alloc(s, v)
            elif key[0] == "fld":
                r = s.heap[key[1]]
                nn = Inst(r.cls, r.fields)
                nn.fields[key[2]] = (TRUE, v)
                s.heap[key[1]] = nn
            else:
                s.heap[key[1]] = v
        for m in self.s0.env:
            if isinstance(self.s0.env[m], Poison) and not isinstance(self.st.env.get(m), Poison):
                s.env[m] = Poison("assigned in loop")
        for a, r in self.s0.heap.items():
            if isinstance(r, Inst):
                for f, (c, v) in r.fields.items():
                    if isinstance(v, Poison):
                        rr = s.heap[a]
                        nn = Inst(rr.cls, rr.fields)
                        nn.fields[f] = (c, v)
                        s.heap[a] = nn
        # variables first bound inside the loop
        for x in n.env:
            if x not in self.st.env:
                v = n.env[x]
                if isinstance(v, Sc) and self.guard is TRUE and v.finite and not self.depends(v.e):
                    s.env[x] = Maybe(T.lt(self.it.lo, hi), Sc(T.subst(v.e, {self.k: T.sub(hi, T.I(1))})))
                else:
                    s.env[x] = Poison("bound in loop")
        return s

    def put(self, e, K, pre):
        m = {self.k: K}
        for x, v in self.ph.env.items():
            p = pre.get(("env", x))
            if isinstance(p, Sc):
                m[v] = p.e
        e = T.subst(e, m)
        if self.phnames():
            def f(nm, a, s):
                for x, (n, _) in self.ph.csr.items():
                    r = pre.get(("csr", x))
                    if n == nm and isinstance(r, Csr):
                        return r.val(*a).e
                for ad, n in self.ph.arr.items():
                    if n == nm:
                        r = pre.get(("arr", ad))
                        if isinstance(r, Arr):
                            return r.fn(tuple(a)).e
                return None
            e = T.subst_app(e, f)
        return e

    def put_range(self, R, k, lo, K, pre):
        return T.all_(k, lo, K, T.not_(R))

    def sub_val(self, v, K, pre):
        if isinstance(v, Sc):
            return Sc(*[self.put(x, K, pre) for x in (v.e, v.pinf, v.ninf, v.nan)])
        if isinstance(v, Op):
            return Op(self.put(v.e, K, pre), v.meta)
        if isinstance(v, tuple):
            return tuple(self.sub_val(x, K, pre) for x in v)
        if isinstance(v, Arr):
            return Arr(tuple(self.put(x, K, pre) for x in v.shape), lambda ix: self.sub_val(v.fn(ix), K, pre), v.kind, v.meta)
        if isinstance(v, Inst):
            return Inst(v.cls, {f: (self.put(c, K, pre), self.sub_val(x, K, pre)) for f, (c, x) in v.fields.items()})
        if isinstance(v, Csr):
            r = Csr("%s@%s:%s" % (v.name, self.k.id, K.id), self.put(v.nmaj, K, pre), self.put(v.nmin, K, pre),
                    lambda i, j: self.put(v.mem(i, j), K, pre), None, v.fmt)

            def val(i, j):
                x = v.val(i, j)
                return self.sub_val(x, K, pre) if isinstance(x, Sc) else self.put(x, K, pre)
            r.val = val
            r.zero_outside = getattr(v, "zero_outside", False)
            if getattr(v, "count", None):
                r.count = lambda i, j: self.put(v.count(i, j), K, pre)
            return r
        return v

    def exit_state(self, o, K, pre):
        s = St()
        for x, v in o.st.env.items():
            s.env[x] = v if isinstance(v, (Poison, Maybe)) else self.sub_val(v, K, pre)
        for a, r in o.st.heap.items():
            if isinstance(r, (Arr, Inst)):
                s.heap[a] = self.sub_val(r, K, pre) if r is not self.st.heap.get(a) else r
            elif isinstance(r, Lst) and any(q == ("ph", nm) for q in r.segs for nm in self.ph.lst.values()):
                s.heap[a] = Poison("list at early exit")
            else:
                s.heap[a] = r
        return s

    def close(self, e):
        """Placeholders in an obligation of the body -> prefix values at k."""
        if not self.depends(e) or self.n is None:
            return e
        pre = self.final(self.k)
        try:
            return self.put(e, self.k, pre)
        except Exception:
            return e


def here_cell(f, nm, idx):
    """Under a condition that equates an index with idx, the cell is that at idx."""
    if f.op != "ite" or not T.has_app(f, {nm}):
        return f
    c, a, b = f.args
    eqs = set()
    for l in P.conj(c):
        if l.op == "eq":
            eqs.add((l.args[0], l.args[1]))
            eqs.add((l.args[1], l.args[0]))

    def app(fn, ar, s):
        if fn == nm and tuple(ar) != idx and all(x is y or (x, y) in eqs for x, y in zip(ar, idx)):
            return T.app(nm, idx, s)
        return None
    return T.ite(c, here_cell(T.subst_app(a, app), nm, idx), here_cell(b, nm, idx))


def cond_of(f, v):
    """f == ite(c, val, v) -> (c, val)."""
    if f.op == "ite":
        if f.args[2] is v and v not in f.args[1].fv and v not in f.args[0].fv:
            return f.args[0], f.args[1]
        if f.args[1] is v and v not in f.args[2].fv and v not in f.args[0].fv:
            return T.not_(f.args[0]), f.args[2]
        if v in f.args[0].fv:
            return None
        # nested
        a = cond_of(f.args[1], v) if v in f.args[1].fv and f.args[1] is not v else None
        b = cond_of(f.args[2], v) if v in f.args[2].fv and f.args[2] is not v else None
        c = f.args[0]
        if f.args[1] is v and b:
            return T.and_(T.not_(c), b[0]), b[1]
        if f.args[2] is v and a:
            return T.and_(c, a[0]), a[1]
        if a and b:
            return T.or_(T.and_(c, a[0]), T.and_(T.not_(c), b[0])), T.ite(c, a[1], b[1])
    return None


# ------------------------------------------------------------------- while

def while_loop(I, s, st, mod):
    h = getattr(I, "while_rules", {}).get(I.stack[-1] if I.stack else None)
    if h is not None:
        return h(I, s, st, mod)
    return merge_join(I, s, st, mod)


def merge_join(I, s, st, mod):
    """Two indices running over two strictly increasing label sequences: every
    common label is visited once, in increasing order (lemma merge_join)."""
    conds = s.test.values if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) else None
    if not conds or len(conds) != 2:
        raise Unsupported("while loop")
    ptr = []
    for c in conds:
        if not (isinstance(c, ast.Compare) and len(c.ops) == 1):
            raise Unsupported("while condition")
        l, op, r = c.left, c.ops[0], c.comparators[0]
        if isinstance(op, ast.Gt):
            l, r = r, l
        elif not isinstance(op, (ast.Lt, ast.NotEq)):
            raise Unsupported("while condition")
        if not isinstance(l, ast.Name):
            raise Unsupported("while condition")
        n = I.eval(r, st, mod)
        if not (isinstance(n, Sc) and n.e.op == "app" and n.e.args[0].startswith("nnz:")):
            raise Unsupported("while bound")
        v0 = st.env.get(l.id)
        if not (isinstance(v0, Sc) and T.isnum(v0.e, 0)):
            raise Unsupported("while start")
        ptr.append((l.id, I.lib.spvec_of[n.e]))
    (xi, X), (yj, Y) = ptr
    if X is Y or xi == yj:
        raise Unsupported("while loop over one vector")
    pi, pj = T.fresh("pos"), T.fresh("pos")
    LX, LY = T.app("lbl:" + X.name, X.key + (pi,), "I"), T.app("lbl:" + Y.name, Y.key + (pj,), "I")
    inb = (T.le(T.I(0), pi), T.lt(pi, X.nnz), T.le(T.I(0), pj), T.lt(pj, Y.nnz))
    names = assigned(s.body)
    k = T.fresh("k")
    # cases without a match: only the pointer moves
    for cond, di, dj in ((T.lt(LX, LY), 1, 0), (T.lt(LY, LX), 0, 1)):
        t = st.copy()
        for x in names:
            if isinstance(t.env.get(x), Sc):
                t.env[x] = Sc(T.fresh("ph", t.env[x].sort))
            elif x in t.env:
                t.env[x] = Poison("assigned in loop")
        t.env[xi], t.env[yj] = Sc(pi), Sc(pj)
        t.pc = t.pc + inb + (cond,)
        ref = t.copy()
        outs = I.block(s.body, t, mod)
        outs = [o for o in outs if P.sat(I.hyps(o.st))]
        for o in outs:
            if o.kind not in ("normal", "continue"):
                raise Unsupported("exit without a common label")
            for x in ref.env:
                if x in (xi, yj):
                    continue
                if isinstance(ref.env[x], Poison):
                    continue
                if not same(o.st.env.get(x), ref.env[x]) and x in st.env and isinstance(st.env[x], Sc):
                    raise Unsupported("while: %s changes without a common label" % x)
            for a in ref.heap:
                if o.st.heap.get(a) is not ref.heap[a]:
                    raise Unsupported("while: heap changes without a common label")
            for x, p, d in ((xi, pi, di), (yj, pj, dj)):
                if P.valid(I.hyps(o.st), T.eq(o.st.env[x].e, T.add(p, T.I(d)))) != "proved":
                    raise Unsupported("while: pointer step")
    # match: run as a loop body over the common labels
    class Body:
        pass
    lo, hi = T.I(0), X.n
    st2 = st.copy()

    def guard(kk):
        return T.and_(X.sup(kk), Y.sup(kk))
    it = Iter(lo, hi, lambda kk: Sc(kk), guard)
    I.lib.match = (pi, pj, X, Y)
    saved = dict(I.lib.posmap)
    # during the run, positions pi / pj stand for the label k
    steps = []

    def elem(kk):
        I.lib.posmap[pi] = kk
        I.lib.posmap[pj] = kk
        return (Sc(pi), Sc(pj))
    it.elem = elem
    tgt = ast.Tuple([ast.Name(xi, ast.Store()), ast.Name(yj, ast.Store())], ast.Store())
    chk = ast.Expr(ast.Call(ast.Name("@step", ast.Load()), [ast.Name(xi, ast.Load()), ast.Name(yj, ast.Load())], []))
    ast.fix_missing_locations(tgt)
    ast.fix_missing_locations(chk)

    def step(I2, s3, a, kw):
        for v, p in zip(a, (pi, pj)):
            if not (isinstance(v, Sc) and P.valid(I.hyps(s3), T.eq(v.e, T.add(p, T.I(1)))) == "proved"):
                raise Unsupported("while: pointers do not both advance on a common label")
        steps.append(1)
        return None
    st2.env["@step"] = Builtin("step", step)
    body = [x for x in s.body] + [chk]
    if any(isinstance(x, ast.Continue) for x in ast.walk(ast.Module(s.body, []))):
        raise Unsupported("continue in a merge loop")
    st2.env.pop(xi, None)
    st2.env.pop(yj, None)
    outs = for_loop(I, tgt, it, body, st2, mod)
    I.lib.posmap = saved
    if not steps:
        raise Unsupported("while: no common-label case")
    for o in outs:
        o.st.env[xi] = Poison("position")
        o.st.env[yj] = Poison("position")
    return outs


def assigned(body):
    out = set()
    for n in ast.walk(ast.Module(body, [])):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    return out
