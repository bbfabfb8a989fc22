"""Resilient distributed collections (pyspark): assumed contract.

A collection is a finite family of elements, kept as the segments of the list it
was made from, and the functions mapped over it.  fold(z, op) with one slice per
element folds every slice from z and the slice results from z, in any order: op is
required to be an addition (component by component) or an appending of lists, which
is checked on placeholders.

Blocks: the contract of a model declares functions LO, HI, BLK over block numbers
(consecutive intervals covering 0..n); a sum over the positions inside a block is
re-indexed by vertex: sum_{k < HI(b)-LO(b)} F(k) = sum_{v < n} [BLK(v) = b] F(v - LO(b))."""
import itertools
from . import terms as T
from . import prover as P
from .terms import TRUE, FALSE
from .values import *
from .loops import drop_flags


class RDD:
    def __init__(self, segs, fns=()):
        self.segs, self.fns = tuple(segs), tuple(fns)


class Blocks:
    """Contract of the partition: LO, HI of a block, BLK of a vertex."""

    def __init__(self, n, nb):
        self.n, self.nb = n, nb
        b, c = T.fresh("b"), T.fresh("c")
        self.facts = [T.le(T.I(1), nb),
                      T.all_(b, T.I(0), nb, T.all_(c, T.I(0), nb, T.implies(T.lt(b, c), T.le(self.hi(b), self.lo(c)))))]

        def blk(e):
            v = e.args[1]
            return [T.implies(T.and_(T.le(T.I(0), v), T.lt(v, n)),
                              T.and_(T.le(T.I(0), e), T.lt(e, nb), T.le(self.lo(e), v), T.lt(v, self.hi(e))))]

        def ends(e):
            b = e.args[1]
            return [T.implies(T.and_(T.le(T.I(0), b), T.lt(b, nb)),
                              T.and_(T.le(T.I(0), self.lo(b)), T.le(self.lo(b), self.hi(b)), T.le(self.hi(b), n)))]
        P.FACTS["BLK"], P.FACTS["LO"], P.FACTS["HI"] = blk, ends, ends

    def lo(self, b):
        return T.app("LO", (b,), "I")

    def hi(self, b):
        return T.app("HI", (b,), "I")

    def blk(self, v):
        return T.app("BLK", (v,), "I")

    def reindex(self, e, hyps):
        """Sums and quantifiers over positions of a block, by vertex."""
        memo = {}

        def go(e, hy):
            if not T.has_app(e, {"HI"}):
                return e
            k = (e.id, len(hy))
            if k in memo:
                return memo[k]
            memo[k] = r = step(e, hy)
            return r

        def step(e, hy):
            if e.op in ("sum", "ex", "all", "prod"):
                v, lo, hi, body = T.open_(e, "p")
                r = self.shift(e.op, v, lo, hi, body, hy)
                if r is not None:
                    w, g, body = r
                    hy2 = hy + [T.le(T.I(0), w), T.lt(w, self.n), g]
                    body = go(body, hy2)
                    if e.op == "sum":
                        return T.bsum(w, T.I(0), self.n, T.ite(g, body, T.num(0, body.sort)))
                    if e.op == "ex":
                        return T.ex(w, T.I(0), self.n, T.and_(g, body))
                    if e.op == "all":
                        return T.all_(w, T.I(0), self.n, T.implies(g, body))
                    return T.bprod(w, T.I(0), self.n, T.ite(g, body, T.num(1, body.sort)))
                body = go(body, hy + [T.le(lo, v), T.lt(v, hi)])
                mk = {"sum": T.bsum, "ex": T.ex, "all": T.all_, "prod": T.bprod}[e.op]
                return mk(v, lo, hi, body)
            if e.op == "ite":
                return T.ite(go(e.args[0], hy), go(e.args[1], hy + [e.args[0]]), go(e.args[2], hy + [T.not_(e.args[0])]))
            return T.rebuild(e, [go(x, hy) if isinstance(x, T.E) else x for x in e.args])
        return go(e, list(hyps))

    def unblock(self, d, hyps):
        """Sum over blocks of sums over their vertices as a sum over vertices: the
        block numbers are fixed by the vertices, and what remains of the blocks in
        a guard is replaced by an order of the two vertices that is equivalent."""
        names = {"BLK", "LO", "HI"}
        out = []
        if not T.has_app(d, names):
            return d
        try:
            ts = P.nf(d, hyps)
        except P.Unknown:
            return d
        if len(ts) > 200:
            return d
        memo = {}
        for t in ts:
            t = P.delta(t)
            if t is None:
                continue
            if any(T.has_app(x, names) for x in t.m):
                return d
            lits = P.conj(t.g)
            if any(T.le(T.I(0), v) not in lits or T.lt(v, self.n) not in lits for v in t.bs):
                return d
            blk = [l for l in lits if T.has_app(l, names)]
            rest = [l for l in lits if l not in blk]
            if blk:
                vs = sorted({x.args[1] for l in blk for x in T.apps(l) if x.args[0] == "BLK"}, key=lambda x: x.id)
                cand = [TRUE] + [c for v in vs for w in vs if v is not w for c in (T.le(v, w), T.lt(v, w))]
                rng = [T.and_(T.le(T.I(0), v), T.lt(v, self.n)) for v in t.bs]
                good = None
                key = (tuple(sorted(l.id for l in blk)), tuple(sorted(l.id for l in rest)))
                if key in memo:
                    good = memo[key]
                else:
                    for c in cand:
                        if not self.plausible(T.and_(*blk), c, rest, t.bs):
                            continue
                        if P.valid(list(hyps) + rest + rng, T.eq(T.and_(*blk), c), timeout=4000) == "proved":
                            good = c
                            break
                    memo[key] = good
                if good is None:
                    return d
                rest.append(good)
            body = T.mul(T.num(t.c, d.sort), *t.m)
            x = T.ite(T.and_(*rest), body, T.num(0, body.sort))
            for v in reversed(t.bs):
                x = T.bsum(v, T.I(0), self.n, x)
            out.append(x)
        return T.add(*out) if out else T.num(0, d.sort)

    def plausible(self, g, c, rest, bs):
        """False when g and c differ for some vertices of a small partition (only a
        filter: what passes is proved)."""
        cuts = ((0, 2), (2, 3), (3, 5))
        fv = sorted(set().union(g.fv, c.fv, *[r.fv for r in rest], set(bs)) - {self.n, self.nb}, key=lambda x: x.id)
        if len(fv) > 4 or any(x.sort != "I" for x in fv):
            return True

        def ev(e, m):
            e = T.subst(e, m)

            def f(nm, args, sort):
                if nm in ("LO", "HI", "BLK") and args[0].op == "num":
                    k = int(args[0].args[0])
                    if nm == "BLK":
                        return T.I(next((n for n, (a, b) in enumerate(cuts) if a <= k < b), 0))
                    return T.I(cuts[k][nm == "HI"]) if 0 <= k < 3 else None
                return None
            return T.subst_app(e, f)
        for vals in itertools.product(range(5), repeat=len(fv)):
            m = dict(zip(fv, map(T.I, vals)))
            m[self.n], m[self.nb] = T.I(5), T.I(3)
            if ev(T.and_(*rest), m) is not TRUE:
                continue
            x, y = ev(g, m), ev(c, m)
            if {x, y} == {TRUE, FALSE}:
                return False
        return True

    def shift(self, op, v, lo, hi, body, hy):
        for a in sorted({x for x in T.apps(hi) if x.args[0] == "HI"}, key=lambda x: x.id):
            c = a.args[1]
            s = self.lo(c) if T.isnum(lo, 0) else T.I(0)
            w = T.fresh("v")
            whole = T.add(hi, s) is a and T.add(lo, s) is self.lo(c)
            if not whole and P.valid(hy + [T.lt(lo, hi)], T.and_(T.le(self.lo(c), T.add(lo, s)), T.le(T.add(hi, s), a))) != "proved":
                continue
            g = T.eq(self.blk(w), c)
            if not whole:
                g = T.and_(g, T.le(T.add(lo, s), w), T.lt(w, T.add(hi, s)))
            return w, g, T.subst(body, {v: T.sub(w, s)})
        return None


def exists(binders, body, nb_guard):
    """ex over block numbers, with block numbers fixed by a vertex removed."""
    chain = list(binders)

    def prenex(e):
        if e.op == "ex":
            v, lo, hi, b = T.open_(e, "q")
            chain.append((v, lo, hi))
            return prenex(b)
        if e.op == "and":
            return T.and_(*[prenex(x) for x in e.args])
        return e
    body = prenex(body)
    changed = True
    while changed:
        changed = False
        for v, lo, hi in chain:
            for l in P.conj(body):
                s = P.solve_for(l, v) if l.op == "eq" else None
                if s is not None and v not in s.fv:
                    m = {v: s}
                    body = T.subst(T.and_(body, T.le(lo, v), T.lt(v, hi)), m)
                    chain = [(x, T.subst(a, m), T.subst(b, m)) for x, a, b in chain if x is not v]
                    changed = True
                    break
            if changed:
                break
    for v, lo, hi in reversed(chain):
        body = T.ex(v, lo, hi, body)
    return body


def leaves(segs, binders=(), guards=()):
    for s in segs:
        if s[0] == "el":
            yield binders, guards, s[1]
        elif s[0] == "if":
            yield from leaves(s[2], binders, guards + (s[1],))
        elif s[0] == "for":
            _, k, lo, hi, g, sub = s
            yield from leaves(sub, binders + ((k, lo, hi),), guards + ((g,) if g is not TRUE else ()))
        else:
            raise Unsupported("collection of unknown elements")


def install(I):
    L = I.lib
    I.blocks = None
    I.vertex_of = {}

    def parallelize(I, st, a, k):
        r = I.rec(st, a[0])
        k.get("numSlices")
        if not isinstance(r, Lst):
            raise Unsupported("parallelize of %r" % (a[0],))
        return RDD(r.segs)

    def attr(st, obj, name):
        if isinstance(obj, SymFun) and obj.name == "SparkContext" and name == "parallelize":
            return Builtin(name, parallelize)
        if not isinstance(obj, RDD):
            return None
        if name in ("cache", "persist"):
            return Builtin(name, lambda I, s, a, k: obj)
        if name == "map":
            return Builtin(name, lambda I, s, a, k: RDD(obj.segs, obj.fns + (a[0],)))
        if name == "fold":
            return Builtin(name, lambda I, s, a, k: fold(I, s, obj, a[0], a[1]))
        if name == "sum":
            return None
        if name == "collect":
            return Builtin(name, lambda I, s, a, k: collect(I, s, obj))
        return None
    L.extra_attr.append(attr)
    L.isinst_hooks.append(lambda st, v, c: (TRUE if isinstance(v, SymFun) and v.name == "SparkContext" else FALSE)
                          if isinstance(c, Ext) and c.path == "pyspark.SparkContext" else None)


def element(I, st, rdd, binders, guards, el):
    pc0 = st.pc + tuple(x for k, lo, hi in binders for x in (T.le(lo, k), T.lt(k, hi))) + tuple(guards)
    s1 = St(st.env, dict(st.heap), pc0)
    for k, _, _ in binders:
        I.loopvars.append(k)
    try:
        for f in rdd.fns:
            el = I.call(f, [el], {}, s1)
    finally:
        for _ in binders:
            I.loopvars.pop()
    frame(st, s1)
    # every element completes normally: what that says about the inputs
    ks = {k for k, _, _ in binders}
    for f in s1.pc:
        if f not in pc0 and not any("!" in v.args[0] for v in f.fv - ks):
            f = T.implies(T.and_(*guards), f)
            for k, lo, hi in reversed(binders):
                f = T.all_(k, lo, hi, f) if k in f.fv else T.implies(T.lt(lo, hi), f)
            st.pc = st.pc + (f,)
    return s1, el


def frame(st, s1):
    for a, r in st.heap.items():
        if s1.heap.get(a) is not r:
            raise Unsupported("a mapped function changes shared data")


def collect(I, st, rdd):
    """List of the mapped elements; their records stay on the heap."""
    def go(segs, binders, guards):
        out = []
        for s in segs:
            if s[0] == "el":
                s1, v = element(I, st, rdd, binders, guards, s[1])
                for a, r in s1.heap.items():
                    st.heap.setdefault(a, r)
                out.append(("el", v))
            elif s[0] == "if":
                out.append(("if", s[1], go(s[2], binders, guards + (s[1],))))
            elif s[0] == "for":
                _, k, lo, hi, g, sub = s
                out.append(("for", k, lo, hi, g, go(sub, binders + ((k, lo, hi),), guards + ((g,) if g is not TRUE else ()))))
            else:
                raise Unsupported("collection")
        return tuple(out)
    return I.alloc(st, Lst(go(rdd.segs, (), ())))


def place(I, st, v):
    """Placeholder of the shape of an accumulator."""
    if isinstance(v, tuple):
        return tuple(place(I, st, x) for x in v)
    if isinstance(v, Sc):
        return Sc(T.fresh("ph", "R" if v.sort == "B" else v.sort))
    r = I.rec(st, v)
    if isinstance(r, Arr):
        nm = "ph!%d" % new_addr()
        srt = {"b": "B", "i": "I"}.get(r.kind, "R")
        return I.alloc(st, Arr(r.shape, lambda ix: Sc(T.app(nm, ix, srt)), r.kind, ("ph", nm)))
    if isinstance(r, Lst):
        return I.alloc(st, Lst([("ph", "ph!%d" % new_addr())]))
    raise Unsupported("fold of %r" % (v,))


def clone(I, st, v):
    if isinstance(v, tuple):
        return tuple(clone(I, st, x) for x in v)
    if isinstance(v, Ref):
        return I.alloc(st, I.rec(st, v))
    return v


def fold(I, st, rdd, z, op):
    parts = []
    for binders, guards, el in leaves(rdd.segs):
        s1, x = element(I, st, rdd, binders, guards, el)
        y = I.call(op, [clone(I, s1, z), x], {}, s1)
        ph = place(I, s1, z)
        ids = lambda v: [i for x in v for i in ids(x)] if isinstance(v, tuple) else [v.addr] if isinstance(v, Ref) else []
        w = I.call(op, [ph, y], {}, s1)
        frame(st, s1)
        parts.append((binders, guards, s1, ph, w))
    return combine(I, st, z, [(b, g, s, p, w) for b, g, s, p, w in parts])


def combine(I, st, z, parts):
    if isinstance(z, tuple):
        if any(not isinstance(w, tuple) or len(w) != len(z) for *_, w in parts):
            raise Unsupported("fold: result of another form")
        return tuple(combine(I, st, z[n], [(b, g, s, p[n], w[n]) for b, g, s, p, w in parts]) for n in range(len(z)))
    if isinstance(z, Sc):
        tot = z
        for b, g, s, p, w in parts:
            if not isinstance(w, Sc):
                raise Unsupported("fold: result of another form")
            tot = I.lib.add(st, tot, total(I, st, b, g, s, w, p.e, lambda e: p.e in e.fv))
        return tot
    r = I.rec(st, z)
    if isinstance(r, Arr):
        fs = []
        for b, g, s, p, w in parts:
            a = I.lib.arr(s, w)
            ph = s.heap[p.addr] if isinstance(p, Ref) else None
            pa = I.rec(s, p)
            nm = pa.meta[1]
            if len(a.shape) != len(r.shape) or any(x is not y and not I.known(s, T.eq(x, y)) for x, y in zip(a.shape, r.shape)):
                raise Unsupported("fold: arrays of different shapes")
            fs.append((b, g, s, a, pa, nm))
        ix = tuple(T.fresh("x") for _ in r.shape)
        rng = [T.and_(T.le(T.I(0), i), T.lt(i, n)) for i, n in zip(ix, r.shape)]
        tot = r.fn(ix)
        for b, g, s, a, pa, nm in fs:
            s2 = St(s.env, s.heap, s.pc + tuple(rng))
            tot = I.lib.add(st, tot, total(I, st, b, g, s2, a.fn(ix), pa.fn(ix).e, lambda e: T.has_app(e, {nm}), rng))

        def fn(jx):
            return sub_sc(tot, dict(zip(ix, jx)))
        return I.alloc(st, Arr(r.shape, fn, r.kind if tot.sort != "R" else "f"))
    if isinstance(r, Lst):
        if r.segs:
            raise Unsupported("fold from a non-empty list")
        segs = []
        for b, g, s, p, w in parts:
            ps, ws = I.rec(s, p), I.rec(s, w)
            p0 = s.heap[p.addr]
            if not isinstance(ws, Lst) or not ws.segs or ws.segs[0][0] != "ph":
                raise Unsupported("fold: not an appending of lists")
            sub = segs_blocks(I, s, b, g, ws.segs[1:])
            for k, lo, hi in reversed(b):
                sub = (("for", k, lo, hi, TRUE, sub),)
            segs.extend(sub)
        return I.alloc(st, Lst(segs))
    raise Unsupported("fold of %r" % (z,))


def total(I, st, binders, guards, s, w, ph, dep, rng=()):
    """Sum over the family of what one element adds to the placeholder."""
    d = T.sub(T.toreal(w.e) if ph.sort == "R" else w.e, ph)
    if d.sort != ph.sort:
        d = T.sub(T.toreal(w.e), T.toreal(ph))
    if dep(d) or any(dep(x) for x in (w.pinf, w.ninf, w.nan)):
        raise Unsupported("fold: not an addition")
    hy = I.hyps(s)
    if w.nan is not FALSE and P.valid(hy, T.not_(w.nan)) != "proved":
        raise Unsupported("fold: possibly undefined sum")
    fl = []
    for x in (w.pinf, w.ninf):
        if x is not FALSE and P.valid(hy, T.not_(x)) == "proved":
            x = FALSE
        fl.append(x)
    if fl[0] is not FALSE and fl[1] is not FALSE:
        raise Unsupported("fold: infinities of both signs")
    g = T.and_(*guards)
    d = T.ite(g, d, T.num(0, d.sort))
    fl = [T.and_(g, x) for x in fl]
    if I.blocks is not None:
        d = I.blocks.reindex(d, hy)
        fl = [I.blocks.reindex(x, hy) for x in fl]
    for k, lo, hi in reversed(binders):
        d = T.bsum(k, lo, hi, d)
    if I.blocks is not None:
        d = I.blocks.unblock(d, list(I.hyps(st)) + list(rng))
    fl = [x if x is FALSE else exists(binders, x, None) for x in fl]
    return Sc(d, fl[0], fl[1])


def segs_blocks(I, s, binders, guards, segs):
    """The appended entries, indexed by vertex; draws are renamed by the vertices
    (block, position) stands for."""
    B = I.blocks

    def go(segs, hy):
        out = []
        for x in segs:
            if x[0] == "for":
                _, k, lo, hi, g, sub = x
                r = B.shift("sum", k, lo, hi, T.I(0), hy) if B is not None and T.has_app(hi, {"HI"}) else None
                if r is None:
                    out.append(("for", k, lo, hi, g, go(sub, hy + [T.le(lo, k), T.lt(k, hi), g])))
                    continue
                w, gd, _ = r
                w0 = I.vertex_of.setdefault(k, w)       # lists filled together stay aligned
                w, gd = w0, T.subst(gd, {w: w0})
                c = next(t for l in P.conj(gd) if l.op == "eq" for t in l.args if not (t.op == "app" and t.args[0] == "BLK" and t.args[1] is w))
                m = {k: T.sub(w, B.lo(c)) if T.isnum(lo, 0) else w}
                sub2 = sub_segs(sub, m)
                g2 = T.and_(gd, T.subst(g, m))
                out.append(("for", w, T.I(0), B.n, g2, go(sub2, hy + [T.le(T.I(0), w), T.lt(w, B.n), g2])))
            elif x[0] == "if":
                out.append(("if", x[1], go(x[2], hy + [x[1]])))
            else:
                out.append(x)
        return tuple(out)
    r = go(segs, I.hyps(s))
    if any(True for _ in guards):
        r = (("if", T.and_(*guards), r),)
    return r


def sub_segs(segs, m):
    from .lib import sub_value
    out = []
    for x in segs:
        if x[0] == "el":
            out.append(("el", sub_value(x[1], m)))
        elif x[0] == "if":
            out.append(("if", T.subst(x[1], m), sub_segs(x[2], m)))
        elif x[0] == "for":
            out.append(("for", x[1], T.subst(x[2], m), T.subst(x[3], m), T.subst(x[4], m), sub_segs(x[5], m)))
        else:
            out.append(x)
    return tuple(out)
