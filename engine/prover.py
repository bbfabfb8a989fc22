"""Discharge of verification conditions.

z3 decides the quantifier-free (and simply quantified) part; finite sums over
symbolic ranges are compared by a normal form (guarded monomials under
binders) whose coefficient functions are compared pointwise by z3.  Every rule
used on sums and products is one of the lemmas of lemmas/Sums.lean."""
import itertools
import time
import z3
from . import terms as T
from .terms import E, TRUE, FALSE
from . import evalt

STAT = {"z3_calls": 0, "z3_s": 0.0, "nf_checks": 0}
USorts = {}
from .evalt import FACTS
TIMEOUT = 8000
GOAL_LIMIT = [float("inf")]      # processor time at which the current obligation is given up


class Unknown(Exception):
    pass


def usort(name="U"):
    if name not in USorts:
        USorts[name] = z3.DeclareSort(name)
    return USorts[name]


def zsort(s):
    d = {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}.get(s)
    return usort() if d is None else d


def canon_fv(e):
    """Free variables of e in order of first occurrence."""
    out, seen, vis = [], set(), set()

    def go(x, bound):
        if x.op == "var":
            if x not in bound and x not in seen:
                seen.add(x)
                out.append(x)
            return
        key = x
        if key in vis and not bound:
            return
        vis.add(key)
        if x.op in ("sum", "prod", "ex"):
            go(x.args[1], bound)
            go(x.args[2], bound)
            go(x.args[3], bound | {x.args[0]})
            return
        for a in x.args:
            if isinstance(a, E):
                go(a, bound)
    go(e, frozenset())
    return out


class Tr:
    def __init__(self):
        self.memo = {}
        self.special = {"EXP": set(), "LOG": set()}
        self.binders = set()
        self.known = set()

    def key(self, e):
        fv = canon_fv(e)
        m = {v: T.var("@%d" % i, v.sort) for i, v in enumerate(fv)}
        return T.subst(e, m), fv

    def z(self, e):
        r = self.memo.get(e)
        if r is None:
            r = self._z(e)
            self.memo[e] = r
        return r

    def _z(self, e):
        op, a = e.op, e.args
        if op == "num":
            if e.sort == "I":
                return z3.IntVal(int(a[0]))
            return z3.RealVal(str(a[0]))
        if op == "var":
            return z3.Const(a[0], zsort(e.sort))
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "app":
            name = a[0]
            args = []
            for x in a[1:]:
                if isinstance(x, E):
                    args.append(self.z(x))
                else:
                    name += "|" + str(x)
            if name in ("EXP", "LOG"):
                self.special[name].add(e)
            if name in FACTS:
                self.known.add(e)
            if not args:
                return z3.Const("app:" + name, zsort(e.sort))
            f = z3.Function("f:" + name, *[x.sort() for x in args], zsort(e.sort))
            return f(*args)
        if op == "add":
            return z3.Sum([self.z(x) for x in a])
        if op == "mul":
            r = self.z(a[0])
            for x in a[1:]:
                r = r * self.z(x)
            return r
        if op == "inv":
            return 1 / self.z(a[0])
        if op == "toreal":
            return z3.ToReal(self.z(a[0]))
        if op == "ite":
            return z3.If(self.z(a[0]), self.z(a[1]), self.z(a[2]))
        if op == "eq":
            return self.z(a[0]) == self.z(a[1])
        if op == "lt":
            return self.z(a[0]) < self.z(a[1])
        if op == "le":
            return self.z(a[0]) <= self.z(a[1])
        if op == "and":
            return z3.And([self.z(x) for x in a])
        if op == "or":
            return z3.Or([self.z(x) for x in a])
        if op == "not":
            return z3.Not(self.z(a[0]))
        if op in ("sum", "prod"):
            self.binders.add(e)
            k, fv = self.key(e)
            name = "%s#%d" % (op, k.id)
            if not fv:
                return z3.Const(name, zsort(e.sort))
            f = z3.Function(name, *[zsort(v.sort) for v in fv], zsort(e.sort))
            return f(*[self.z(v) for v in fv])
        if op == "ex":
            v, lo, hi, b = T.open_(e, "q")
            inner = Tr()
            inner.special, inner.binders = {"EXP": set(), "LOG": set()}, set()
            zb = inner.z(T.and_(T.le(lo, v), T.lt(v, hi), b))
            return z3.Exists([z3.Int(v.args[0])], zb)
        raise Unknown("translate " + op)


def axioms(tr, depth, hyps):
    """Ground facts about EXP, LOG, sums and products occurring in tr."""
    out = []
    exps, logs = list(tr.special["EXP"]), list(tr.special["LOG"])
    Z = tr.z
    ea = [(e, e.args[1]) for e in exps]
    la = [(e, e.args[1]) for e in logs]
    for e, u in ea:
        out += [Z(e) > 0, Z(e) >= 1 + Z(u), z3.Implies(Z(u) == 0, Z(e) == 1),
                z3.Implies(Z(u) < 0, Z(e) < 1)]
    for (e, u), (f, v) in itertools.combinations(ea, 2):
        out += [(Z(u) <= Z(v)) == (Z(e) <= Z(f)), (Z(u) == Z(v)) == (Z(e) == Z(f))]
        if T.add(u, v) is T.R(0):
            out.append(Z(e) * Z(f) == 1)
    for e, u in la:
        out += [z3.Implies(Z(u) > 0, Z(e) <= Z(u) - 1), z3.Implies(Z(u) == 1, Z(e) == 0),
                z3.Implies(z3.And(Z(u) > 0, Z(u) < 1), Z(e) < 0), z3.Implies(Z(u) > 1, Z(e) > 0)]
        for f, v in ea:
            out += [(Z(u) == Z(f)) == z3.And(Z(u) > 0, Z(e) == Z(v))]
    for (e, u), (f, v) in itertools.combinations(la, 2):
        out += [z3.Implies(z3.And(Z(u) > 0, Z(v) > 0), (Z(u) <= Z(v)) == (Z(e) <= Z(f))),
                z3.Implies(z3.And(Z(u) > 0, Z(v) > 0), (Z(u) == Z(v)) == (Z(e) == Z(f)))]
    for e in list(tr.known):
        for f in FACTS[e.args[0]](e):
            out.append(Z(f))
    if depth > 0:
        for e in list(tr.binders):
            out += binder_facts(tr, e, depth, hyps)
    return out


_bf = {}


def binder_facts(tr, e, depth, hyps):
    v, lo, hi, b = T.open_(e, "p")
    H = list(hyps) + [T.le(lo, v), T.lt(v, hi)]
    zero, one = T.num(0, b.sort), T.num(1, b.sort)
    out = []

    ids = frozenset(h.id for h in hyps)
    bv = e.args[0]

    def P(g):
        key = (e, T.subst(g, {v: bv}))
        pr, un = _bf.setdefault(key, ([], []))
        if any(x <= ids for x in pr):
            return True
        if any(ids <= x for x in un):
            return False
        r = valid(H, g, depth=depth - 1, timeout=1000) == "proved"
        (pr if r else un).append(ids)
        return r
    Z = tr.z
    if e.op == "prod":
        ge0 = P(T.le(zero, b))
        if ge0:
            out.append(Z(e) >= 0)
            if P(T.lt(zero, b)):
                out.append(Z(e) > 0)
            else:
                out.append((Z(e) == 0) == Z(T.ex(v, lo, hi, T.eq(b, zero))))
            if P(T.le(b, one)):
                out.append(Z(e) <= 1)
                # below 1 exactly when some factor is below 1
                out.append((Z(e) == 1) == Z(T.not_(T.ex(v, lo, hi, T.ne(b, one)))))
            elif P(T.le(one, b)):
                out.append(Z(e) >= 1)
        else:
            out.append(z3.Implies(Z(T.ex(v, lo, hi, T.eq(b, zero))), Z(e) == 0))
    else:
        if P(T.le(zero, b)):
            out.append(Z(e) >= 0)
            out.append((Z(e) == 0) == Z(T.not_(T.ex(v, lo, hi, T.ne(b, zero)))))
        else:
            if P(T.le(b, zero)):
                out.append(Z(e) <= 0)
            out.append(z3.Implies(Z(T.not_(T.ex(v, lo, hi, T.ne(b, zero)))), Z(e) == 0))
    return out


_cache = {}


def valid(hyps, goal, depth=1, timeout=None, model=False):
    """'proved', 'refuted' (z3 found a countermodel of the abstracted VC) or
    'unknown'."""
    hyps = [h for h in hyps if h is not TRUE]
    if goal is TRUE:
        return "proved"
    if any(h is FALSE for h in hyps):
        return "proved"
    key = (tuple(sorted(h.id for h in hyps)), goal.id, depth)
    if key in _cache and not model:
        return _cache[key]
    if time.process_time() > GOAL_LIMIT[0]:
        raise Unknown("time for this obligation used up")
    tr = Tr()
    s = z3.Solver()
    # the budget is z3's resource count, so the answer does not depend on the load of the machine
    s.set("rlimit", (timeout or TIMEOUT) * 20000)
    left = max(0.2, GOAL_LIMIT[0] - time.process_time())
    cut = left * 1000 < (timeout or TIMEOUT) * 20
    s.set("timeout", int(left * 1000) if cut else (timeout or TIMEOUT) * 20)
    zs = [tr.z(h) for h in hyps] + [z3.Not(tr.z(goal))]
    s.add(*zs)
    s.add(*axioms(tr, depth, hyps))
    t0 = time.time()
    r = s.check()
    STAT["z3_calls"] += 1
    STAT["z3_s"] += time.time() - t0
    res = {"unsat": "proved", "sat": "refuted"}.get(str(r), "unknown")
    if res != "unknown" or not cut:
        _cache[key] = res
    elif time.process_time() > GOAL_LIMIT[0]:
        raise Unknown("time for this obligation used up")
    if model:
        return res, (s.model() if r == z3.sat else None)
    return res


def sat(hyps, timeout=2000):
    return valid(hyps, FALSE, timeout=timeout) != "proved"


# ---------------------------------------------------------------- normal form

class Term:
    __slots__ = ("c", "bs", "g", "m")

    def __init__(self, c, bs, g, m):
        self.c, self.bs, self.g, self.m = c, tuple(bs), g, tuple(m)

    def __repr__(self):
        return "%s*S%s[%s]%s" % (self.c, list(self.bs), self.g, list(self.m))


LIMIT = 4000


def nf(e, hyps=()):
    """Real/int term -> list of Term."""
    op, a = e.op, e.args
    if op == "num":
        return [] if a[0] == 0 else [Term(a[0], (), TRUE, ())]
    if op == "add":
        out = []
        for x in a:
            out += nf(x, hyps)
        return out
    if op == "mul":
        cur = [Term(1, (), TRUE, ())]
        for x in a:
            nx = nf(x, hyps)
            cur = [Term(p.c * q.c, p.bs + q.bs, T.and_(p.g, q.g), p.m + q.m)
                   for p in cur for q in refresh(nx)]
            cur = [t for t in cur if t.g is not FALSE]
            if len(cur) > LIMIT:
                raise Unknown("normal form too large")
        return cur
    if op == "ite":
        out = []
        for cc, x in ((a[0], a[1]), (T.not_(a[0]), a[2])):
            for t in nf(x, hyps):
                g = T.and_(cc, t.g)
                if g is not FALSE:
                    out.append(Term(t.c, t.bs, g, t.m))
        return out
    if op == "sum":
        v, lo, hi, b = T.open_(e, "s")
        r = T.and_(T.le(lo, v), T.lt(v, hi))
        return [Term(t.c, (v,) + t.bs, T.and_(r, t.g), t.m) for t in nf(b, hyps)]
    if op == "toreal":
        x = a[0]
        if x.op == "var" or x.op == "app":
            return [Term(1, (), TRUE, (e,))]
        return [Term(t.c, t.bs, t.g, tuple(T.toreal(y) for y in t.m)) for t in nf(x, hyps)]
    if op == "inv":
        return inv_nf(e, hyps)
    return [Term(1, (), TRUE, (e,))]


def inv_nf(e, hyps):
    x = e.args[0]
    if x.op == "ite":
        return nf(T.ite(x.args[0], T.inv(x.args[1]), T.inv(x.args[2])), hyps)
    if x.op == "mul":
        return nf(T.mul(*[T.inv(y) for y in x.args]), hyps) if all(True for y in x.args) else None
    if x.op == "app" and x.args[0] == "EXP":
        return nf(T.app("EXP", (T.neg(x.args[1]),), "R"), hyps)
    return [Term(1, (), TRUE, (e,))]


def refresh(ts):
    out = []
    for t in ts:
        m = {b: T.fresh("s") for b in t.bs}
        out.append(ren(t, m) if m else t)
    return out


def ren(t, m):
    return Term(t.c, tuple(m.get(b, b) for b in t.bs if m.get(b, b).op == "var"),
                T.subst(t.g, m), tuple(T.subst(x, m) for x in t.m))


def conj(g):
    return g.args if g.op == "and" else (g,)


def solve_for(lit, v):
    """lit: eq(a,b) integers, linear in v with coefficient +-1 -> term."""
    if lit.op != "eq" or v not in lit.fv or lit.args[0].sort != "I":
        return None
    d = T.sub(lit.args[0], lit.args[1])
    parts = d.args if d.op == "add" else (d,)
    c, rest = None, []
    for p in parts:
        if v in p.fv:
            if p is v:
                k = 1
            elif p.op == "mul" and p.args[0].op == "num" and len(p.args) == 2 and p.args[1] is v:
                k = p.args[0].args[0]
            else:
                return None
            if c is not None:
                return None
            c = k
        else:
            rest.append(p)
    if c not in (1, -1):
        return None
    r = T.add(*rest) if rest else T.I(0)
    return T.neg(r) if c == 1 else r


def delta(t):
    """Eliminate binders fixed by an equality in the guard."""
    changed = True
    while changed:
        changed = False
        for lit in conj(t.g):
            if lit.op != "eq":
                continue
            for b in t.bs:
                s = solve_for(lit, b)
                if s is not None:
                    m = {b: s}
                    t = Term(t.c, tuple(x for x in t.bs if x is not b), T.subst(t.g, m),
                             tuple(T.subst(x, m) for x in t.m))
                    changed = True
                    break
            if changed:
                break
        if not changed:
            # free-variable equalities: substitute the newer variable
            pass
        if t.g is FALSE:
            return None
    return t


def dnf_split(t, hyps):
    """Split disjunctive guards that contain equalities on binders."""
    return [t]


def idx_terms(t, extra):
    """Index terms the binders may coincide with: other binders and integer
    variables / simple index terms occurring in the monomial."""
    out = []
    for x in t.m:
        for y in ints_of(x):
            if y not in out:
                out.append(y)
    return out


def ints_of(x):
    res = []

    def go(e):
        if e.op == "app":
            for a in e.args[1:]:
                if isinstance(a, E):
                    if a.sort == "I" and a.op != "num":
                        if a not in res:
                            res.append(a)
                    go(a)
        elif e.op == "toreal":
            if e.args[0] not in res:
                res.append(e.args[0])
        elif e.op in ("sum", "prod", "ex"):
            for a in e.args[1:]:
                go(a)
        else:
            for a in e.args:
                if isinstance(a, E):
                    go(a)
    go(x)
    return [r for r in res if not any(v.args[0].startswith("#") for v in r.fv)]


def classes(ts):
    """Index positions that may hold the same index: positions of function
    arguments joined by a common term or by an equation in a guard."""
    par = {}

    def find(x):
        par.setdefault(x, x)
        while par[x] != x:
            par[x] = par[par[x]]
            x = par[x]
        return x

    def union(x, y):
        par[find(x)] = find(y)

    def go(e, seen):
        if e in seen:
            return
        seen.add(e)
        if e.op == "app":
            for n, a in enumerate(e.args[1:]):
                if isinstance(a, E) and a.sort == "I" and a.op != "num":
                    for v in a.fv:
                        union(("t", v), ("p", e.args[0], n))
        if e.op == "eq" and e.args[0].sort == "I":
            vs = list(e.args[0].fv | (e.args[1].fv if len(e.args) > 1 else frozenset()))
            for v in vs[1:]:
                union(("t", vs[0]), ("t", v))
        for a in e.args:
            if isinstance(a, E):
                go(a, seen)
    seen = set()
    for t in ts:
        for x in t.m:
            go(x, seen)
        go(t.g, seen)
    return lambda a, b: any(find(("t", v)) == find(("t", w)) for v in a.fv for w in b.fv)


def split_terms(t, hyps, comp=None):
    """Split on every pairwise coincidence of index terms that involve a
    binder; returns terms in which binders are pairwise distinct from all other
    index terms."""
    t = delta(t)
    if t is None:
        return []
    done = set()
    work = [(t, frozenset())]
    out = []
    while work:
        t, seen = work.pop()
        idx = idx_terms(t, ())
        for b in t.bs:
            if b not in idx:
                idx.append(b)
        pair = None
        for x, y in itertools.combinations(idx, 2):
            if not any(b in x.fv or b in y.fv for b in t.bs):
                pass
            lit = T.eq(x, y)
            if lit in (TRUE, FALSE) or lit in seen:
                continue
            if comp is not None and not comp(x, y):
                continue
            if not any(solve_for(lit, b) is not None for b in t.bs):
                continue
            pair = lit
            break
        if pair is None:
            out.append(t)
            continue
        g1 = T.and_(t.g, pair)
        g2 = T.and_(t.g, T.not_(pair))
        if g1 is not FALSE and sat(list(hyps) + [g1]):
            t1 = delta(Term(t.c, t.bs, g1, t.m))
            if t1 is not None:
                work.append((t1, frozenset()))
        if g2 is not FALSE and sat(list(hyps) + [g2]):
            work.append((Term(t.c, t.bs, g2, t.m), seen | {pair}))
        if len(out) + len(work) > LIMIT:
            raise Unknown("too many splits")
    return out


def keep(t, b):
    """Keep a binder that cannot be counted out: the summand is 1 times its
    guard, compared index by index (cnt(b) stands for 1)."""
    return Term(t.c, t.bs, t.g, t.m + (T.app("cnt", (b,), "R"),))


def count_out(t, hyps, counting=True):
    """Remove binders that do not occur in the monomial by counting."""
    if not counting:
        for b in t.bs:
            if not any(b in x.fv for x in t.m):
                t = keep(t, b)
        return [t]
    res = [t]
    final = []
    while res:
        t = res.pop()
        b = next((b for b in t.bs if not any(b in x.fv for x in t.m)), None)
        if b is None:
            final.append(t)
            continue
        lits = [l for l in conj(t.g)]
        inb = [l for l in lits if b in l.fv]
        outb = [l for l in lits if b not in l.fv]
        # orient: not(eq) literals -> inclusion / exclusion
        neq = next((l for l in inb if l.op == "not" and l.args[0].op == "eq"
                    and solve_for(l.args[0], b) is not None), None)
        if neq is not None:
            g = T.and_(*[l for l in lits if l is not neq])
            res.append(Term(t.c, t.bs, g, t.m))
            d = delta(Term(-t.c, t.bs, T.and_(g, neq.args[0]), t.m))
            if d is not None:
                res.append(d)
            continue
        los, his, bad = [], [], []
        for l in inb:
            bd = bound_of(l, b)
            if bd is None:
                bad.append(l)
            elif bd[0] == "lo":
                los.append(bd[1])
            else:
                his.append(bd[1])
        if bad:
            # disjunction: split on its first disjunct
            l = bad[0]
            if l.op == "or":
                rest = [x for x in lits if x is not l]
                d0, dr = l.args[0], T.or_(*l.args[1:])
                res.append(Term(t.c, t.bs, T.and_(d0, *rest), t.m))
                res.append(Term(t.c, t.bs, T.and_(T.not_(d0), dr, *rest), t.m))
                continue
            res.append(keep(t, b))
            continue
        if not los or not his:
            raise Unknown("count: unbounded")
        lo, hi = None, None
        pre = outb
        # pick dominating bounds (case split when several)
        cases = [(los[0], his[0], [])]
        for x in los[1:]:
            cases = [(x, h, c + [T.le(l, x)]) for l, h, c in cases] + \
                    [(l, h, c + [T.lt(x, l)]) for l, h, c in cases]
        for x in his[1:]:
            cases = [(l, x, c + [T.le(x, h)]) for l, h, c in cases] + \
                    [(l, h, c + [T.lt(h, x)]) for l, h, c in cases]
        for l, h, c in cases:
            g = T.and_(*(outb + c + [T.lt(l, h)]))
            if g is FALSE:
                continue
            n = T.sub(h, l)
            for u in nf(T.toreal(n), hyps):
                res.append(Term(t.c * u.c, tuple(x for x in t.bs if x is not b) + u.bs,
                                T.and_(g, u.g), t.m + u.m))
    return final


def bound_of(l, b):
    """Literal -> ('lo', t): b >= t   or ('hi', t): b < t."""
    if l.op == "lt":       # d < 0
        d, neg = l.args[0], False
    elif l.op == "not" and l.args[0].op == "lt":
        d, neg = l.args[0].args[0], True     # d >= 0
    else:
        return None
    if d.sort != "I":
        return None
    parts = d.args if d.op == "add" else (d,)
    k, rest = None, []
    for p in parts:
        if b in p.fv:
            if p is b:
                k = 1
            elif p.op == "mul" and len(p.args) == 2 and p.args[0].op == "num" and p.args[1] is b:
                k = int(p.args[0].args[0])
            else:
                return None
        else:
            rest.append(p)
    r = T.add(*rest) if rest else T.I(0)
    if k == 1:
        return ("lo", T.neg(r)) if neg else ("hi", T.neg(r))
    if k == -1:
        return ("hi", T.add(r, T.I(1))) if neg else ("lo", T.add(r, T.I(1)))
    return None


def match_mono(t, ref):
    """All binder renamings of t that turn its monomial into ref's."""
    if len(t.bs) != len(ref.bs) or len(t.m) != len(ref.m):
        return []
    res = []
    rm = sorted(x.id for x in ref.m)
    for perm in itertools.permutations(ref.bs):
        m = dict(zip(t.bs, perm))
        tmp = {b: T.fresh("r") for b in t.bs}
        back = {tmp[b]: m[b] for b in t.bs}
        mm = sorted(T.subst(T.subst(x, tmp), back).id for x in t.m)
        if mm == rm:
            res.append((tmp, back))
    return res


def eval_pow(m):
    """Cancel x * 1/x is not done (needs x != 0); just sort."""
    return tuple(sorted(m, key=lambda x: x.id))


def prepare(e, hyps, typed=True, counting=True):
    out = []
    ts = nf(e, hyps)
    comp = classes(ts) if typed else None
    for t in ts:
        for s in split_terms(t, hyps, comp):
            for u in count_out(s, hyps, counting):
                u = Term(u.c, u.bs, u.g, eval_pow(u.m))
                out.append(u)
    return out


def sum_eq(hyps, a, b, want_cex=False):
    """Prove a == b (terms with sums) under hyps.  Returns (status, info)."""
    STAT["nf_checks"] += 1
    d = T.sub(T.toreal(a), T.toreal(b))
    if isinstance(d, E) and d.op == "num":
        return ("proved", None) if d.args[0] == 0 else ("refuted", "constant difference %s" % d)
    r = sum_eq1(hyps, d, True)
    if r[0] != "proved":
        r2 = sum_eq1(hyps, d, False)
        if r2[0] == "proved" or r[0] == "unknown":
            r = r2
        if r[0] != "proved" and KEPT[0]:
            r3 = sum_eq1(hyps, d, False, False)
            if r3[0] == "proved":
                r = r3
    return r


KEPT = [False]


def sum_eq1(hyps, d, typed, counting=True):
    KEPT[0] = False
    try:
        ts = prepare(d, hyps, typed, counting)
        KEPT[0] = any(x.op == "app" and x.args[0] == "cnt" for t in ts for x in t.m)
    except Unknown as ex:
        return "unknown", str(ex)
    ts = [t for t in ts if sat(list(hyps) + [t.g])]
    groups = []
    for t in ts:
        for g in groups:
            ms = match_mono(t, g[0])
            if ms:
                tmp, back = ms[0]
                g.append(ren(ren(t, tmp), back))
                break
        else:
            groups.append([t])
    for g in groups:
        st, info = coef_zero(hyps, g)
        if st != "proved":
            return st, info
    return "proved", None


def coef_zero(hyps, g):
    c = T.add(*[T.ite(t.g, T.R(t.c), T.R(0)) for t in g])
    st = valid(hyps, T.eq(c, T.R(0)))
    if st == "proved":
        return st, None
    # where a factor is 0 the term is 0 anyway
    nz = [T.ne(x, T.num(0, x.sort)) for x in g[0].m if x.op == "app" and x.sort in "RI" and x.args[0] != "cnt"]
    if nz and valid(list(hyps) + nz, T.eq(c, T.R(0))) == "proved":
        return "proved", None
    # symmetrise over automorphisms of the monomial
    ref = g[0]
    if len(ref.bs) > 1:
        auts = match_mono(ref, ref)
        if len(auts) > 1:
            tot = T.add(*[T.subst(T.subst(c, tmp), back) for tmp, back in auts])
            st = valid(hyps, T.eq(tot, T.R(0)))
            if st == "proved":
                return st, None
    return st, "coefficient of %s under %s: %s" % (list(ref.m), list(ref.bs), c)


# ------------------------------------------------- equality with congruences

def products(e, acc=None, seen=None):
    if acc is None:
        acc, seen = [], set()
    if e in seen:
        return acc
    seen.add(e)
    if e.op == "prod":
        acc.append(e)
    for a in e.args:
        if isinstance(a, E):
            products(a, acc, seen)
    return acc


def replace(e, m):
    """Replace closed sub-terms (not under binders that bind them)."""
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ("num", "var", "true", "false"):
            r = x
        elif x.op in ("sum", "prod", "ex"):
            v, lo, hi, b = T.open_(x)
            b2 = replace(b, m)
            lo2, hi2 = go(lo), go(hi)
            r = x if (b2 is b and lo2 is lo and hi2 is hi) else \
                {"sum": T.bsum, "prod": T.bprod, "ex": T.ex}[x.op](v, lo2, hi2, b2)
        elif x.op == "app":
            r = T.app(x.args[0], [go(a) if isinstance(a, E) else a for a in x.args[1:]], x.sort)
        else:
            r = T.rebuild(x, [go(a) for a in x.args])
        memo[x] = r
        return r
    return go(e)


def has(e, ops):
    seen = set()

    def go(x):
        if x in seen:
            return False
        seen.add(x)
        if x.op in ops:
            return True
        return any(go(a) for a in x.args if isinstance(a, E))
    return go(e)


def top_binders(e):
    """Sum / product nodes not inside another binder."""
    out, seen = [], set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op in ("sum", "prod"):
            out.append(x)
            return
        for a in x.args:
            if isinstance(a, E):
                go(a)
    go(e)
    return out


def congruence(hyps, goal, depth=2):
    """Unify top-level sums/products with provably equal ranges and bodies."""
    bs = top_binders(goal)
    if depth >= 2:
        for h in hyps:
            for b in top_binders(h):
                if b not in bs:
                    bs.append(b)
    m = {}
    for x, y in itertools.combinations(bs, 2):
        if x in m or y in m or x.op != y.op or x.sort != y.sort:
            continue
        v, lo, hi, bx = T.open_(x)
        _, lo2, hi2, by = y.args[0], y.args[1], y.args[2], T.subst(y.args[3], {y.args[0]: v})
        if lo is not lo2 or hi is not hi2:
            if valid(hyps, T.and_(T.eq(lo, lo2), T.eq(hi, hi2))) != "proved":
                continue
        H = list(hyps) + [T.le(lo, v), T.lt(v, hi)]
        st, _ = prove_eq(H, bx, by, depth=depth - 1)
        if st == "proved":
            m[y] = x
    fs = []
    for e in [goal] + list(hyps):
        for a in top_apps(e):
            if a not in fs:
                fs.append(a)
    for x, y in itertools.combinations(fs, 2):
        if x in m or y in m or x.args[0] != y.args[0]:
            continue
        st, _ = prove_eq(hyps, x.args[1], y.args[1], depth=depth - 1)
        if st == "proved":
            m[y] = x
    return m


def top_apps(e):
    """exp/log of a term with sums, not under a binder."""
    out, seen = [], set()

    def go(x):
        if x in seen or x.op in ("sum", "prod", "ex"):
            return
        seen.add(x)
        if x.op == "app" and x.args[0] in ("EXP", "LOG") and has(x, ("sum", "prod")):
            out.append(x)
        for a in x.args:
            if isinstance(a, E):
                go(a)
    go(e)
    return out


def exp_rules(e):
    """prod EXP(u_k) -> EXP(sum u_k) where the factor is EXP or 1 by cases."""
    def as_exp(b):
        if b.op == "app" and b.args[0] == "EXP":
            return b.args[1]
        if T.isnum(b, 1):
            return T.R(0)
        if b.op == "ite":
            x, y = as_exp(b.args[1]), as_exp(b.args[2])
            if x is not None and y is not None:
                return T.ite(b.args[0], x, y)
        return None
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ("num", "var", "true", "false"):
            r = x
        elif x.op in ("sum", "prod", "ex"):
            v, lo, hi, b = T.open_(x)
            b = exp_rules(b)
            u = as_exp(b) if x.op == "prod" else None
            if u is not None:
                r = T.app("EXP", (T.bsum(v, lo, hi, u),), "R")
            else:
                r = {"sum": T.bsum, "prod": T.bprod, "ex": T.ex}[x.op](v, go(lo), go(hi), b)
        elif x.op == "app":
            r = T.app(x.args[0], [go(a) if isinstance(a, E) else a for a in x.args[1:]], x.sort)
        else:
            r = T.rebuild(x, [go(a) for a in x.args])
        memo[x] = r
        return r
    return go(e)


def prove_eq(hyps, a, b, depth=2):
    if a is b:
        return "proved", None
    if a.sort == "B":
        return prove(hyps, T.and_(T.implies(a, b), T.implies(b, a)), depth)
    info = None
    a1, b1 = exp_rules(a), exp_rules(b)
    if a1 is b1:
        return "proved", None
    if has(a1, ("sum",)) or has(b1, ("sum",)):
        st, info = sum_eq(hyps, a1, b1)
        if st == "proved":
            return st, info
        first = (st, info)
    else:
        first = None
    g = T.eq(a1, b1)
    st = valid(hyps, g)
    if st == "proved":
        return st, None
    if depth > 0:
        m = congruence(hyps, g, depth)
        if m:
            g2 = replace(g, m)
            h2 = [replace(h, m) for h in hyps]
            st2 = valid(h2, g2)
            if st2 == "proved":
                return st2, None
            a2, b2 = replace(a1, m), replace(b1, m)
            if has(a2, ("sum",)) or has(b2, ("sum",)):
                st3, info3 = sum_eq(h2, a2, b2)
                if st3 == "proved":
                    return st3, None
                if first:
                    first = (st3, info3)
    if first is not None:
        return first
    return st, "%s  vs  %s" % (a1, b1)


def pieces(e, acc):
    """Sum expressions that occur as divisors, factors or compared values."""
    seen = set()

    def want(x):
        if x.sort in "IR" and x not in acc and (has(x, ("sum",)) or unfold_top(x) is not x):
            acc.append(x)

    def go(x):
        if x in seen or x.op in ("sum", "prod", "ex"):
            return
        seen.add(x)
        if x.op == "inv" or (x.op == "eq" and x.args[0].sort in "IR"):
            for y in x.args:
                want(y)
        if x.op in ("lt", "le"):
            for y in x.args:
                want(y)
        if x.op == "mul":
            for y in x.args:
                if y.op != "inv":
                    want(y)
            r = [y for y in x.args if y.op not in ("inv", "num")]
            if len(r) > 1:
                want(T.mul(*r))
        if x.op == "ite" and x.sort in "IR":
            want(x.args[1])
            want(x.args[2])
        for y in x.args:
            if isinstance(y, E):
                go(y)
    go(e)
    return acc


def skolem(hyps, hints=()):
    """Existential hypotheses are opened; hint functions of the witness are
    evaluated."""
    out, hs = [], []
    todo = list(hyps)
    while todo:
        h = todo.pop(0)
        if h.op == "and":
            todo = list(h.args) + todo
        elif h.op == "ex":
            v, lo, hi, b = T.open_(h, "w")
            todo = [T.le(lo, v), T.lt(v, hi), b] + todo
            for f in hints:
                if callable(f):
                    r = f(v)
                    hs += list(r) if isinstance(r, (tuple, list)) else [r]
        else:
            out.append(h)
    return out, hs + [h for h in hints if isinstance(h, E)]


def unfold_top(e):
    """Contract symbols outside sums replaced by their definitions."""
    m, seen = {}, set()

    def go(x):
        if x in seen or x.op in ("sum", "prod", "ex"):
            return
        seen.add(x)
        if x.op == "app" and x.args[0] in evalt.DEFS:
            m[x] = evalt.DEFS[x.args[0]](*x.args[1:])
            return
        for y in x.args:
            if isinstance(y, E):
                go(y)
    go(e)
    return replace(e, m) if m else e


def real_atoms(e):
    """Equations between integer sums as equations between reals."""
    m = {}
    seen = set()

    def go(x):
        if x in seen or x.op in ("sum", "prod", "ex"):
            return
        seen.add(x)
        if x.op == "eq" and x.args[0].sort == "I" and has(x, ("sum",)):
            m[x] = T.eq(T.toreal(x.args[0]), T.toreal(x.args[1]))
            return
        for y in x.args:
            if isinstance(y, E):
                go(y)
    go(e)
    return replace(e, m) if m else e


def unify(hyps, goal, hints=()):
    """Prove after replacing sum expressions by equal ones (normal form)."""
    hyps, hs = skolem(hyps, hints)
    hyps = [real_atoms(h) for h in hyps]
    goal = real_atoms(goal)
    cand = list(hs)
    pieces(goal, cand)
    for h in hyps:
        pieces(h, cand)
    light = [h for h in hyps if not has(h, ("sum", "prod", "ex"))]
    reps, m = [], {}
    for x in cand:
        ux = unfold_top(x)
        if not has(ux, ("sum",)):
            continue
        for y in reps:
            if y.sort != x.sort or evalt.falsify(light, T.eq(x, y), tries=200, budget=0.4) is not None:
                continue
            if sum_eq(light, ux, unfold_top(y))[0] == "proved":
                if x is not y:
                    m[x] = y
                break
        else:
            reps.append(x)
    if not m:
        return hyps, goal
    return [replace(h, m) for h in hyps], replace(goal, m)


def prove_u(hyps, goal, hints=()):
    """Unification first, then the solver."""
    h, g = unify(hyps, goal, hints)
    if goal.op == "and":
        for x in goal.args:
            st, info = prove_u(hyps, x, hints)
            if st != "proved":
                return st, info
        return "proved", None
    st = valid(h, g)
    if st == "proved":
        return st, None
    g = simp(h, g)
    st = valid(h, g)
    if st != "proved" and goal.sort == "B" and not has(goal, ("sum", "prod")):
        if split_paths(hyps, goal):
            return "proved", None
    return st, str(g)[:2000]


def instances(goal, ws):
    """Instances of an existential goal at the given witnesses."""
    if goal.op != "ex":
        return [goal]
    v, lo, hi, b = T.open_(goal, "v")
    out = []
    for w in ws:
        for g in instances(T.subst(b, {v: w}), ws):
            out.append(T.and_(T.le(lo, w), T.lt(w, hi), g))
    return out


def split_paths(hyps, goal, depth=14, budget=None):
    """Boolean goal: both directions of an equivalence, one joined path at a
    time."""
    budget = budget if budget is not None else [60]
    if goal.op == "eq" and goal.args[0].sort == "B":
        a, b = goal.args
        return split_paths(hyps + [a], b, depth, budget) and split_paths(hyps + [b], a, depth, budget)
    if goal.op == "not":
        return split_paths(hyps + [goal.args[0]], FALSE, depth, budget)
    if goal.op == "and":
        return all(split_paths(hyps, x, depth, budget) for x in goal.args)
    if goal.op == "ite":
        c, x, y = goal.args
        return split_paths(hyps + [c], x, depth, budget) and split_paths(hyps + [T.not_(c)], y, depth, budget)
    hs, _ = skolem(hyps)
    budget[0] -= 1
    if budget[0] < 0:
        return False
    if valid(hs, goal, timeout=1500) == "proved":
        return True
    if goal.op == "ex":
        ws = sorted({v for h in hs for v in h.fv if v.sort == "I" and v.args[0][:2] in ("K!", "w!")}, key=lambda v: v.id)
        if ws and valid(hs, T.or_(*instances(goal, ws[:8])), timeout=1500) == "proved":
            return True
    if depth <= 0:
        return False
    ors = [h for h in hs if h.op == "or" or (h.op == "ite" and h.sort == "B") or (h.op == "eq" and h.args[0].sort == "B")]
    ors = [h for h in ors if h.size > 12]
    if not ors:
        return False
    o = max(ors, key=lambda h: h.size)
    rest = [h for h in hs if h is not o]
    if o.op == "or":
        parts = [[x] for x in o.args]
    elif o.op == "ite":
        parts = [[o.args[0], o.args[1]], [T.not_(o.args[0]), o.args[2]]]
    else:
        parts = [list(o.args), [T.not_(x) for x in o.args]]
    return all(split_paths(rest + x, goal, depth - 1, budget) for x in parts)


def prove(hyps, goal, depth=2):
    """General goal."""
    if goal is TRUE:
        return "proved", None
    if goal.op == "and":
        for g in goal.args:
            st, info = prove(hyps, g, depth)
            if st != "proved":
                return st, info
        return "proved", None
    hyps = [exp_rules(h) for h in hyps]
    if goal.op == "eq" and goal.args[0].sort in "IR" and (has(goal, ("sum", "prod"))):
        return prove_eq(hyps, goal.args[0], goal.args[1], depth)
    g = exp_rules(goal)
    st = valid(hyps, g)
    if st == "proved":
        return st, None
    if depth > 0 and has(g, ("sum", "prod")):
        m = congruence(hyps, g, depth)
        if m:
            st = valid([replace(h, m) for h in hyps], replace(g, m))
            if st == "proved":
                return st, None
    return st, str(g)[:2000]


def simp(hyps, e, timeout=1500, memo=None):
    """Resolve conditionals whose condition is decided by the hypotheses."""
    if memo is None:
        memo = {}
    if e in memo:
        return memo[e]
    if e.op in ("num", "var", "true", "false") or not has(e, ("ite",)):
        return e
    if e.op == "ite":
        c = simp(hyps, e.args[0], timeout, memo)
        if c is not TRUE and c is not FALSE:
            dp = 1 if has(c, ("sum", "prod")) else 0
            if valid(hyps, c, timeout=timeout, depth=dp) == "proved":
                c = TRUE
            elif valid(hyps, T.not_(c), timeout=timeout, depth=dp) == "proved":
                c = FALSE
        if c is TRUE:
            r = simp(hyps, e.args[1], timeout, memo)
        elif c is FALSE:
            r = simp(hyps, e.args[2], timeout, memo)
        else:
            r = T.ite(c, simp(list(hyps) + [c], e.args[1], timeout), simp(list(hyps) + [T.not_(c)], e.args[2], timeout))
    elif e.op in ("sum", "prod", "ex"):
        v, lo, hi, b = T.open_(e, "m")
        lo, hi = simp(hyps, lo, timeout, memo), simp(hyps, hi, timeout, memo)
        b = simp(list(hyps) + [T.le(lo, v), T.lt(v, hi)], b, timeout)
        r = {"sum": T.bsum, "prod": T.bprod, "ex": T.ex}[e.op](v, lo, hi, b)
    elif e.op == "app":
        r = T.app(e.args[0], [simp(hyps, a, timeout, memo) if isinstance(a, E) else a for a in e.args[1:]], e.sort)
    else:
        r = T.rebuild(e, [simp(hyps, a, timeout, memo) if isinstance(a, E) else a for a in e.args])
    memo[e] = r
    return r


def prove_cases(hyps, goal, cases=()):
    """Prove the goal under an exhaustive case split; conditionals are resolved
    per case."""
    hyps = [h for h in hyps if h is not TRUE]
    if not cases:
        if valid(hyps, FALSE, timeout=2000) == "proved":
            return "proved", None
        g = simp(hyps, goal)
        st, info = prove(hyps, g)
        return st, info
    c, rest = cases[0], cases[1:]
    for x in (c, T.not_(c)):
        st, info = prove_cases(hyps + [x], goal, rest)
        if st != "proved":
            return st, "case %s: %s" % (str(x)[:200], info)
    return "proved", None
