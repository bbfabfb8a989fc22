"""Concrete evaluation of terms and search for a falsifying instance of an
unproved obligation (small ranges, random tables for the uninterpreted
functions, exact rationals except under exp/log)."""
import math
import random
import time
from fractions import Fraction
from . import terms as T
from .terms import E, TRUE, FALSE


class Skip(Exception):
    pass


REALS = [Fraction(0), Fraction(1), Fraction(1, 2), Fraction(2), Fraction(3, 4), Fraction(5, 3), Fraction(1, 7)]
U01 = [Fraction(k, 10) for k in range(10)]


def _quot(e):
    n, d = e.args[1:]
    r = T.sub(n, T.mul(e, d))
    return [T.implies(T.lt(T.I(0), d), T.and_(T.le(T.I(0), r), T.lt(r, d)))]


def _floor(e):
    x = e.args[1]
    return [T.le(T.toreal(e), x), T.lt(x, T.add(T.toreal(e), T.R(1)))]


FACTS = {"floordiv": _quot, "floor": _floor}    # shared with the prover
DEFS = {}                   # functions defined by a term


def const(v, sort):
    if sort == "B":
        return TRUE if v else FALSE
    if sort in "IR" and not isinstance(v, float):
        return T.num(v, sort)
    raise Skip()


UNIT = {"P", "PK"}          # functions with values in [0, 1]


def mine(es):
    """Numeric constants of the terms: candidate thresholds."""
    ints, reals, seen = set(), set(), set()
    todo = list(es)
    while todo:
        e = todo.pop()
        if e in seen:
            continue
        seen.add(e)
        if e.op == "num":
            c = e.args[0]
            if c.denominator == 1 and 3 < abs(c) <= 260:
                ints.add(int(abs(c)))
            if abs(c) not in (0, 1, 2, Fraction(1, 2)):
                reals.add(abs(c))
            continue
        if e.op == "app" and e.args[0] in DEFS:
            todo.append(DEFS[e.args[0]](*e.args[1:]))
        todo += [x for x in e.args if isinstance(x, E)]
    return sorted(ints)[:4], sorted(reals)[:12]


BIG = [Fraction(10) ** k for k in (-14, -9, -6, -3, 3, 6, 10, 14)]


class Model:
    def __init__(self, rnd, nmax=3, fixed=None, ints=(), reals=(), ops=10 ** 9):
        self.r, self.nmax = rnd, nmax
        self.ints, self.ops = ints, ops
        self.reals = REALS
        self.unit = U01
        if reals or ints:
            rs = [c * f for c in reals for f in (Fraction(1, 2), 1, Fraction(9, 8))] + BIG
            self.reals = REALS + rnd.sample(rs, min(len(rs), 6))
            us = [x for c in reals if c < 1 for x in (c / 2, c, (1 + c) / 2)]
            self.unit = U01 + rnd.sample(us, min(len(us), 4))
        self.memo = {}
        self.vars, self.tabs = dict(fixed or {}), {}
        self.checked = set()
        self.neg = rnd.random() < 0.15
        self.dense0 = rnd.random() * 0.5

    def rand(self, sort, name=""):
        r = self.r
        if sort == "B":
            return r.random() < 0.5
        if sort == "I":
            if self.ints and r.random() < 0.3:
                return r.choice(self.ints) + r.randint(-1, 2)
            return r.randint(-1, self.nmax) if r.random() < 0.1 else r.randint(0, self.nmax)
        if sort == "U":
            return ("u", r.randint(0, 3))
        if name in UNIT:
            return r.choice(self.unit + [Fraction(1)])
        if name.startswith("U!"):
            return r.choice(self.unit)
        if r.random() < self.dense0:
            return Fraction(0)
        v = r.choice(self.reals)
        return -v if self.neg and r.random() < 0.5 else v

    def ev(self, e):
        if e.size > 8 and not any(v.args[0][0] == "#" for v in e.fv):
            if e in self.memo:
                return self.memo[e]
            r = self.memo[e] = self.ev0(e)
            return r
        return self.ev0(e)

    def block(self, name, k):
        """A random partition of 0..N into NB consecutive blocks."""
        if not hasattr(self, "cuts"):
            n, nb = self.ev(T.var("N")), self.ev(T.var("NB"))
            if n < 0 or nb < 1:
                raise Skip()
            self.cuts = [0] + sorted(self.r.randint(0, n) for _ in range(nb - 1)) + [n]
        if name == "BLK":
            for b in range(len(self.cuts) - 1):
                if self.cuts[b] <= k < self.cuts[b + 1]:
                    return b
            return 0
        return self.cuts[k + (name == "HI")] if 0 <= k < len(self.cuts) - 1 else 0

    def ev0(self, e):
        op, a = e.op, e.args
        self.ops -= 1
        if self.ops < 0:
            raise Skip()
        if op == "num":
            return a[0] if e.sort == "R" else int(a[0])
        if op == "var":
            if e not in self.vars:
                self.vars[e] = self.rand(e.sort, a[0])
            return self.vars[e]
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "app":
            name = a[0]
            if name in DEFS:
                return self.ev(DEFS[name](*[const(self.ev(x), x.sort) for x in a[1:]]))
            key = tuple(self.ev(x) if isinstance(x, E) else x for x in a[1:])
            if name == "EXP":
                try:
                    return Fraction(1) if key[0] == 0 else math.exp(key[0])
                except OverflowError:
                    raise Skip()
            if name == "LOG":
                if key[0] <= 0:
                    raise Skip()
                return Fraction(0) if key[0] == 1 else math.log(key[0])
            if name in ("LO", "HI", "BLK"):
                return self.block(name, key[0])
            if name == "floor":
                return math.floor(key[0])
            if name == "floordiv":
                if key[1] == 0:
                    raise Skip()
                return int(key[0] // key[1])
            t = self.tabs.setdefault((name, e.sort), {})
            if key not in t:
                t[key] = self.rand(e.sort, name)
            f = FACTS.get(name)
            if f is not None and name not in UNIT and (name, key) not in self.checked:
                self.checked.add((name, key))
                if not all(self.ev(x) for x in f(e)):
                    raise Skip()
            return t[key]
        if op == "add":
            return sum((self.ev(x) for x in a[1:]), self.ev(a[0]))
        if op == "mul":
            r = 1
            for x in a:
                r = r * self.ev(x)
                if r == 0:
                    pass
            return r
        if op == "inv":
            v = self.ev(a[0])
            if v == 0:
                raise Skip()
            return 1 / v if isinstance(v, float) else Fraction(1) / v
        if op == "toreal":
            return Fraction(self.ev(a[0]))
        if op == "ite":
            return self.ev(a[1]) if self.ev(a[0]) else self.ev(a[2])
        if op == "eq":
            return close(self.ev(a[0]), self.ev(a[1]))
        if op == "lt":
            x, y = self.ev(a[0]), self.ev(a[1])
            return x < y and not (isinstance(x, float) or isinstance(y, float)) or (x < y and not close(x, y))
        if op == "le":
            x, y = self.ev(a[0]), self.ev(a[1])
            return x <= y or close(x, y)
        if op == "and":
            return all(self.ev(x) for x in a)
        if op == "or":
            return any(self.ev(x) for x in a)
        if op == "not":
            return not self.ev(a[0])
        if op in ("sum", "prod", "ex"):
            bv, lo, hi, b = a
            l, h = self.ev(lo), self.ev(hi)
            if h - l > (40 if not self.ints else 270):
                raise Skip()
            saved = self.vars.get(bv, None)
            acc = 0 if op == "sum" else 1
            res = False
            for k in range(l, h):
                self.vars[bv] = k
                v = self.ev(b)
                if op == "sum":
                    acc = acc + v
                elif op == "prod":
                    acc = acc * v
                elif v:
                    res = True
                    break
            if saved is None:
                self.vars.pop(bv, None)
            else:
                self.vars[bv] = saved
            return res if op == "ex" else acc
        raise Skip()


def close(x, y):
    if isinstance(x, float) or isinstance(y, float):
        return abs(x - y) <= 1e-9 * max(1, abs(x), abs(y))
    return x == y


def clearly_false(goal, m):
    """Goal is false by a margin (floats)."""
    if goal.op == "and":
        return any(clearly_false(g, m) for g in goal.args)
    if goal.op == "eq":
        x, y = m.ev(goal.args[0]), m.ev(goal.args[1])
        if isinstance(x, float) or isinstance(y, float):
            return abs(x - y) > 1e-6 * max(1, abs(x), abs(y))
        return x != y
    return not m.ev(goal)


def falsify(hyps, goal, budget=3.0, tries=3000, seed=0, deep=0.0):
    """A concrete instance (description) in which the hypotheses hold and the
    goal fails, or None.  With deep > 0, a second search for that many seconds
    draws sizes and values around the constants of the obligation."""
    rnd = random.Random(seed)
    t0 = time.time()
    for n in range(tries):
        if time.time() - t0 > budget:
            break
        r = attempt(Model(rnd, nmax=rnd.choice((1, 2, 2, 3)), ops=200000), hyps, goal)
        if r:
            return r
    if deep:
        ints, reals = mine(list(hyps) + [goal])
        t0 = time.time()
        while time.time() - t0 < deep:
            k = rnd.random()
            m = Model(rnd, nmax=rnd.choice((1, 2, 3)), ints=ints if k < 0.5 else (), reals=reals or BIG, ops=400000)
            r = attempt(m, hyps, goal)
            if r:
                return r
    return None


def attempt(m, hyps, goal):
    try:
        for h in hyps:
            if not m.ev(h):
                return None
        if clearly_false(goal, m):
            return describe(m)
    except (Skip, OverflowError, RecursionError, ZeroDivisionError):
        pass
    return None


def describe(m):
    f = lambda v: float(v) if isinstance(v, Fraction) and v.denominator != 1 else (int(v) if isinstance(v, Fraction) else v)
    out = {}
    for v, x in m.vars.items():
        if not v.args[0].startswith("#"):
            out[v.args[0]] = f(x)
    for (n, s), t in m.tabs.items():
        out[n] = {",".join(str(f(k)) for k in key): f(x) for key, x in list(t.items())[:12]}
    return out
