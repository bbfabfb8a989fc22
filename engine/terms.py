"""Hash-consed terms: linear/nonlinear arithmetic, uninterpreted applications,
and the binders sum / prod / ex over an integer range [lo, hi)."""
from fractions import Fraction
import itertools

_tab = {}
_cnt = itertools.count()


class E:
    __slots__ = ("op", "args", "sort", "id", "fv", "depth", "size")

    def __repr__(self):
        return show(self)

    # convenience operators (reals / ints)
    def __add__(self, o): return add(self, lift(o, self))
    def __radd__(self, o): return add(lift(o, self), self)
    def __sub__(self, o): return sub(self, lift(o, self))
    def __rsub__(self, o): return sub(lift(o, self), self)
    def __mul__(self, o): return mul(self, lift(o, self))
    def __rmul__(self, o): return mul(lift(o, self), self)
    def __neg__(self): return neg(self)


def lift(x, like=None):
    if isinstance(x, E):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, int):
        return num(x, like.sort if like is not None and like.sort in "IR" else "I")
    if isinstance(x, (float, Fraction)):
        return num(Fraction(x), "R")
    raise TypeError(x)


def mk(op, args, sort):
    key = (op, args, sort)
    e = _tab.get(key)
    if e is not None:
        return e
    e = E()
    e.op, e.args, e.sort = op, args, sort
    e.id = next(_cnt)
    fv = set()
    depth = 0
    size = 1
    if op == "var":
        fv.add(e)
    for a in args:
        if isinstance(a, E):
            fv |= a.fv
            depth = max(depth, a.depth)
            size += a.size
    if op in ("sum", "prod", "ex"):
        bv = args[0]
        b = args[3]
        fv = set(args[1].fv) | set(args[2].fv) | (set(b.fv) - {bv})
        depth += 1
    e.fv = frozenset(fv)
    e.depth = depth
    e.size = size
    _tab[key] = e
    return e


def num(c, sort="R"):
    return mk("num", (Fraction(c),), sort)


def I(c):
    return num(c, "I")


def R(c):
    return num(c, "R")


TRUE = mk("true", (), "B")
FALSE = mk("false", (), "B")
_fresh = itertools.count(1)


def var(name, sort="I"):
    return mk("var", (name,), sort)


def fresh(name, sort="I"):
    return var("%s!%d" % (name, next(_fresh)), sort)


def app(f, args, sort):
    return mk("app", (f,) + tuple(args), sort)


def isnum(e, c=None):
    return e.op == "num" and (c is None or e.args[0] == c)


def toreal(e):
    if e.sort == "R":
        return e
    if e.sort == "B":
        return ite(e, R(1), R(0))
    if e.op == "num":
        return num(e.args[0], "R")
    if e.op == "add":
        return add(*[toreal(a) for a in e.args])
    if e.op == "mul":
        return mul(*[toreal(a) for a in e.args])
    if e.op == "ite":
        return ite(e.args[0], toreal(e.args[1]), toreal(e.args[2]))
    if e.op == "sum":
        return mk("sum", e.args[:3] + (toreal(e.args[3]),), "R")
    return mk("toreal", (e,), "R")


def toint(e):
    if e.sort == "B":
        return ite(e, I(1), I(0))
    return e


def _coef(e):
    if e.op == "num":
        return e.args[0], None
    if e.op == "mul" and e.args[0].op == "num":
        rest = e.args[1:]
        return e.args[0].args[0], (rest[0] if len(rest) == 1 else mk("mul", rest, e.sort))
    return Fraction(1), e


def add(*xs):
    xs = [toint(x) if x.sort == "B" else x for x in xs]
    sort = "R" if any(x.sort == "R" for x in xs) else "I"
    if sort == "R":
        xs = [toreal(x) for x in xs]
    acc = {}
    const = Fraction(0)
    todo = list(xs)
    flat = []
    for x in todo:
        if x.op == "add":
            flat.extend(x.args)
        else:
            flat.append(x)
    for x in flat:
        c, b = _coef(x)
        if b is None:
            const += c
        else:
            acc[b] = acc.get(b, 0) + c
    out = []
    for b, c in sorted(acc.items(), key=lambda t: t[0].id):
        if c == 0:
            continue
        out.append(b if c == 1 else _scale(c, b, sort))
    if const != 0 or not out:
        out.append(num(const, sort))
    return out[0] if len(out) == 1 else mk("add", tuple(out), sort)


def _scale(c, b, sort):
    if b.op == "mul":
        return mk("mul", (num(c, sort),) + b.args, sort)
    return mk("mul", (num(c, sort), b), sort)


def mul(*xs):
    xs = [toint(x) if x.sort == "B" else x for x in xs]
    sort = "R" if any(x.sort == "R" for x in xs) else "I"
    if sort == "R":
        xs = [toreal(x) for x in xs]
    c = Fraction(1)
    fac = []
    for x in xs:
        ys = x.args if x.op == "mul" else (x,)
        for y in ys:
            if y.op == "num":
                c *= y.args[0]
            else:
                fac.append(y)
    if c == 0:
        return num(0, sort)
    fac.sort(key=lambda t: t.id)
    if not fac:
        return num(c, sort)
    if len(fac) == 1 and fac[0].op == "add" and c != 1:
        return add(*[mul(num(c, sort), a) for a in fac[0].args])
    if c != 1:
        fac = [num(c, sort)] + fac
    return fac[0] if len(fac) == 1 else mk("mul", tuple(fac), sort)


def neg(x):
    return mul(num(-1, "R" if x.sort == "R" else "I"), x)


def sub(a, b):
    return add(a, neg(b))


def inv(x):
    x = toreal(x)
    if x.op == "num" and x.args[0] != 0:
        return R(1 / x.args[0])
    if x.op == "inv":
        return x.args[0]
    return mk("inv", (x,), "R")


def div(a, b):
    return mul(toreal(a), inv(b))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort != b.sort:
        if "R" in (a.sort, b.sort):
            a, b = toreal(a), toreal(b)
        else:
            a, b = toint(a), toint(b)
        if a is b:
            return a
    if a.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if c.op == "eq" and ((c.args[0] is a and c.args[1] is b) or (c.args[0] is b and c.args[1] is a)):
        return b
    return mk("ite", (c, a, b), a.sort)


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), "B")


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        ys = x.args if x.op == "and" else (x,)
        for y in ys:
            if y is TRUE:
                continue
            if y is FALSE:
                return FALSE
            if y not in seen:
                seen.add(y)
                out.append(y)
    for y in out:
        if not_(y) in seen:
            return FALSE
    if not out:
        return TRUE
    out.sort(key=lambda t: t.id)
    return out[0] if len(out) == 1 else mk("and", tuple(out), "B")


def or_(*xs):
    out = []
    seen = set()
    for x in xs:
        ys = x.args if x.op == "or" else (x,)
        for y in ys:
            if y is FALSE:
                continue
            if y is TRUE:
                return TRUE
            if y not in seen:
                seen.add(y)
                out.append(y)
    for y in out:
        if not_(y) in seen:
            return TRUE
    if not out:
        return FALSE
    out.sort(key=lambda t: t.id)
    return out[0] if len(out) == 1 else mk("or", tuple(out), "B")


def implies(a, b):
    return or_(not_(a), b)


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "B" and b.sort == "B":
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.sort == "U" or b.sort == "U":
        if a.id > b.id:
            a, b = b, a
        return mk("eq", (a, b), "B")
    d = sub(a, b)
    if d.op == "num":
        return TRUE if d.args[0] == 0 else FALSE
    if a.id > b.id:
        a, b = b, a
    if a.sort != b.sort:
        a, b = toreal(a), toreal(b)
    for x, y in ((a, b), (b, a)):
        # c == (p ? n : m) with numbers on all sides
        if x.op == "num" and y.op == "ite" and y.args[1].op == "num" and y.args[2].op == "num":
            p, q = x.args[0] == y.args[1].args[0], x.args[0] == y.args[2].args[0]
            return TRUE if p and q else y.args[0] if p else not_(y.args[0]) if q else FALSE
    return mk("eq", (a, b), "B")


def ne(a, b):
    return not_(eq(a, b))


def le(a, b):
    d = sub(b, a)
    if d.op == "num":
        return TRUE if d.args[0] >= 0 else FALSE
    if d.sort == "I":
        return not_(_lt0(d))
    return mk("le", (num(0, d.sort), d), "B")


def _lt0(d):
    return mk("lt", (d, num(0, d.sort)), "B")


def lt(a, b):
    d = sub(a, b)
    if d.op == "num":
        return TRUE if d.args[0] < 0 else FALSE
    if d.sort == "R":
        return not_(mk("le", (num(0, "R"), d), "B"))
    return _lt0(d)


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def rng_(v, lo, hi):
    return and_(le(lo, v), lt(v, hi))


def _bind(op, v, lo, hi, body, sort):
    bv = var("#%d" % (body.depth + 1), "I")
    b = subst(body, {v: bv})
    return mk(op, (bv, lo, hi, b), sort)


def bsum(v, lo, hi, body):
    if isnum(body, 0):
        return body
    if isnum(lo) and isnum(hi):
        n = hi.args[0] - lo.args[0]
        if n <= 0:
            return num(0, "R" if body.sort == "R" else "I")
        if n == 1 and body.sort != "B":
            return subst(body, {v: lo})
    if v not in body.fv and body.depth == 0 and body.op == "num":
        n = sub(hi, lo)
        return ite(lt(I(0), n), mul(body, toreal(n) if body.sort == "R" else n), num(0, body.sort))
    if body.sort == "B":
        body = toint(body)
    return _bind("sum", v, lo, hi, body, body.sort)


def bprod(v, lo, hi, body):
    if isnum(body, 1):
        return body
    return _bind("prod", v, lo, hi, body, body.sort)


def ex(v, lo, hi, body):
    if body is FALSE:
        return FALSE
    return _bind("ex", v, lo, hi, body, "B")


def all_(v, lo, hi, body):
    return not_(ex(v, lo, hi, not_(body)))


def open_(e, name="b"):
    """Instantiate a binder with a fresh variable: (v, lo, hi, body)."""
    bv, lo, hi, body = e.args
    v = fresh(name)
    return v, lo, hi, subst(body, {bv: v})


def rebuild(e, args):
    op = e.op
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "inv":
        return inv(args[0])
    if op == "ite":
        return ite(*args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "not":
        return not_(args[0])
    if op == "eq":
        return eq(*args)
    if op == "lt":
        return lt(*args)
    if op == "le":
        return le(*args)
    if op == "toreal":
        return toreal(args[0])
    return mk(op, tuple(args), e.sort)


def subst(e, m):
    """Simultaneous substitution of variables (no capture: binder names are
    depth-indexed and replacements are opened before being substituted under
    deeper binders)."""
    keys = frozenset(m)
    memo = {}

    def go(e):
        if not (e.fv & keys):
            return e
        r = memo.get(e)
        if r is not None:
            return r
        if e.op == "var":
            r = m[e]
        elif e.op in ("sum", "prod", "ex"):
            bv, lo, hi, body = e.args
            v = fresh("o")
            b = subst(body, {bv: v})
            b = go2(b)
            lo, hi = go(lo), go(hi)
            r = {"sum": bsum, "prod": bprod, "ex": ex}[e.op](v, lo, hi, b)
        else:
            r = rebuild(e, [go(a) if isinstance(a, E) else a for a in e.args])
        memo[e] = r
        return r

    def go2(b):
        return subst(b, m) if b.fv & keys else b
    return go(e)


def subst_app(e, f):
    """Rewrite applications bottom-up: f(name, args, sort) -> E or None."""
    memo = {}

    def go(e):
        r = memo.get(e)
        if r is not None:
            return r
        if e.op in ("num", "var", "true", "false"):
            r = e
        elif e.op in ("sum", "prod", "ex"):
            v, lo, hi, b = open_(e)
            r = {"sum": bsum, "prod": bprod, "ex": ex}[e.op](v, go(lo), go(hi), subst_app(b, f))
        elif e.op == "app":
            args = [go(a) if isinstance(a, E) else a for a in e.args[1:]]
            r = f(e.args[0], args, e.sort)
            if r is None:
                r = app(e.args[0], args, e.sort)
        else:
            r = rebuild(e, [go(a) for a in e.args])
        memo[e] = r
        return r
    return go(e)


def eqs(e):
    """All equations in a term (also under binders)."""
    seen, acc, todo = set(), [], [e]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "eq":
            acc.append(x)
        todo += [a for a in x.args if isinstance(a, E)]
    return acc


def apps(e, acc=None, seen=None):
    """All application nodes (also under binders)."""
    if acc is None:
        acc, seen = [], set()
    if e in seen:
        return acc
    seen.add(e)
    if e.op == "app":
        acc.append(e)
    for a in e.args:
        if isinstance(a, E):
            apps(a, acc, seen)
    return acc


def has_app(e, names):
    return any(a.args[0] in names for a in apps(e))


def show(e, d=0):
    if d > 14:
        return "..."
    s = lambda x: show(x, d + 1)
    a = e.args
    if e.op == "num":
        return str(a[0])
    if e.op == "var":
        return a[0]
    if e.op in ("true", "false"):
        return e.op
    if e.op == "app":
        return "%s(%s)" % (a[0], ", ".join(s(x) if isinstance(x, E) else str(x) for x in a[1:]))
    if e.op == "add":
        return "(" + " + ".join(map(s, a)) + ")"
    if e.op == "mul":
        return "*".join(map(s, a))
    if e.op == "inv":
        return "(1/%s)" % s(a[0])
    if e.op == "ite":
        return "ite(%s, %s, %s)" % tuple(map(s, a))
    if e.op in ("sum", "prod", "ex"):
        return "%s[%s in %s..%s](%s)" % (e.op, s(a[0]), s(a[1]), s(a[2]), s(a[3]))
    if e.op == "eq":
        return "%s == %s" % (s(a[0]), s(a[1]))
    if e.op in ("lt", "le"):
        return "%s %s %s" % (s(a[0]), {"lt": "<", "le": "<="}[e.op], s(a[1]))
    if e.op == "not":
        return "!(%s)" % s(a[0])
    if e.op in ("and", "or"):
        return "(" + (" & " if e.op == "and" else " | ").join(map(s, a)) + ")"
    return "%s(%s)" % (e.op, ", ".join(s(x) if isinstance(x, E) else str(x) for x in a))
