"""C19: a model is created exactly when its arguments are admissible, and stores
them unaltered.

The forms of the arguments (absent, number, array of any length, matrix of any
shape, ...) are enumerated; sizes and values are arbitrary numbers: negative
counts, fractional counts and wrong lengths included."""
from contracts.base import *
from contracts import spark as SK

NV, NL = T.var("nv"), T.var("nl")
NVR, NLR = T.var("nvr", "R"), T.var("nlr", "R")
SIZES = {"prop_out": (T.var("ro"), T.var("co")), "prop_in": (T.var("ri"), T.var("ci"))}
KE, KL, KP = T.var("ke"), T.var("kl"), T.var("kp")


class Arg:
    """Value of a keyword, its admissibility, and what must be stored."""

    def __init__(self, val, ok=TRUE, **kw):
        self.val, self.ok = val, ok
        self.__dict__.update(kw)


def R0(x):
    return T.le(Z, x)


def count(form, i, r):
    if form == "int":
        return Arg(Sc(i), T.le(T.I(1), i), n=i)
    f = T.app("floor", (r,), "I")
    return Arg(Sc(r), T.and_(T.le(T.R(1), r), T.eq(T.toreal(f), r)), n=f)


def vector(I, st, nm, n, form="array"):
    """Array of any length, no negative value."""
    st.pc = st.pc + (T.le(T.I(0), n),)
    i = T.fresh("i")
    v = I.alloc(st, Arr((n,), lambda ix: Sc(T.app(nm, ix, "R"))))
    return Arg(v, T.all_(i, T.I(0), n, R0(T.app(nm, (i,), "R"))), n=n)


def make_args(C, st, kind, forms):
    I = C.I
    kw, ok = {}, []
    A = {}
    for name, form in forms.items():
        if form is None:
            continue
        if name in ("num_vertices", "num_labels"):
            a = count(form, *((NV, NVR) if name == "num_vertices" else (NL, NLR)))
        elif name in SIZES:
            nm = "xo" if name == "prop_out" else "xi"
            n, m = SIZES[name]
            st.pc = st.pc + (T.le(T.I(0), n), T.le(T.I(0), m))
            i, j = T.fresh("i"), T.fresh("j")
            val = lambda i, j, nm=nm: T.app(nm, (i, j), "R")
            if form == "vector":
                a = vector(I, st, nm, n)
                a.shape = (n,)
                a.at = lambda i, nm=nm: Sc(T.app(nm, (i,), "R"))
            elif form == "sparse":
                mem = lambda i, j, nm=nm: T.app("s" + nm[1], (i, j), "B")
                a = Arg(SPM.raw(I, st, Csr(nm, n, m, mem, lambda i, j, val=val: Sc(val(i, j)), "csr")),
                        T.all_(i, T.I(0), n, T.all_(j, T.I(0), m, T.implies(mem(i, j), R0(val(i, j))))), shape=(n, m))
                a.at = lambda i, j, mem=mem, val=val: Sc(T.ite(mem(i, j), val(i, j), Z))
            else:
                a = Arg(I.alloc(st, Arr((n, m), lambda ix, val=val: Sc(val(*ix)))),
                        T.all_(i, T.I(0), n, T.all_(j, T.I(0), m, R0(val(i, j)))), shape=(n, m))
                a.at = lambda i, j, val=val: Sc(val(i, j))
        elif name in ("num_edges", "total_weight"):
            nm = "E" if name == "num_edges" else "W"
            if form == "number":
                a = Arg(Sc(T.var(nm, "R")), R0(T.var(nm, "R")), num=T.var(nm, "R"))
            else:
                a = vector(I, st, nm + "v", KE)
                l = NL if forms.get("num_labels") == "int" else T.I(-1)
                # the three lengths are told apart, together they are all
                st.pc = st.pc + {"array": (), "array1": (T.eq(KE, T.I(1)), T.ne(l, T.I(1))), "arrayL": (T.eq(KE, l),),
                                 "array2": (T.ne(KE, T.I(1)), T.ne(KE, l))}[form]
                a.num = T.app(nm + "v", (T.I(0),), "R")
        elif name == "num_edges_label":
            a = vector(I, st, "El", KL)
        elif name == "param":
            if form == "number":
                a = Arg(Sc(T.var("d", "R")), R0(T.var("d", "R")), num=T.var("d", "R"))
            else:
                a = vector(I, st, "d", KP)
        elif name in ("selfloops", "per_label", "discrete_weights"):
            a = Arg(Sc(T.var(name, "B")), b=T.var(name, "B"))
        elif name == "p_blocks":
            a = Arg(Sc(T.var("PB")), T.le(T.I(1), T.var("PB")))
        else:
            a = Arg(Sc(T.var("other", "R")), FALSE)
        a.form = form
        A[name] = a
        kw[name] = a.val
    return A, kw


def admissible(kind, A):
    """The condition of the property."""
    need = ["num_vertices"] + ([] if kind == "random" else ["prop_out", "prop_in"]) + (["num_labels"] if kind == "multi" else [])
    if any(n not in A for n in need):
        return FALSE
    if not any(n in A for n in ("num_edges", "num_edges_label", "param")):
        return FALSE
    n = A["num_vertices"].n
    # an array of edge numbers and numbers per label exclude each other; with numbers
    # per label the total is not used
    ok = [a.ok for k, a in A.items()]
    if kind == "multi":
        l = A["num_labels"].n
        for p in ("prop_out", "prop_in"):
            sh = A[p].shape
            if len(sh) != 2:
                return FALSE
            ok += [T.eq(sh[0], n), T.eq(sh[1], l)]
        if "num_edges" in A and A["num_edges"].form.startswith("array"):
            # numbers per label given twice are refused
            ok.append(T.or_(T.eq(KE, l), T.eq(KE, T.I(1))) if "num_edges_label" not in A else T.and_(T.eq(KE, T.I(1)), T.ne(l, T.I(1))))
        if "num_edges_label" in A:
            ok.append(T.eq(KL, l))
        if "param" in A and A["param"].form == "array":
            ok.append(T.or_(T.eq(KP, l), T.eq(KP, T.I(1))))
    else:
        for p in ("prop_out", "prop_in"):
            if p in A:
                if len(A[p].shape) != 1:
                    return FALSE
                ok.append(T.eq(A[p].shape[0], n))
        for p in ("num_edges", "total_weight"):
            if p in A and A[p].form.startswith("array"):
                ok.append(T.eq(KE, T.I(1)))
        if "param" in A and A["param"].form == "array":
            ok.append(T.eq(KP, T.I(2 if kind == "random" else 1)))
    return T.and_(*ok)


def constructor(C, back, cls, kind, forms):
    from engine import rdd
    I = C.I
    I.zero_raises = True
    SPM.install(I)
    if back == "spark":
        rdd.install(I)
    c = I.cls(cls)
    f = I.find(c, "csx_to_tuple_list")
    if f is not None and kind == "multi" and back == "sparse":
        I.over[f.qual] = csx_list(C)
    st = St()
    forms = dict(forms)
    A, kw = make_args(C, st, kind, forms)
    adm = admissible(kind, A)
    pre = tuple(st.pc)
    r = C.call(c, [SymFun("SparkContext", None)] if back == "spark" else [], st, kw)
    for n, o in enumerate(r.raises):
        C.check("admissible arguments are accepted (%s)" % o.val.name, list(o.st.pc), T.not_(adm))
    if not r.ok:
        if adm is not FALSE:
            C.check("admissible arguments are accepted", list(pre), T.not_(adm))
        return
    hy = list(r.st.pc)
    C.check("inadmissible arguments are rejected", hy, adm)
    if adm is FALSE:
        return
    st, obj = r.st, r.val
    hy = hy + [adm]
    r.st.pc = tuple(hy)
    g = lambda n: I.getattr(st, obj, n)
    n = A["num_vertices"].n
    C.sc("stored num_vertices", hy, g("num_vertices"), Sc(n))
    C.check("stored selfloops (False when not given)", hy, T.eq(I.truth(g("selfloops"), st), A["selfloops"].b if "selfloops" in A else FALSE))
    l = None
    if kind == "multi":
        l = A["num_labels"].n
        C.sc("stored num_labels", hy, g("num_labels"), Sc(l))
    for p in ("prop_out", "prop_in"):
        if p not in A:
            continue
        v = g(p)
        if kind == "multi" and back == "sparse":
            if not isinstance(v, SpList):
                C.unknown("stored " + p, "not a list of label and value sequences")
                continue
            v = v.csr
            C.check("stored %s: every entry once, in order" % p, hy, SPM.is_canonical(I, st, v))
        arr_is(C, "stored " + p, r, v, (n,) if kind == "single" else (n, l), A[p].at)
    has = lambda x: I.hasattr(st, obj, x)
    if kind == "multi":
        lab = A.get("num_edges_label")
        if lab is not None:
            arr_is(C, "stored num_edges_label", r, g("num_edges_label"), (l,), lambda k: Sc(T.app("El", (k,), "R")))
        if "num_edges" in A:
            e = A["num_edges"]
            if e.form in ("number", "array1"):
                C.sc("stored num_edges", hy, g("num_edges"), Sc(e.num))
            elif e.form == "arrayL" and lab is None:
                arr_is(C, "stored num_edges_label (one number per label)", r, g("num_edges_label"), (l,), lambda k: Sc(T.app("Ev", (k,), "R")))
        if "param" in A:
            a = A["param"]
            arr_is(C, "stored param (one number: for every label)", r, g("param"), (l,),
                   lambda k: Sc(a.num if a.form == "number" else T.ite(T.eq(KP, T.I(1)), T.app("d", (T.I(0),), "R"), T.app("d", (k,), "R"))))
        if "per_label" in A:
            C.check("stored per_label", hy, T.eq(I.truth(g("per_label"), st), A["per_label"].b))
        else:
            want = (T.ne(KP, T.I(1)) if A["param"].form == "array" else FALSE) if "param" in A else TRUE if lab is not None else \
                (TRUE if A["num_edges"].form == "arrayL" else FALSE)
            C.check("per_label as documented", hy, T.eq(I.truth(g("per_label"), st), want))
    else:
        for p in ("num_edges", "total_weight"):
            if p in A:
                C.sc("stored " + p, hy, g(p), Sc(A[p].num))
        if "param" in A:
            a = A["param"]
            k = 2 if kind == "random" else 1
            arr_is(C, "stored param", r, g("param"), (T.I(k),),
                   lambda i: Sc(T.app("d", (i,), "R")) if a.form == "array" else Sc(T.ite(T.eq(i, T.I(0)), a.num, Z)))
        if kind == "random" and "discrete_weights" in A:
            C.check("stored discrete_weights", hy, T.eq(I.truth(g("discrete_weights"), st), A["discrete_weights"].b))


def variants(back, kind):
    """Forms of the arguments: a full valid form and every form that differs in
    one or two arguments."""
    if kind == "single":
        base = dict(num_vertices="int", prop_out="vector", prop_in="vector", num_edges="number", selfloops="bool")
        alt = dict(num_vertices=(None, "real"), prop_out=(None, "matrix"), prop_in=(None, "matrix"), num_edges=(None, "array"),
                   param=("number", "array"), selfloops=(None,), bogus=("number",))
    elif kind == "multi":
        base = dict(num_vertices="int", num_labels="int", prop_out="matrix", prop_in="matrix", num_edges="number", selfloops="bool")
        alt = dict(num_vertices=(None, "real"), num_labels=(None, "real"), prop_out=(None, "vector", "sparse"), prop_in=(None, "vector", "sparse"),
                   num_edges=(None, "array1", "arrayL", "array2"), num_edges_label=("array",), param=("number", "array"), selfloops=(None,), per_label=("bool",), bogus=("number",))
    else:
        base = dict(num_vertices="int", num_edges="number", selfloops="bool")
        alt = dict(num_vertices=(None, "real"), num_edges=(None, "array"), param=("number", "array"), selfloops=(None,),
                   total_weight=("number", "array"), discrete_weights=("bool",), bogus=("number",))
    if back == "spark":
        alt["p_blocks"] = ("int",)
    out = [base]
    one = [(k, f) for k, fs in alt.items() for f in fs]
    for k, f in one:
        out.append(dict(base, **{k: f}))
    # the constraint replaced
    for f in alt["param"]:
        out.append(dict(base, num_edges=None, param=f))
    if kind == "multi":
        out.append(dict(base, num_edges=None, num_edges_label="array"))
        out += [dict(base, num_edges=f, num_edges_label="array") for f in ("array1", "arrayL", "array2")]
        out.append(dict(base, num_edges=None, num_edges_label="array", param="array"))
        out.append(dict(base, num_edges=None, param="array", per_label="bool"))
        out.append(dict(base, prop_out="sparse", prop_in="sparse"))
    return out


QUERIES = [("expected_num_edges",), ("expected_out_degree",), ("expected_in_degree",), ("expected_degree",),
           ("expected_av_nn_property", "prop"), ("expected_av_nn_degree",), ("log_likelihood", "graph"), ("sample",)]
LABEL = [("expected_num_edges_label",), ("expected_out_degree_by_label",), ("expected_in_degree_by_label",), ("expected_degree_by_label",)]


@per_class
def unfitted(C, back, cls, kind, q):
    """A model without parameter answers no query."""
    M = make(C, back, cls, kind)
    I, st = C.I, M.st
    o = I.rec(st, M.obj)
    st.heap[M.obj.addr] = Inst(o.cls, {k: v for k, v in o.fields.items() if k != "param"})
    a = []
    if "prop" in q:
        a = [vec(I, st, "w", N)]
    if "graph" in q:
        a = [I.alloc(st, Arr((N, N), lambda ix: Sc(T.app("obs", ix, "R"))))]
    C.sane(st.pc)
    r = method(C, M, q[0], *a)
    if r.ok:
        C.check("%s of a model that is not fitted raises an error" % q[0], list(r.st.pc), FALSE)
    C.check("%s of a model that is not fitted ends with an error" % q[0], [], TRUE if r.raises else FALSE)


def setup():
    for back, cs in CLASSES.items():
        rnd = {"dense": "models.RandomDiGraph", "sparse": "sparse.models.random.RandomDiGraph", "spark": "spark.models.RandomDiGraph"}[back]
        for cls, kind in cs:
            for q in QUERIES + (LABEL if kind == "multi" else []):
                add_task(["C19"], "%s.%s (not fitted)" % (cls, q[0]), unfitted, back=back, cls=cls, kind=kind, q=q)
        for cls, kind in cs + [(rnd, "random")]:
            for v in variants(back, kind):
                nm = ", ".join("%s: %s" % kf for kf in sorted(v.items()) if kf[1])
                add_task(["C19"], "%s.__init__(%s)" % (cls, nm), constructor, back=back, cls=cls, kind=kind, forms=tuple(v.items()))


setup()
