"""Executable contracts of the graph classes (C14, C15 and the graph part of
C13).  The oracle works on the plain edge list with dictionaries."""
from common import *
import itertools
import networkx as nx

NAMES = ("Graph", "DiGraph", "MultiGraph", "MultiDiGraph")


def build(backend, name, d):
    """d: dict with v (list of ids), e (list of (src,dst[,label],weight)),
    groups (dict id->group) or None, weighted flag."""
    mod = ge if backend == "dense" else gs
    multi = "Multi" in name
    v = pd.DataFrame({"id": d["v"]})
    kw = {}
    if d.get("groups") is not None:
        v["g"] = [d["groups"][x] for x in d["v"]]
        kw["v_group"] = "g"
    e = pd.DataFrame({
        "s": [x[0] for x in d["e"]],
        "t": [x[1] for x in d["e"]],
        "l": [x[2] for x in d["e"]],
        "w": np.array([x[3] for x in d["e"]], dtype=d.get("wtype", "f8")),
    })
    if d["weighted"]:
        kw["weight"] = "w"
    if multi:
        kw["edge_label"] = "l"
    return getattr(mod, name)(v, e, v_id="id", src="s", dst="t", **kw)


class GSpec:
    """Sums over the edge list."""

    def __init__(self, g, d, multi):
        self.ids = g.id_dict
        self.N = len(d["v"])
        self.d = d
        self.labels = sorted(set(x[2] for x in d["e"])) if multi else [None]
        L, N = len(self.labels), self.N
        self.W = np.zeros((L, N, N))
        lab = g.label_dict if multi else {None: 0}
        for s, t, l, w in d["e"]:
            k = lab[l] if multi else 0
            self.W[k, self.ids[s], self.ids[t]] += w
        self.B = (self.W != 0).astype(float)
        if not d["weighted"]:
            self.W = self.B
        if d.get("groups") is not None:
            self.grp = np.zeros(N, int)
            for x in d["v"]:
                self.grp[self.ids[x]] = g.group_dict[d["groups"][x]]
            self.G = np.zeros((N, len(set(d["groups"].values()))))
            self.G[np.arange(N), self.grp] = 1

    @staticmethod
    def sym(W):
        """undirected weighted: both directions added, self-loop once"""
        S = W + np.swapaxes(W, -1, -2)
        i = np.arange(W.shape[-1])
        S[..., i, i] = W[..., i, i]
        return S

    @staticmethod
    def either(B):
        return np.maximum(B, np.swapaxes(B, -1, -2))


def und(S):
    """count every unordered pair once"""
    return np.triu(S).sum(axis=(-1, -2)) if S.ndim > 2 else np.triu(S).sum()


def gcases(tier):
    def edges(g, v, m, L, wt):
        e = []
        for _ in range(m):
            s, t = g.randint(len(v)), g.randint(len(v))
            e.append((v[s], v[t], ["b", "a", "zz", "c"][g.randint(L)], float(wt(g))))
        return e

    w1 = lambda g: round(g.uniform(0.1, 5), 2)
    wi = lambda g: g.randint(1, 4)
    reps = 2 if tier == "quick" else 10
    for b in ("dense", "sparse"):
        for name in NAMES:
            for r in range(reps):
                for weighted in (False, True):
                    for grp in (False, True):
                        g = gen("graph", name, r, weighted, grp)
                        N = [4, 6, 3, 7, 5, 2, 9, 1, 8, 6][r]
                        v = ["n%02d" % x for x in g.permutation(N)] if r % 2 else [int(x) for x in g.permutation(N) * 3 + 5]
                        e = edges(g, v, [10, 9, 3, 20, 1, 2, 12, 1, 30, 14][r], [3, 1, 2, 4, 1, 2, 3, 1, 4, 2][r],
                                  w1 if r != 1 else wi)
                        if r == 0:
                            e = [(v[0], v[1], "a", 1.5), (v[1], v[0], "a", 2.0), (v[0], v[1], "a", 0.25),
                                 (v[0], v[1], "b", 3.0), (v[2], v[2], "b", 4.0), (v[1], v[0], "b", 0.125)] + e[:3]
                        d = dict(v=v, e=e, weighted=weighted,
                                 groups={x: "G%d" % (g.randint(3)) for x in v} if grp else None,
                                 wtype="i8" if r == 1 else "f8")
                        yield "%s/%s/%d/w=%d/g=%d" % (b, name, r, weighted, grp), b, name, d
            # no self loops, single group, isolated vertices, many vertices
            g = gen("graph-big", name)
            N = 300
            v = list(range(N))
            e = [(int(s), int(t), "ab"[k % 2], 1.0 + k % 3) for k, (s, t) in enumerate(g.randint(N, size=(60, 2)))]
            yield "%s/%s/n300" % (b, name), b, name, dict(v=v, e=e, weighted=True, groups={x: x % 2 for x in v})
            v = list(range(12))
            e = [(i, j, "q", 1.0) for i in v for j in v]
            yield "%s/%s/full" % (b, name), b, name, dict(v=v, e=e, weighted=False, groups={x: x % 5 for x in v})
            # a degree above the range of small integer types
            v = list(range(300))
            e = [(0, i, "q", 1.0) for i in v] + [(i, 0, "q", 1.0) for i in v[1:]]
            yield "%s/%s/star" % (b, name), b, name, dict(v=v, e=e, weighted=False, groups={x: 0 for x in v})


def measures(g, sp_, name, rec):
    """Compare every measure of the graph with the edge-list sums."""
    N = sp_.N
    multi = "Multi" in name
    di = "Di" in name
    W, B = sp_.W, sp_.B
    Wt, Bt = W.sum(axis=0), (B.sum(axis=0) > 0).astype(float)
    has_w = sp_.d["weighted"]
    E, S = GSpec.either(Bt), GSpec.sym(Wt)
    q = rec.eq
    mats = {(False, False): E}
    if has_w:
        mats[(False, True)] = S
    if di:
        mats[(True, False)] = Bt
        if has_w:
            mats[(True, True)] = Wt
    for (dr, wt), want in mats.items():
        q("adjacency_matrix", g.adjacency_matrix(directed=dr, weighted=wt), want, detail=(dr, wt))
    if multi:
        tens = {(False, False): GSpec.either(B)}
        if has_w:
            tens[(False, True)] = GSpec.sym(W)
        if di:
            tens[(True, False)] = B
            if has_w:
                tens[(True, True)] = W
        for (dr, wt), want in tens.items():
            q("adjacency_tensor", g.adjacency_tensor(directed=dr, weighted=wt), want, detail=(dr, wt))
    q("num_edges", g.num_edges(), Bt.sum() if di else np.triu(E).sum())
    if has_w:
        q("total_weight", g.total_weight(), Wt.sum())
    q("degree", g.degree(), E.sum(axis=1))
    if has_w:
        q("strength", g.strength(), S.sum(axis=1))
    if di:
        q("out_degree", g.out_degree(), Bt.sum(axis=1))
        q("in_degree", g.in_degree(), Bt.sum(axis=0))
        if has_w:
            q("out_strength", g.out_strength(), Wt.sum(axis=1))
            q("in_strength", g.in_strength(), Wt.sum(axis=0))
    if hasattr(sp_, "G"):
        G = sp_.G
        q("groups", g.groups, sp_.grp)
        q("degree_by_group", g.degree_by_group(), E.dot(G))
        if has_w:
            q("strength_by_group", g.strength_by_group(), S.dot(G))
        if di:
            q("out_degree_by_group", g.out_degree_by_group(), Bt.dot(G))
            q("in_degree_by_group", g.in_degree_by_group(), Bt.T.dot(G))
            if has_w:
                q("out_strength_by_group", g.out_strength_by_group(), Wt.dot(G))
                q("in_strength_by_group", g.in_strength_by_group(), Wt.T.dot(G))
    if multi:
        EL, SL = GSpec.either(B), GSpec.sym(W)
        q("num_edges_label", g.num_edges_label(), B.sum(axis=(1, 2)) if di else und(EL))
        if has_w:
            q("total_weight_label", g.total_weight_label(), W.sum(axis=(1, 2)))
        q("degree_by_label", g.degree_by_label(), EL.sum(axis=2).T)
        if has_w:
            q("strength_by_label", g.strength_by_label(), SL.sum(axis=2).T)
        if di:
            q("out_degree_by_label", g.out_degree_by_label(), B.sum(axis=2).T)
            q("in_degree_by_label", g.in_degree_by_label(), B.sum(axis=1).T)
            if has_w:
                q("out_strength_by_label", g.out_strength_by_label(), W.sum(axis=2).T)
                q("in_strength_by_label", g.in_strength_by_label(), W.sum(axis=1).T)
    # neighbour averages
    gg = gen("prop", N)
    props = [np.round(gg.uniform(-2, 3, N), 3)]
    if N < 50:
        props.append(np.round(gg.uniform(0, 3, (N, 2)), 3))
    dirs = {"out-in": E}
    if di:
        dirs = {"out": Bt, "in": Bt.T, "out-in": E}
    for sl in (False, True):
        for nd, A in dirs.items():
            A = A.copy()
            if not sl:
                np.fill_diagonal(A, 0)
            for pr in props:
                got = g.average_nn_property(pr, ndir=nd, selfloops=sl) if di else g.average_nn_property(pr, selfloops=sl)
                q("average_nn_property", got, _mean(A, pr), detail=(nd, sl))
            dd = {"out": Bt.sum(axis=1), "in": Bt.sum(axis=0), "out-in": E.sum(axis=1)} if di else {"out-in": E.sum(axis=1)}
            for k, deg in dd.items():
                got = g.average_nn_degree(ndir=nd, ddir=k, selfloops=sl) if di else g.average_nn_degree(selfloops=sl)
                q("average_nn_degree", got, _mean(A, deg), detail=(nd, k, sl))
    # recompute gives the same
    for nm in ("num_edges", "degree") + (("out_degree", "in_degree") if di else ()):
        q(nm + "/recompute", getattr(g, nm)(recompute=True), dense(getattr(g, nm)()))


def _mean(A, pr):
    deg = A.sum(axis=1)
    num = A.dot(pr)
    out = np.zeros_like(num, dtype=float)
    for i in range(len(deg)):
        if deg[i] != 0:
            out[i] = num[i] / deg[i]
    return out


def c14(rec):
    for cid, b, name, d in gcases(rec.tier):
        def f():
            g = build(b, name, d)
            measures(g, GSpec(g, d, "Multi" in name), name, rec)
        rec.run(cid, f, dict(backend=b, cls=name, **d))


# ------------------------------------------------------------------------ C15
def check_nx(rec, g, name, d):
    multi, di = "Multi" in name, "Di" in name
    G = g.to_networkx()
    rec.true("nx/type", G.is_directed() == di and G.is_multigraph() == multi)
    rec.true("nx/nodes", sorted(G.nodes) == list(range(len(d["v"]))))
    inv = {i: k for k, i in g.id_dict.items()}
    for i, dat in G.nodes(data=True):
        rec.true("nx/node_id", dat.get("node_id") == inv[i], (i, dat))
        if d.get("groups") is not None:
            rec.true("nx/group", dat.get("group") == d["groups"][inv[i]], (i, dat))
    want = {}
    for s, t, l, w in d["e"]:
        a, b = g.id_dict[s], g.id_dict[t]
        if not di and a > b:
            a, b = b, a
        k = (a, b, l if multi else None)
        want[k] = want.get(k, 0) + w
    got = {}
    for x in G.edges(data=True):
        a, b, dat = int(x[0]), int(x[1]), x[2]
        if not di and a > b:
            a, b = b, a
        k = (a, b, dat.get("label") if multi else None)
        if k in got:
            rec.fail("nx/edge-twice", k)
        got[k] = dat["weight"]
    rec.true("nx/edges", set(got) == set(want), (sorted(map(str, set(got) ^ set(want)))))
    if d["weighted"]:
        for k in want:
            rec.true("nx/weight", abs(got[k] - want[k]) < 1e-9, (k, got[k], want[k]))


def c15(rec):
    for cid, b, name, d in gcases(rec.tier):
        def f():
            g = build(b, name, d)
            multi = "Multi" in name
            N = len(d["v"])
            rec.true("id_dict", sorted(g.id_dict) == sorted(d["v"]) and sorted(g.id_dict.values()) == list(range(N)))
            rec.true("num_vertices", g.num_vertices == N)
            rec.true("id_dtype", np.iinfo(g.id_dtype).max >= N - 1)
            if d["groups"] is not None:
                gs_ = sorted(set(d["groups"].values()))
                rec.true("group_dict", sorted(g.group_dict) == gs_ and sorted(g.group_dict.values()) == list(range(len(gs_))))
                rec.true("num_groups", g.num_groups == len(gs_))
                rec.true("groups", all(int(g.groups[g.id_dict[x]]) == g.group_dict[d["groups"][x]] for x in d["v"]))
            if multi:
                ls = sorted(set(x[2] for x in d["e"]))
                rec.true("label_dict", sorted(g.label_dict) == ls and sorted(g.label_dict.values()) == list(range(len(ls))))
                rec.true("num_labels", g.num_labels == len(ls))
            s = GSpec(g, d, multi)
            rec.eq("adj", g.adj, s.W if multi else s.W[0])
            check_nx(rec, g, name, d)
        rec.run(cid, f, dict(backend=b, cls=name, **d))
    # several identifier columns, row order, rejections
    for b in ("dense", "sparse"):
        mod = ge if b == "dense" else gs
        for name in NAMES:
            multi = "Multi" in name

            def f():
                v = pd.DataFrame({"a": ["x", "y", "x", "y"], "b": [2, 1, 1, 2], "gr": ["u", "w", "w", "u"], "gs": [1, 1, 2, 1]},
                                 index=[7, 3, 5, 1])
                e = pd.DataFrame({"sa": ["x", "y", "x"], "sb": [1, 2, 2], "ta": ["y", "x", "x"], "tb": [1, 2, 1],
                                  "l1": ["p", "q", "p"], "l2": [1, 1, 2], "w": [1.0, 2.0, 4.0]}, index=[4, 4, 0])
                kw = dict(edge_label=["l1", "l2"]) if multi else {}
                g = getattr(mod, name)(v, e, v_id=["a", "b"], src=["sa", "sb"], dst=["ta", "tb"], weight="w", v_group=["gr", "gs"], **kw)
                ids = [("x", 2), ("y", 1), ("x", 1), ("y", 2)]
                rec.true("multi-id", sorted(g.id_dict) == sorted(ids) and sorted(g.id_dict.values()) == [0, 1, 2, 3])
                W = np.zeros((3, 4, 4))
                es = [(("x", 1), ("y", 1), ("p", 1), 1.0), (("y", 2), ("x", 2), ("q", 1), 2.0), (("x", 2), ("x", 1), ("p", 2), 4.0)]
                for s, t, l, w in es:
                    W[g.label_dict[l] if multi else 0, g.id_dict[s], g.id_dict[t]] += w
                rec.eq("multi-id/adj", g.adj, W if multi else W[0])
                grp = dict(zip(ids, [("u", 1), ("w", 1), ("w", 2), ("u", 1)]))
                rec.true("multi-id/groups", g.num_groups == 3 and all(int(g.groups[g.id_dict[x]]) == g.group_dict[grp[x]] for x in ids))
            rec.run("%s/%s/multi-id" % (b, name), f)

            # identifiers, groups and labels of one to three columns, in any order of columns and rows
            for case in range(6 if rec.tier == "quick" else 24):
                def f():
                    rng_ = np.random.default_rng(1000 + case)
                    k = 1 + case % 3
                    N, M = int(rng_.integers(3, 9)), int(rng_.integers(3, 12))
                    vals = [["x", "y", "z"], [2, 1, 10], ["10", "9", "a"]]
                    allids = [t for t in itertools.product(*vals[:max(k, 2)])]
                    pick = rng_.permutation(len(allids))[:N]
                    ids = [allids[q][:k] if k > 1 else ("".join(map(str, allids[q])),) for q in pick]
                    names = ["zc", "ab", "mm"][:k] if case % 2 else ["b", "c", "a"][:k]
                    vd = {c: [t[q] for t in ids] for q, c in enumerate(names)}
                    grp = [(int(rng_.integers(3)), "uvw"[int(rng_.integers(3))]) for _ in ids]
                    vd["h2"], vd["h1"] = [t[0] for t in grp], [t[1] for t in grp]
                    cols = list(vd)
                    v = pd.DataFrame(vd, index=rng_.permutation(N) * 3)[[cols[q] for q in rng_.permutation(len(cols))]]
                    es = [(int(rng_.integers(N)), int(rng_.integers(N)), ("pq"[int(rng_.integers(2))], int(rng_.integers(2))),
                           float(rng_.integers(1, 9))) for _ in range(M)]
                    ed = {"t" + c: [ids[x[1]][q] for x in es] for q, c in enumerate(names)}
                    ed.update({"s" + c: [ids[x[0]][q] for x in es] for q, c in enumerate(names)})
                    ed["m2"], ed["m1"] = [x[2][0] for x in es], [x[2][1] for x in es]
                    ed["w"] = [x[3] for x in es]
                    e = pd.DataFrame(ed, index=rng_.integers(0, 3, size=M))
                    key = (lambda t: t) if k > 1 else (lambda t: t[0])
                    kw = dict(edge_label=["m2", "m1"]) if multi else {}
                    src, dst = ["s" + c for c in names], ["t" + c for c in names]
                    for rep in range(2):
                        g = getattr(mod, name)(v, e, v_id=list(names), src=src, dst=dst, weight="w", v_group=["h2", "h1"], **kw)
                        rec.true("columns/ids", sorted(g.id_dict) == sorted(key(t) for t in ids)
                                 and sorted(g.id_dict.values()) == list(range(N)), (case, rep))
                        rec.true("columns/groups", set(g.group_dict) == set(grp) and all(
                            int(g.groups[g.id_dict[key(t)]]) == g.group_dict[q] for t, q in zip(ids, grp)), (case, rep))
                        L = 1
                        if multi:
                            L = len(set(x[2] for x in es))
                            rec.true("columns/labels", set(g.label_dict) == set(x[2] for x in es)
                                     and sorted(g.label_dict.values()) == list(range(L)), (case, rep))
                        W = np.zeros((L, N, N))
                        for x in es:
                            W[g.label_dict[x[2]] if multi else 0, g.id_dict[key(ids[x[0]])], g.id_dict[key(ids[x[1]])]] += x[3]
                        rec.eq("columns/adj", g.adj, W if multi else W[0], detail=(case, rep))
                    # the same tables used again with the directions exchanged
                    g = getattr(mod, name)(v, e, v_id=list(names), src=dst, dst=src, weight="w", **kw)
                    rec.eq("columns/reversed", g.adj, W.transpose(0, 2, 1) if multi else W[0].T, detail=case)
                rec.run("%s/%s/columns/%d" % (b, name, case), f)

            def base():
                v = pd.DataFrame({"id": [3, 1, 2]})
                e = pd.DataFrame({"s": [1, 2], "t": [2, 3], "l": ["a", "b"], "w": [1.0, 2.0]})
                return v, e
            kw = dict(edge_label="l") if multi else {}
            cls = getattr(mod, name)

            def f():
                v, e = base()
                v2 = pd.DataFrame({"id": [3, 1, 3]})
                rec.raises("repeated-id", Exception, lambda: cls(v2, e, v_id="id", src="s", dst="t", **kw))
                v2 = pd.DataFrame({"a": [1, 1, 2], "b": ["x", "x", "x"]})
                e2 = pd.DataFrame({"sa": [1], "sb": ["x"], "ta": [2], "tb": ["x"], "l": ["a"]})
                rec.raises("repeated-id-columns", Exception, lambda: cls(
                    v2, e2, v_id=["a", "b"], src=["sa", "sb"], dst=["ta", "tb"], **kw))
                for col in ("s", "t"):
                    for val in (9, 0, -1, 4):
                        v, e = base()
                        e.loc[1, col] = val
                        rec.raises("unknown-vertex", Exception, lambda: cls(v, e, v_id="id", src="s", dst="t", **kw), (col, val))
                for val in (0.0, -1.0, float("nan")):
                    v, e = base()
                    e.loc[0, "w"] = val
                    rec.raises("bad-weight", Exception, lambda: cls(v, e, v_id="id", src="s", dst="t", weight="w", **kw), val)
                # one bad row among many
                n = 40
                for pos in (0, 17, n - 1):
                    v = pd.DataFrame({"id": np.arange(n)})
                    s, t = np.arange(n), (np.arange(n) * 3 + 1) % n
                    big = pd.DataFrame({"s": s, "t": t, "l": ["ab"[k % 2] for k in range(n)], "w": np.ones(n)})
                    cls(v, big, v_id="id", src="s", dst="t", weight="w", **kw)
                    for col, val in (("w", 0.0), ("w", -2.0), ("s", 99), ("t", -1), ("t", 40)):
                        e = big.copy()
                        e.loc[pos, col] = val
                        rec.raises("one bad row among many", Exception, lambda: cls(v, e, v_id="id", src="s", dst="t", weight="w", **kw), (pos, col, val))
                    v2 = v.copy()
                    v2.loc[pos, "id"] = v2["id"][(pos + 5) % n]
                    rec.raises("one repeated identifier among many", Exception, lambda: cls(v2, big, v_id="id", src="s", dst="t", weight="w", **kw), pos)
            rec.run("%s/%s/reject" % (b, name), f)

            # identifiers at the type boundaries
            for N in (254, 255, 256, 257):
                def f():
                    v = pd.DataFrame({"id": np.arange(N)[::-1]})
                    e = pd.DataFrame({"s": np.arange(N), "t": (np.arange(N) * 7 + 3) % N, "l": np.arange(N), "w": np.arange(N) + 1.0})
                    g = cls(v, e, v_id="id", src="s", dst="t", weight="w", **kw)
                    rec.true("positions", sorted(g.id_dict.values()) == list(range(N)))
                    if multi:
                        rec.true("labels", g.num_labels == N and sorted(g.label_dict.values()) == list(range(N)))
                        tot = 0
                        for l in range(0, N, 17):
                            a = dense(g.adj[g.label_dict[l]])
                            rec.true("edge-place", a[g.id_dict[l], g.id_dict[(l * 7 + 3) % N]] == l + 1 and a.sum() == l + 1, l)
                    else:
                        a = dense(g.adj)
                        rec.true("edge-place", all(a[g.id_dict[l], g.id_dict[(l * 7 + 3) % N]] == l + 1 for l in range(N)))
                        rec.true("edge-total", a.sum() == N * (N + 1) / 2)
                if N in (255, 257) or rec.tier != "quick":
                    rec.run("%s/%s/bytes/%d" % (b, name, N), f)
            # many groups
            def f():
                N = 300
                v = pd.DataFrame({"id": np.arange(N), "g": (np.arange(N) * 7) % N})
                e = pd.DataFrame({"s": [0, 299], "t": [299, 1], "l": [0, 1]})
                g = cls(v, e, v_id="id", src="s", dst="t", v_group="g", **kw)
                rec.true("groups-many", all(int(g.groups[g.id_dict[i]]) == g.group_dict[(i * 7) % N] for i in range(N)))
            rec.run("%s/%s/groups300" % (b, name), f)
    for b in ("dense", "sparse"):
        mod = ge if b == "dense" else gs

        def f():
            for n in list(range(1, 1200)) + [2**16 - 2, 2**16 - 1, 2**16, 2**16 + 1, 2**24, 2**32 - 1, 2**32, 2**32 + 1, 2**40]:
                k = mod.Graph.get_num_bytes(n)
                rec.true("num-bytes", k in (1, 2, 4, 8) and 2 ** (8 * k) >= n, (n, k))
        rec.run("%s/num_bytes" % b, f)


# ------------------------------------------------------------- purity (C13)
def purity(rec):
    seen = 0
    for cid, b, name, d in gcases("quick"):
        if "/n300" in cid or "/star" in cid or "/1/" in cid:
            continue
        def f():
            di, multi = "Di" in name, "Multi" in name
            fresh = lambda: build(b, name, d)
            qs = ["num_edges", "degree"]
            if d["weighted"]:
                qs += ["total_weight", "strength"]
            if di:
                qs += ["out_degree", "in_degree"]
                if d["weighted"]:
                    qs += ["out_strength", "in_strength"]
            if d["groups"] is not None:
                qs += ["degree_by_group"] + (["strength_by_group"] if d["weighted"] else [])
                if di:
                    qs += ["out_degree_by_group", "in_degree_by_group"]
                    if d["weighted"]:
                        qs += ["out_strength_by_group", "in_strength_by_group"]
            if multi:
                qs += ["num_edges_label", "degree_by_label"]
                if di:
                    qs += ["out_degree_by_label", "in_degree_by_label"]
                    if d["weighted"]:
                        qs += ["out_strength_by_label", "in_strength_by_label"]
            calls = [("m:" + x, (lambda g, x=x: getattr(g, x)())) for x in qs]
            calls += [("r:" + x, (lambda g, x=x: getattr(g, x)(recompute=True))) for x in qs]
            pr = np.arange(len(d["v"])) * 0.5 - 1
            for sl in (True, False):
                for nd in (("out", "in", "out-in") if di else (None,)):
                    kw = dict(selfloops=sl)
                    if nd:
                        kw["ndir"] = nd
                    calls.append(("p:%s:%s" % (nd, sl), lambda g, kw=kw: g.average_nn_property(pr, **kw)))
                    for dd in (("out", "in", "out-in") if di else (None,)):
                        k2 = dict(kw)
                        if dd:
                            k2["ddir"] = dd
                        calls.append(("d:%s:%s:%s" % (nd, dd, sl), lambda g, k2=k2: g.average_nn_degree(**k2)))
            for dr in ((False, True) if di else (False,)):
                for w in ((False, True) if d["weighted"] else (False,)):
                    calls.append(("a:%s:%s" % (dr, w), lambda g, dr=dr, w=w: g.adjacency_matrix(directed=dr, weighted=w)))
            want = {}
            for nm, c in calls:
                want[nm] = np.array(dense(c(fresh())), copy=True)
            g = fresh()
            adj0 = np.array(dense(g.adj), copy=True)
            rr = gen("purity", cid, rec.seed)
            order = list(rr.permutation(len(calls))) + list(rr.permutation(len(calls)))
            hist = []
            for k in order:
                nm, c = calls[k]
                hist.append(nm)
                rec.eq("graph/" + nm.split(":")[0], c(g), want[nm], detail="history %s" % hist[-6:])
                rec.eq("graph/adj-unchanged", g.adj, adj0, detail=nm)
        rec.run("graph-purity/" + cid, f, dict(backend=b, cls=name, **d))
