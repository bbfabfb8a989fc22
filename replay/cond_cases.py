"""Executable contracts of ConditionalInvariantModel (C16, and its share of
C03, C05, C10, C13)."""
from common import *


class CCase:
    multi = False
    backend = "sparse"

    def __init__(self, x, y, groups, G, d, selfloops):
        self.x, self.y = np.asarray(x, float), np.asarray(y, float)
        self.groups = np.asarray(groups)
        self.G = np.asarray(G, float)
        self.d, self.selfloops = float(d), selfloops
        self.N, self.M = len(self.x), self.G.shape[0]

    def desc(self):
        return dict(model="ConditionalInvariantModel", prop_out=self.x, prop_in=self.y, groups=self.groups,
                    adj=self.G, param=self.d, selfloops=self.selfloops)

    def model(self, **kw):
        a = dict(num_vertices=self.N, prop_out=self.x.copy(), prop_in=self.y.copy(), groups=self.groups.copy(),
                 adj=self.G.copy(), param=np.array([self.d]), selfloops=self.selfloops)
        a.update(kw)
        a = {k: v for k, v in a.items() if v is not None}
        return gs.ConditionalInvariantModel(**a)

    def adm(self, sl=None):
        m = np.ones((self.N, self.N), bool)
        if not (self.selfloops if sl is None else sl):
            np.fill_diagonal(m, False)
        return m

    def linked(self):
        return self.G[np.ix_(self.groups, self.groups)] != 0

    def mass(self):
        """Sum of x_i y_j over the admissible pairs of each group pair."""
        W = np.outer(self.x, self.y) * self.adm()
        S = np.zeros((self.M, self.M))
        np.add.at(S, np.ix_(self.groups, self.groups), W)
        return S

    def P(self, d=None):
        d = self.d if d is None else d
        W = np.outer(self.x, self.y) * self.adm()
        S = self.mass()[np.ix_(self.groups, self.groups)]
        with np.errstate(all="ignore"):
            if d == 0:
                p = W / S
            else:
                p = -np.expm1(-d * W) / -np.expm1(-d * S)
        return np.where(self.linked() & self.adm() & (W > 0), p, 0.0)

    def fit_spec(self, d):
        W = np.outer(self.x, self.y) * self.adm()
        S = self.mass()[np.ix_(self.groups, self.groups)]
        ok = self.linked() & (W > 0)
        with np.errstate(all="ignore"):
            if d == 0:
                jac = W / S * (S - W) / 2
            else:
                A, B = -np.expm1(-d * W), -np.expm1(-d * S)
                jac = W * np.exp(-d * W) / B - A * S * np.exp(-d * S) / B ** 2
        return self.P(d)[ok].sum(), jac[ok].sum()

    def pair_p(self):
        return -np.expm1(-self.d * np.outer(self.x, self.y))

    def group_p(self):
        return -np.expm1(-self.d * self.mass())

    def possible(self):
        """A graph with one edge in every linked group pair."""
        A = np.zeros((self.N, self.N), int)
        ok = (np.outer(self.x, self.y) > 0) & self.adm()
        for a in range(self.M):
            for b in range(self.M):
                if self.G[a, b]:
                    for i, j in np.argwhere(ok):
                        if self.groups[i] == a and self.groups[j] == b:
                            A[i, j] = 1
                            break
        return A


def cond_cases(tier):
    out = []
    for sl in (False, True):
        out.append(("two/%d" % sl, CCase([1.0, 0.5, 2], [0.3, 2, 1], [0, 0, 1], [[1.0, 2], [0, 0]], 0.4, sl)))
        out.append(("asym/%d" % sl, CCase([1.0, 0.5, 2, 0.7], [0.3, 2, 1, 1.1], [1, 0, 1, 0], [[3.0, 0], [2.5, 1]], 0.7, sl)))
        out.append(("noself/%d" % sl, CCase([1.0, 0.5, 2, 0.7, 0.9], [0.3, 2, 1, 1.1, 0.4], [2, 0, 1, 0, 1],
                                           [[0, 1.5, 0], [0, 0, 2], [4, 0, 0]], 0.2, sl)))
        out.append(("zero/%d" % sl, CCase([1.0, 0.0, 2, 0.7, 0.9], [0.3, 2, 0, 1.1, 0.4], [0, 0, 1, 0, 1],
                                         [[2.0, 1.5], [0, 3]], 1.3, sl)))
    reps = 3 if tier == "quick" else 15
    for r in range(reps):
        g = gen("cond", r)
        M, N = g.randint(2, 4), g.randint(5, 8)
        groups = np.concatenate([np.repeat(np.arange(M), 2), g.randint(0, M, max(0, N - 2 * M))])
        groups = groups[g.permutation(len(groups))]
        x, y = np.round(g.uniform(0.1, 2, len(groups)), 3), np.round(g.uniform(0.1, 2, len(groups)), 3)
        G = np.where(g.uniform(size=(M, M)) < 0.6, np.round(g.uniform(1, 5, (M, M)), 1), 0)
        if not G.any():
            G[0, 0] = 1
        out.append(("rand%d" % r, CCase(x, y, groups, G, np.round(g.uniform(0.05, 1.5), 3), bool(r % 2))))
    return out


KNOWN = [
    ("C16", "conditional-av-nn", "ConditionalInvariantModel.expected_av_nn_property uses the unconditional link probabilities"),
    ("C16", "conditional-undirected-degree", "ConditionalInvariantModel.expected_degree treats the two directions of a same-group pair as independent"),
]


def known_findings(rec):
    """Deterministic reproductions of the recorded, unrepaired defects."""
    from models_cases import Stream  # noqa
    out = []
    c = CCase([1.0, 0.5, 2], [0.3, 2, 1], [0, 0, 1], [[1.0, 2], [0, 0]], 0.4, False)
    prop = np.array([1.0, 2.0, 4.0])
    try:
        got = c.model().expected_av_nn_property(prop, ndir="out")
        want = avnn_of(c.P(), c.adm(), prop, "out")
        if not np.allclose(got, want, rtol=1e-9):
            out.append("conditional-av-nn")
    except Exception:
        out.append("conditional-av-nn")
    # two vertices in one group: at least one of the two directions is certain
    c = CCase([1.0, 0.5], [0.3, 2], [0, 0], [[1.0]], 0.4, False)
    try:
        if not np.allclose(c.model().expected_degree(), 1.0, rtol=1e-9):
            out.append("conditional-undirected-degree")
    except Exception:
        out.append("conditional-undirected-degree")
    return out


def joint_law(run, total):
    """Exact law of a sampler with sequential draws: run(list of draws, default)
    -> (frozenset of edges, draws used).  Returns {edges: probability}."""
    hi = 1 - 1e-15
    law = {}

    def walk(prefix, prob):
        e, used = run(prefix, 0.0)
        if used <= len(prefix):
            law[e] = law.get(e, 0.0) + prob
            return
        a = run(prefix + [0.0], 0.0)[0]
        b = run(prefix + [hi], 0.0)[0]
        if a == b:
            # the draw decides nothing on its own here: accept or reject whole
            walk(prefix + [0.0], prob)
            return
        lo, up = 0.0, 1.0
        for _ in range(46):
            mid = (lo + up) / 2
            if run(prefix + [mid], 0.0)[0] == a:
                lo = mid
            else:
                up = mid
        walk(prefix + [0.0], prob * lo)
        if lo < 1 - 1e-9:
            walk(prefix + [hi], prob * (1 - lo))
    walk([], 1.0)
    return law


def c16(rec):
    from models_cases import Stream, sample_adj, JIT as _
    extreme(rec)
    for cid, c in cond_cases(rec.tier):
        def expect(c=c):
            m = c.model()
            P = c.P()
            rec.eq("conditional expected edges", m.expected_num_edges(), P.sum())
            rec.eq("conditional out degree", m.expected_out_degree(), P.sum(1))
            rec.eq("conditional in degree", m.expected_in_degree(), P.sum(0))
            f = getattr(type(m), "cond_p_ij", None)
            f, jac = m.density_fit_fun(np.array([c.d]))
            w, wj = c.fit_spec(c.d)
            rec.eq("conditional fit function", f, w)
            rec.eq("conditional fit derivative", jac, wj, rtol=1e-6, atol=1e-9)
            f, jac = m.density_fit_fun(np.array([0.0]))
            w, wj = c.fit_spec(0.0)
            rec.eq("conditional fit function at 0", f, w)
            rec.eq("conditional fit derivative at 0", jac, wj, rtol=1e-6, atol=1e-9)
            for d in (1e-14, 1e-11, 1e-8, 1e-6, 1e-4, 1e-3, 0.02, 0.3, 2.5, 40.0, 1e4):
                f, jac = m.density_fit_fun(np.array([d]))
                w, wj = c.fit_spec(d)
                rec.eq("conditional fit function along the parameter", f, w, rtol=1e-7, detail=d)
                if d >= 1e-4:
                    rec.eq("conditional fit derivative along the parameter", jac, wj, rtol=1e-5, atol=1e-8, detail=d)
                m2 = c.model(param=np.array([d]))
                rec.eq("conditional expected edges along the parameter", m2.expected_num_edges(), w, rtol=1e-7, detail=d)
                rec.eq("conditional out degree along the parameter", m2.expected_out_degree(), c.P(d).sum(1), rtol=1e-7, detail=d)
                rec.eq("conditional in degree along the parameter", m2.expected_in_degree(), c.P(d).sum(0), rtol=1e-7, detail=d)
        rec.run(cid + "/expect", expect, c.desc())

        def like(c=c, cid=cid):
            m = c.model()
            g = gen("condlike", cid)
            ok = (np.outer(c.x, c.y) > 0) & c.adm() & c.linked()
            base = c.possible()
            pp, gp = c.pair_p(), c.group_p()
            for r in range(4):
                A = (base | ((g.uniform(size=base.shape) < 0.4) & ok)).astype(int)
                adm = c.adm()
                with np.errstate(all="ignore"):
                    l = np.where(A != 0, np.log(pp), np.log1p(-pp))[adm].sum()
                    lg = np.where(c.G != 0, np.log(gp), np.log1p(-gp)).sum()
                for form in (A, sp.csr_array(A.astype(float)), digraph_of("sparse", A)):
                    rec.eq("conditional log-likelihood", m.log_likelihood(form), l - lg, rtol=1e-8, detail=A.tolist())
            bad = (np.outer(c.x, c.y) > 0) & c.adm() & ~c.linked()
            if bad.any():
                A = base.copy()
                i, j = np.argwhere(bad)[0]
                A[i, j] = 1
                rec.eq("edge between unlinked groups is impossible", m.log_likelihood(A), -INF)
            A = base.copy()
            i, j = np.argwhere(base)[0]
            A[i, j] = 0
            rec.eq("missing group link is impossible", m.log_likelihood(A), -INF)
        rec.run(cid + "/like", like, c.desc())
        if JIT:
            continue

        def sampling(c=c, cid=cid):
            m = c.model()
            ok = (np.outer(c.x, c.y) > 0) & c.adm()
            for r in range(20):
                g = gen("cs", cid, r)
                us = [0.0, 1 - 1e-7] if r == 0 else None
                draw = (lambda k: g.uniform()) if r > 2 else ((lambda k: 1 - 1e-7) if r == 1 else (lambda k: 1e-9 if r == 2 else g.uniform()))
                with Stream(draw):
                    A, gr = sample_adj(m)
                rec.true("sampled edges join linked groups", not np.any((A != 0) & ~(c.linked() & ok)), short(A))
                if r != 1:
                    cover(rec, c, A)
                rec.true("sample has the vertices", gr.num_vertices == c.N)
                g = gen("cs", cid, r)
                so, si = c.x, c.y * (c.x.sum() / c.y.sum())
                with Stream(draw if r <= 2 else (lambda k: g.uniform())):
                    A, gr = sample_adj(m, weights="wagg")
                rec.true("aggregated sample joins linked groups", not np.any((A != 0) & ~(c.linked() & ok)), short(A))
                S = np.zeros((c.M, c.M))
                np.add.at(S, np.ix_(c.groups, c.groups), A)
                if r != 1:
                    cover(rec, c, A)
                    rec.eq("aggregated weights add up to the group weight", S, c.G, rtol=1e-9)
                with np.errstate(all="ignore"):
                    for a in range(c.M):
                        for b in range(c.M):
                            sel = (A != 0) & np.outer(c.groups == a, c.groups == b)
                            if sel.any():
                                rr = (A / np.outer(c.x, c.y))[sel]
                                rec.eq("aggregated weights are proportional to strengths", rr, np.full(rr.shape, rr[0]), rtol=1e-7)
            so, si = c.x, c.y * (c.x.sum() / c.y.sum())
            with Stream(lambda k: 1e-12, expo=lambda s, k: s) as s:
                A, gr = sample_adj(m, weights="cremb", out_strength=so, in_strength=si)
            if s.ek:
                Pm = c.P()
                sel = c.linked() & ok
                with np.errstate(all="ignore"):
                    w = np.where(sel, np.outer(so, si) / (so.sum() * Pm), 0)
                rec.eq("conditional cremb weights", A, w, rtol=1e-7)
            # weights of edges found after refused draws, and strengths that are not the fitnesses
            for r in range(8):
                g = gen("csw", cid, r)
                so = np.round(g.uniform(0.2, 3, c.N), 2)
                si = so[::-1] * 1.0
                u = gen("csu", cid, r)
                with Stream(lambda k: u.uniform(), expo=lambda s, k: s) as s:
                    A, gr = sample_adj(m, weights="cremb", out_strength=so, in_strength=si)
                if s.ek:
                    sel = A != 0
                    with np.errstate(all="ignore"):
                        w = np.where(sel, np.outer(so, si) / (so.sum() * c.P()), 0)
                    rec.eq("conditional cremb weights of any sample", A, w, rtol=1e-7, detail=r)
                u = gen("csu", cid, r)
                with Stream(lambda k: u.uniform()):
                    A, gr = sample_adj(m, weights="wagg", out_strength=so, in_strength=si)
                S = np.zeros((c.M, c.M))
                np.add.at(S, np.ix_(c.groups, c.groups), A)
                rec.eq("aggregated weights with given strengths add up to the group weight", S, c.G, rtol=1e-9, detail=r)
                with np.errstate(all="ignore"):
                    for a in range(c.M):
                        for b in range(c.M):
                            sel = (A != 0) & np.outer(c.groups == a, c.groups == b)
                            if sel.any():
                                rr = (A / np.outer(so, si))[sel]
                                rec.eq("aggregated weights follow the given strengths", rr, np.full(rr.shape, rr[0]), rtol=1e-7)
            so, si = c.x, c.y * (c.x.sum() / c.y.sum())
            rec.raises("unequal totals are rejected", Exception,
                       lambda: m.sample(weights="cremb", out_strength=so, in_strength=si * 1.3))
        rec.run(cid + "/sample", sampling, c.desc())

        pairs = (c.linked() & (np.outer(c.x, c.y) > 0) & c.adm())
        if pairs.sum() <= (6 if rec.tier == "quick" else 9):
            def law(c=c, pairs=pairs):
                m = c.model()

                so, si = c.x, c.y * (c.x.sum() / c.y.sum())
                for kw in ({}, dict(weights="wagg"), dict(weights="cremb", out_strength=so, in_strength=si)):
                    def run(prefix, default):
                        with Stream(lambda k: prefix[k] if k < len(prefix) else default) as s:
                            A, gr = sample_adj(m, **kw)
                        return frozenset(map(tuple, np.argwhere(A != 0).tolist())), s.k
                    L = joint_law(run, None)
                    pp, gp = c.pair_p(), c.group_p()
                    ix = [tuple(t) for t in np.argwhere(pairs)]
                    tot = 0.0
                    for bits in itertools.product((0, 1), repeat=len(ix)):
                        e = frozenset(t for t, b in zip(ix, bits) if b)
                        p = 1.0
                        for t, b in zip(ix, bits):
                            p *= pp[t] if b else 1 - pp[t]
                        for a in range(c.M):
                            for b2 in range(c.M):
                                if c.G[a, b2]:
                                    p /= gp[a, b2]
                                    if not any(c.groups[i] == a and c.groups[j] == b2 for i, j in e):
                                        p = 0.0
                        rec.eq("probability of the sampled graph", L.get(e, 0.0), p, rtol=1e-6, atol=1e-8,
                               detail=str(sorted(e)))
            rec.run(cid + "/law", law, c.desc())


def extreme(rec):
    """Group products beyond the range of floats while the pair products stay inside it."""
    c = CCase([1e-155, 1e155], [1e-155, 1e155], [0, 0], [[1.0]], 1.0, True)

    def go():
        with np.errstate(all="ignore"):
            m = c.model()
            P = np.array([[0.0, -np.expm1(-1.0)], [-np.expm1(-1.0), 1.0]])
            rec.eq("conditional probabilities for infinite group products", m.expected_out_degree(), P.sum(1), rtol=1e-9)
            rec.eq("conditional in degrees for infinite group products", m.expected_in_degree(), P.sum(0), rtol=1e-9)
            rec.eq("conditional edges for infinite group products", m.expected_num_edges(), P.sum(), rtol=1e-9)
            f, jac = m.density_fit_fun(np.array([1.0]))
            rec.eq("conditional fit function for infinite group products", f, P.sum(), rtol=1e-9)
            rec.eq("conditional fit derivative for infinite group products", jac, 2 * np.exp(-1.0), rtol=1e-9)
    rec.run("extreme", go, c.desc())


def cover(rec, c, A):
    for a in range(c.M):
        for b in range(c.M):
            if c.G[a, b]:
                rec.true("every linked group pair receives an edge",
                         np.any((A != 0)[np.ix_(c.groups == a, c.groups == b)]), (a, b, short(A)))
