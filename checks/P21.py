import inspect

from checks.opt import *

ASSUMPTIONS = ["the pooling routine itself is decided under P22: here it answers with an arbitrary probability vector that meets the conditions it was given",
               "scenario variances are positive where a view divides by them"]
NAMES = ["a", "b", "c"]
OPS = {"==": "eq", ">=": "ge", ">": "ge", "<=": "le", "<": "le"}


class Pool:
    """Stands in for entropy_pooling; records the conditions of every call."""

    def __init__(self, h, S_, honest=False):
        self.h, self.S, self.calls, self.honest = h, S_, [], honest
        self.V = h.mod("views")
        self.real = getattr(self.V.entropy_pooling, "_real", self.V.entropy_pooling)
        sig = inspect.signature(self.real)

        def entropy_pooling(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            return self._call(b.arguments)
        entropy_pooling._real = self.real
        self.V.entropy_pooling = entropy_pooling

    def done(self):
        self.V.entropy_pooling = self.real

    def _call(self, k):
        h = self.h
        q = probs(h, self.S, name=f"q{len(self.calls)}_")
        c = dict(p=np.ravel(vals(k["p"])), A=k["A"], b=k["b"], G=k["G"], h=k["h"], q=q)
        self.calls.append(c)
        if self.honest:             # the answer meets the conditions
            if h.symbolic:
                h.assume(hold(h, self.rows(c, q)))
            else:
                h.assume(near_feasible(self.rows(c, q), 1e-7))
        return q.reshape(-1, 1)

    def rows(self, c, q):
        out = []
        for M, r, kind in ((c["A"], c["b"], "eq"), (c["G"], c["h"], "le")):
            if M is None:
                continue
            M, r = np.atleast_2d(vals(M)), np.ravel(vals(r))
            out += [(dot(M[i], q), r[i], kind) for i in range(M.shape[0])]
        return out


def hold(h, rows, tol=1e-9):
    return holds(rows) if h.symbolic else near_feasible(rows, tol)


def stated(op, x, t):
    k = OPS[op]
    return [(x, t, "eq")] if k == "eq" else [(x, t, "le")] if k == "le" else [(t, x, "le")]


def spec(h, form, tag, lo, hi):
    """A view in one of the accepted spellings; returns it with its [(op, target)]."""
    V = h.mod("views")
    t = h.real(tag, lo, hi)
    if form == "value":
        return t, [("==", t)]
    if form in OPS:
        return (form, t), [(form, t)]
    if form == "between":
        u = h.real(tag + "_hi", lo, hi)
        h.assume(t <= u)
        return ("between", t, u), [(">=", t), ("<=", u)]
    fn = {"at_least": ">=", "at_most": "<=", "above": ">", "below": "<"}
    if form in fn:
        return getattr(V, form)(t), [(fn[form], t)]
    if form == "range":
        u = h.real(tag + "_hi", lo, hi)
        h.assume(t <= u)
        return V.between(t, u), [(">=", t), ("<=", u)]
    if form == "list":
        return ["<=", t], [("<=", t)]
    raise AssertionError(form)


FORMS = ("value", "==", ">=", "<=", ">", "<", "between", "at_least", "at_most", "above", "below", "range", "list")


def data(h, T, N, pandas, weighted, fixed=False):
    R = h.const(np.array([[.5, -.25], [-.375, .125], [.25, .75], [-.125, -.5]])[:T, :N]) if fixed else h.reals("R", (T, N), -1, 1)
    p = probs(h, T, name="p0_") if weighted else None
    kw = dict(prior_risk_drivers=frame(R, columns=NAMES[:N]) if pandas else R)
    if weighted:
        kw["prior_probabilities"] = p
    return R, (p if weighted else probs(h, T, uniform=True)), kw, (NAMES[:N] if pandas else [str(i) for i in range(N)])


def mean(q, x):
    return dot(q, x)


def var(q, x):
    m = mean(q, x)
    return tot(a * (y - m) * (y - m) for a, y in zip(q, x))


def prior_var(h, p, x):
    v = var(p, x)
    h.assume(v > 0.01)
    return v


def slack(row):
    return row[0] - row[1]


def same(a, b):
    """The two conditions have, identically, the same slack (up to sign, for equalities)."""
    if a[2] != b[2]:
        return False
    d = slack(a) - slack(b)
    return sym._iszero(S.of(d).t) or a[2] == "eq" and sym._iszero(S.of(slack(a) + slack(b)).t)


def excess(rows, other, T):
    """Largest violation of `rows` by a distribution that meets `other` (concrete numbers)."""
    from scipy.optimize import linprog

    def flat(r):
        one = np.eye(T)
        f = np.array([slack(r(one[j])) for j in range(T)], dtype=float)
        return f
    G = [flat(r) for r, k in other if k == "le"] + [s_ * flat(r) for r, k in other if k == "eq" for s_ in (1, -1)]
    worst = 0.0
    for r, k in rows:
        c = flat(r)
        for s_ in ((1, -1) if k == "eq" else (1,)):
            res = linprog(-s_ * c, A_ub=np.array(G) if G else None, b_ub=np.zeros(len(G)) if G else None, A_eq=np.ones((1, T)), b_eq=[1.0], bounds=(0, None))
            if res.status == 0:
                worst = max(worst, float(s_ * c @ res.x) / max(1e-3, float(np.abs(c).max())))
    return worst


def agree(h, pool, c, docf, T, label="the conditions"):
    """The conditions of call c admit exactly the distributions that the stated views admit.

    Solver: the slack of every stated condition is the slack of one of the conditions given, for
    every vector (not only distributions), and nothing else is asked; where a condition is
    written differently, the two sets of distributions are compared instead.
    Replay: two linear programs look for a distribution in one set and not in the other."""
    if not h.symbolic:
        n, m = len(pool.rows(c, np.ones(T))), len(docf(np.ones(T)))
        kinds = lambda f, n: [(lambda q, i=i: f(q)[i], f(np.ones(T))[i][2]) for i in range(n)]
        got, doc = kinds(lambda q: pool.rows(c, q), n), kinds(docf, m)
        h.check(label + " imply the stated views", h.le(excess(doc, got, T), 0))
        h.check("the stated views imply " + label, h.le(excess(got, doc, T), 0))
        M = np.vstack([vals(c["A"])] + ([] if c["G"] is None else [vals(c["G"])])).astype(float)
        h.check("conditions are about probability vectors", np.linalg.matrix_rank(np.vstack([vals(c["A"]).astype(float), np.ones((1, T))]), tol=1e-9) == np.linalg.matrix_rank(vals(c["A"]).astype(float), tol=1e-9))
        return
    z = h.reals("z", T, -1, 1)
    got, doc = pool.rows(c, z), docf(z) + [(tot(z), 1, "eq")]
    left, pairs, odd = list(got), [], []
    for d in doc:
        i = next((i for i, g in enumerate(left) if same(g, d)), None)
        if i is None:
            odd.append(d)
        else:
            pairs.append((left.pop(i), d))
    for g, d in pairs:
        e = h.eq(slack(g), slack(d))
        h.check(label + " imply the stated views", e if sym._iszero(S.of(slack(g) - slack(d)).t) else h.eq(slack(g), -slack(d)))
    if odd or left:
        # each remaining condition against the stated one in its place: a difference is a candidate, confirmed on the real numbers
        for i, d in enumerate(odd):
            h.check(label + " imply the stated views", h.any(*[h.eq(slack(g), slack(d)) for g in left if g[2] == d[2]], *[h.eq(slack(g), -slack(d)) for g in left if g[2] == d[2] == "eq"]))
        for g in left:
            h.check("the stated views imply " + label, h.any(*[h.eq(slack(g), slack(d)) for d in odd if g[2] == d[2]], *[h.eq(slack(g), -slack(d)) for d in odd if g[2] == d[2] == "eq"]))


def moments(h, kind, key, R, q, m, v, ops):
    """Documented conditions of one view for the distribution q, centred at means m and variances v."""
    out = []
    i = key if not isinstance(key, tuple) else None
    for op, t in ops:
        if kind == "mean":
            x = mean(q, R[:, i]) if i is not None else mean(q, R[:, key[0]]) - mean(q, R[:, key[1]])
            out += stated(op, x, t)
        elif kind == "vol":
            out += stated(op, mean(q, R[:, i] ** 2) - m[i] * m[i], t * t)
        elif kind == "var":
            out += stated(op, mean(q, R[:, i] ** 2) - m[i] * m[i], t)
        elif kind == "skew":
            s = sq(h, v[i])
            out += stated(op, mean(q, R[:, i] ** 3) - 3 * m[i] * v[i] - m[i] * m[i] * m[i], t * s * s * s)
        elif kind == "corr":
            a, b = key
            out += stated(op, mean(q, R[:, a] * R[:, b]) - m[a] * m[b], t * sq(h, v[a]) * sq(h, v[b]))
        else:
            raise AssertionError(kind)
    return out


BOX = {"mean": (-1, 1), "vol": (Fraction(1, 20), 2), "var": (0, 2), "skew": (-3, 3), "corr": (-1, 1)}


def single(h, kind, form, key, T, N, pandas, weighted=True, sequential=False):
    """One view: its conditions are the stated ones around the prior moments."""
    V = h.mod("views")
    R, p, kw, names = data(h, T, N, pandas, weighted)
    view, ops = spec(h, form, "view", *BOX[kind])
    pool = Pool(h, T)
    idx = set(key) if isinstance(key, tuple) else {key}
    m = {i: mean(p, R[:, i]) for i in idx}
    v = {i: (prior_var(h, p, R[:, i]) if kind in ("skew", "corr") else None) for i in idx}
    k = tuple(names[i] for i in key) if isinstance(key, tuple) else names[key]
    try:
        F = V.FlexibleViewsProcessor(**kw, **{kind + "_views": {k: view}}, sequential=sequential)
    finally:
        pool.done()
    if len(pool.calls) != 1:
        raise sym.Unsupported("another pooling scheme")
    c = pool.calls[0]
    h.check("the prior is the one given", h.eq(c["p"], p))
    agree(h, pool, c, lambda q: moments(h, kind, key, R, q, m, v, ops), T)
    posterior(h, F, R, c["q"], names, pandas)


def posterior(h, F, R, q, names, pandas):
    """The posterior moments are those of the posterior probabilities."""
    h.check("the posterior probabilities are the pooled ones", h.eq(np.ravel(vals(F.get_posterior_probabilities())), q))
    mu, cov = F.get_posterior()
    if pandas:
        h.check("posterior moments carry the asset labels", list(mu.index) == names and list(cov.index) == names and list(cov.columns) == names)
    N = R.shape[1]
    m = [mean(q, R[:, i]) for i in range(N)]
    h.check("the posterior mean is the mean under the posterior", h.eq(vals(mu), arr(h, m)))
    h.check("the posterior covariance is the covariance under the posterior", h.eq(vals(cov), arr(h, [[tot(a * (x - m[i]) * (y - m[j]) for a, x, y in zip(q, R[:, i], R[:, j])) for j in range(N)] for i in range(N)])))


def vector(h, kind, T, N, pandas):
    """Views given as one number per asset."""
    V = h.mod("views")
    R, p, kw, names = data(h, T, N, pandas, True)
    t = h.reals("view", N, *BOX[kind])
    pool = Pool(h, T)
    m = {i: mean(p, R[:, i]) for i in range(N)}
    v = {i: (prior_var(h, p, R[:, i]) if kind == "skew" else None) for i in range(N)}
    try:
        V.FlexibleViewsProcessor(**kw, **{kind + "_views": t})
    finally:
        pool.done()
    if len(pool.calls) != 1:
        raise sym.Unsupported("another pooling scheme")
    agree(h, pool, pool.calls[0], lambda q: [r for i in range(N) for r in moments(h, kind, i, R, q, m, v, [("==", t[i])])], T)


def ranking(h, order, extra, T=3):
    V = h.mod("views")
    N = 3
    R, p, kw, names = data(h, T, N, True, True)
    mv, ops = {}, []
    if extra:           # a view on a pair of the ranking, in either direction
        t = h.real("view", -1, 1)
        key = (order[0], order[1]) if extra == "same" else (order[1], order[0]) if extra == "reverse" else order[0]
        mv = {(tuple(names[i] for i in key) if isinstance(key, tuple) else names[key]): ("<=", t)}
    pool = Pool(h, T)
    try:
        V.FlexibleViewsProcessor(**kw, mean_views=mv or None, rank_mean=[names[i] for i in order])
    finally:
        pool.done()
    if len(pool.calls) != 1:
        raise sym.Unsupported("another pooling scheme")

    def doc(q):
        M = [mean(q, R[:, i]) for i in range(N)]
        rows = [(M[b], M[a], "le") for a, b in zip(order, order[1:])]
        return rows + (moments(h, "mean", key, R, q, None, None, [("<=", t)]) if extra else [])
    agree(h, pool, pool.calls[0], doc, T)


def quantile(h, form, pandas, also=False, T=3, sequential=False):
    V = h.mod("views")
    N = 2
    R, p, kw, names = data(h, T, N, pandas, True)
    level = h.real("level", -1, 1)
    view, ops = spec(h, form, "prob", Fraction(1, 100), Fraction(99, 100))
    pool = Pool(h, T, honest=also)
    mv = dict(mean_views={names[1]: h.real("mv", -1, 1)}) if also else {}
    try:
        V.FlexibleViewsProcessor(**kw, **mv, quantile_views={names[1]: (level, view)}, sequential=sequential)
    finally:
        pool.done()
    if not pool.calls:
        raise sym.Unsupported("another pooling scheme")

    def doc(q):
        below = tot(ite(r <= level, 1, 0) * x if h.symbolic else (x if r <= level else 0.0) for x, r in zip(q, R[:, 1]))
        rows = [r for op, t in ops for r in stated(op, below, t)]
        return rows + (stated("==", mean(q, R[:, 1]), mv["mean_views"][names[1]]) if also and not sequential else [])
    agree(h, pool, pool.calls[-1], doc, T)


def together(h, kinds, T=3, N=2):
    """Several view kinds at once: all are stated in the last pooling, around the prior or stated means."""
    V = h.mod("views")
    R, p, kw, names = data(h, T, N, True, True, fixed="skew" in kinds)
    views, ops = {}, {}
    for k in kinds:
        key = (names[0], names[1]) if k == "corr" else names[0]
        s, o = spec(h, "value" if k == "mean" else ">=", "v_" + k, *BOX[k])
        views[k + "_views"] = {key: s}
        ops[k] = ((0, 1) if k == "corr" else 0, o)
    pool = Pool(h, T, honest=True)
    if "skew" in kinds or "corr" in kinds:
        for i in range(N):
            prior_var(h, p, R[:, i])
            if "mean" in kinds:
                h.assume(var(probs(h, T, name="q0_"), R[:, i]) > 0.01)
    try:
        V.FlexibleViewsProcessor(**kw, **views)
    finally:
        pool.done()
    n = 2 if "mean" in kinds and len(kinds) > 1 else 1
    if len(pool.calls) != n:
        raise sym.Unsupported("another pooling scheme")
    base = p
    if n == 2:
        a = pool.calls[0]
        h.check("the prior is the one given", h.eq(a["p"], p))
        agree(h, pool, a, lambda q: moments(h, "mean", 0, R, q, None, None, ops["mean"][1]), T, "the mean conditions")
        base = a["q"]
    c = pool.calls[-1]
    h.check("the prior is the one given", h.eq(c["p"], p))
    m = {i: mean(base, R[:, i]) for i in range(N)}
    if n == 2 and not h.symbolic:
        m[0] = ops["mean"][1][0][1]
    v = {i: (var(base, R[:, i]) if "skew" in kinds or "corr" in kinds else None) for i in range(N)}
    agree(h, pool, c, lambda q: [r for k in kinds for r in moments(h, k, ops[k][0], R, q, m, v, ops[k][1])], T)


def stepwise(h, kinds, T=3, N=2):
    """Sequential views: each block is stated around, and pooled from, the posterior of the one before."""
    V = h.mod("views")
    R, p, kw, names = data(h, T, N, True, True, fixed="skew" in kinds)
    views, ops = {}, {}
    for k in kinds:
        key = (names[0], names[1]) if k == "corr" else names[0]
        s, o = spec(h, "<=", "v_" + k, *BOX[k])
        views[k + "_views"] = {key: s}
        ops[k] = ((0, 1) if k == "corr" else 0, o)
    pool = Pool(h, T)
    if "skew" in kinds or "corr" in kinds:
        for j in range(len(kinds)):
            for i in range(N):
                h.assume(var(p if j == 0 else probs(h, T, name=f"q{j - 1}_"), R[:, i]) > 0.01)
    try:
        F = V.FlexibleViewsProcessor(**kw, **views, sequential=True)
    finally:
        pool.done()
    if len(pool.calls) != len(kinds):
        raise sym.Unsupported("another pooling scheme")
    base = p
    for k, c in zip([k for k in ("mean", "vol", "var", "skew", "corr") if k in kinds], pool.calls):
        h.check("each block starts from the posterior of the one before", h.eq(c["p"], base))
        m = {i: mean(base, R[:, i]) for i in range(N)}
        v = {i: (var(base, R[:, i]) if k in ("skew", "corr") else None) for i in range(N)}
        agree(h, pool, c, lambda q: moments(h, k, ops[k][0], R, q, m, v, ops[k][1]), T, f"the {k} conditions")
        base = c["q"]
    posterior(h, F, R, base, names, True)


def nothing(h, T, N, pandas):
    """Without views the posterior is the prior and nothing is pooled."""
    V = h.mod("views")
    R, p, kw, names = data(h, T, N, pandas, True)
    pool = Pool(h, T)
    try:
        for v in ({}, dict(mean_views={}), dict(mean_views={}, vol_views={}, corr_views={}, sequential=True)):
            F = V.FlexibleViewsProcessor(**kw, **v)
            posterior(h, F, R, p, names, pandas)
    finally:
        pool.done()


def refusals(h):
    V = h.mod("views")
    R, p, kw, names = data(h, 3, 2, True, True)
    pool = Pool(h, 3)
    neg, big = h.real("neg", -2, 0), h.real("big", Fraction(101, 100), 3)
    bad = [dict(vol_views={"a": neg}), dict(var_views={"a": neg - 0.01}), dict(corr_views={("a", "b"): big}), dict(corr_views={("a", "b"): -big}),
           dict(mean_views={"zz": 0.0}), dict(mean_views={("a", "zz"): 0.0}), dict(vol_views={"zz": 0.1}), dict(corr_views={("a", "zz"): 0.1}), dict(skew_views={"zz": 0.1}),
           dict(quantile_views={"zz": (0.0, 0.5)}), dict(quantile_views={"a": (0.0, big)}), dict(quantile_views={"a": (0.0, neg)}), dict(quantile_views={"a": 0.5}),
           dict(mean_views={"a": float("nan")}), dict(mean_views={"a": (">=", float("inf"))}), dict(mean_views={"a": ("between", big, neg)}),
           dict(mean_views=[0.1]), dict(rank_mean=["a"]), dict(rank_mean=["a", "zz"])]
    try:
        for b in bad:
            h.check("a view that cannot be meant is refused: " + next(iter(b)), raises(lambda: V.FlexibleViewsProcessor(**kw, **b), (ValueError, TypeError, KeyError)) is not None)
    finally:
        pool.done()
    for f in (V.at_least, V.at_most, V.above, V.below):
        for x in (float("nan"), float("inf"), -float("inf")):
            h.check("a view target must be a number", raises(lambda: f(x), ValueError) is not None)
    h.check("an empty range is refused", raises(lambda: V.between(big, neg), ValueError) is not None)


def cases(tier):
    th = tier == "thorough"
    J = 60
    T = 4 if th else 3
    cs = []
    for kind in ("mean", "vol", "var", "skew", "corr"):
        for form in FORMS:
            for pandas in (True, False):
                if not pandas and form not in ("value", ">=") and not th:
                    continue
                key = (2, 0) if kind == "corr" else 1
                cs.append(Case(f"{kind} {form}{'' if pandas else ' arrays'}", single, dict(kind=kind, form=form, key=key, T=T, N=3 if kind in ("mean", "corr") else 2, pandas=pandas), f"T={T}", jitter=J))
        cs.append(Case(f"{kind} sequential", single, dict(kind=kind, form="<=", key=(0, 1) if kind == "corr" else 0, T=3, N=2, pandas=True, sequential=True), "T=3, N=2", jitter=J))
        cs.append(Case(f"{kind} uniform", single, dict(kind=kind, form=">=", key=(0, 1) if kind == "corr" else 0, T=3, N=2, pandas=True, weighted=False), "T=3, N=2", jitter=J))
        if kind != "corr":
            cs.append(Case(f"{kind} one asset", single, dict(kind=kind, form=">=", key=0, T=3, N=1, pandas=False), "T=3, N=1", jitter=J))
            for pandas in (True, False):
                cs.append(Case(f"{kind} vector{'' if pandas else ' arrays'}", vector, dict(kind=kind, T=3, N=2, pandas=pandas), "T=3, N=2", jitter=J))
    for form in ("value", ">=", "<=", ">", "<", "between", "at_least", "below"):
        cs.append(Case(f"relative mean {form}", single, dict(kind="mean", form=form, key=(2, 0), T=T, N=3, pandas=True), f"T={T}, N=3", jitter=J))
    for order in ([0, 1], [1, 0], [2, 0, 1], [1, 2]):
        for extra in (None, "same", "reverse", "single"):
            if extra and len(order) == 2 and order != [1, 0]:
                continue
            cs.append(Case(f"rank {''.join(map(str, order))}{' with a ' + extra + ' view' if extra else ''}", ranking, dict(order=order, extra=extra), "T=3, N=3", jitter=J))
    for form in FORMS:
        cs.append(Case(f"quantile {form}", quantile, dict(form=form, pandas=form != ">="), "T=3, N=2", jitter=J))
    for seq in (False, True):
        cs.append(Case(f"quantile with mean{' sequential' if seq else ''}", quantile, dict(form="<=", pandas=True, also=True, sequential=seq), "T=3, N=2", jitter=J))
    for ks in (("mean", "vol"), ("mean", "var"), ("mean", "skew"), ("mean", "corr"), ("vol", "corr"), ("vol", "skew"), ("var", "corr"), ("mean", "vol", "corr")):
        cs.append(Case("together " + "+".join(ks), together, dict(kinds=ks), "T=3, N=2", jitter=J))
        cs.append(Case("stepwise " + "+".join(ks), stepwise, dict(kinds=ks), "T=3, N=2", jitter=J))
    for pandas in (True, False):
        for N in (1, 2):
            cs.append(Case(f"no views N={N}{'' if pandas else ' arrays'}", nothing, dict(T=3, N=N, pandas=pandas), "T=3"))
    cs.append(Case("refusals", refusals, {}, "T=3, N=2"))
    return cs
