import itertools

from checks.common import *

ASSUMPTIONS = ["labels are distinct strings", "an unlabelled (or range-indexed) vector is positional by contract"]
L3 = ["a", "b", "c"]


def perm(h, names, tag="perm"):
    """An arbitrary reordering of names (forks over all of them)."""
    return [names[i] for i in h.choose(tag, [list(p) for p in itertools.permutations(range(len(names)))])]


def ser(values, names, order, name=None):
    return pd.Series([values[names.index(k)] for k in order], index=list(order), name=name, dtype=object if any(isinstance(v, S) for v in values) else float)


def same(h, a, b):
    if isinstance(a, (pd.Series, pd.DataFrame)) and isinstance(b, (pd.Series, pd.DataFrame)):
        if isinstance(a, pd.Series):
            return h.all(list(a.index) == list(b.index), h.eq(vals(a), vals(b)))
        return h.all(list(a.index) == list(b.index), list(a.columns) == list(b.columns), h.eq(vals(a), vals(b)))
    return h.eq(vals(a), vals(b))


def wrong_labels(h, call, names, exc=(ValueError, KeyError)):
    """call(labels) must raise for every label list that misses a needed label."""
    for bad in (names[:-1] + ["zz"], ["zz"] + names[1:], [n.upper() for n in names]):
        h.check("a required label that is missing is rejected", raises(lambda: call(bad), exc) is not None)


# ---------------------------------------------------------------- P&L
def pnl(h, N, kind):
    F = h.mod("utils.performance")
    names = L3[:N]
    T = 2
    R = h.reals("R", (T, N), -2, 2)
    w = h.reals("w", N, -2, 2)
    order = perm(h, names)
    sc = frame(R, columns=names)
    want = [dot(R[t], w) for t in range(T)]
    if kind == "series":
        out = F.scenario_pnl(ser(w, names, order), sc)
    elif kind == "dict":
        out = F.scenario_pnl({k: w[names.index(k)] for k in order}, sc)
    elif kind == "frame":
        v = h.reals("v", N, -2, 2)
        W = frame(np.array([[w[names.index(k)], v[names.index(k)]] for k in order], dtype=object if h.symbolic else float), index=order, columns=["x", "y"])
        out = F.scenario_pnl(W, sc)
        h.check("second portfolio matched by label", h.eq(vals(out)[:, 1], arr(h, [dot(R[t], v) for t in range(T)])))
        out = vals(out)[:, 0]
    h.check("P&L uses each asset's own weight", h.eq(vals(out), arr(h, want)))
    # reordering the scenario columns instead
    sc2 = frame(np.column_stack([R[:, names.index(k)] for k in order]), columns=order)
    if kind == "series":
        h.check("reordering scenario columns changes nothing", h.eq(vals(F.scenario_pnl(ser(w, names, names), sc2)), arr(h, want)))
    wrong_labels(h, lambda lab: F.scenario_pnl(pd.Series(list(w), index=lab) if kind == "series" else dict(zip(lab, w)) if kind == "dict" else pd.DataFrame({"x": list(w)}, index=lab), sc), names)


def report(h, N, kind):
    F = h.mod("utils.performance")
    names = L3[:N]
    R = h.reals("R", (2, N), -2, 2)
    w = h.reals("w", N, -2, 2)
    order = perm(h, names)
    sc = frame(R, columns=names)
    base = F.performance_report(w, R, confidence=0.6)
    mk = (lambda v, lab: pd.Series(list(v), index=lab)) if kind == "series" else (lambda v, lab: pd.DataFrame({"x": list(v)}, index=lab))
    out = F.performance_report(mk(ser(w, names, order), order), sc, confidence=0.6)
    h.check("report matches weights by label", same(h, base, out))
    wrong_labels(h, lambda lab: F.performance_report(mk(w, lab), sc, confidence=0.6), names)


def drawdown(h, N):
    F = h.mod("utils.performance")
    names = L3[:N]
    R = h.reals("R", (2, N), -0.3, 0.3)
    w = h.reals("w", N, -1, 1)
    order = perm(h, names)
    h.rng(lambda seed: Rng(h, script=lambda k, ix: sum(ix) % 2))
    ident = lambda y: y
    base = F.drawdown_quantile(w, R, 2, n_paths=1, reprice=ident, seed=1)
    out = F.drawdown_quantile(ser(w, names, order), frame(R, columns=names), 2, n_paths=1, reprice=ident, seed=1)
    h.check("drawdowns match weights by label", same(h, base, out))
    wrong_labels(h, lambda lab: F.drawdown_quantile(pd.Series(list(w), index=lab), frame(R, columns=names), 2, n_paths=1, reprice=ident, seed=1), names)
    rep = F.horizon_report(ser(w, names, order), frame(R, columns=names), horizons=(1,), n_simulations=2, reprice=ident, confidence=0.6, seed=1)
    rep0 = F.horizon_report(w, R, horizons=(1,), n_simulations=2, reprice=ident, confidence=0.6, seed=1)
    h.check("horizon report matches weights by label", same(h, rep0, rep))


# ---------------------------------------------------------------- stress
def stress(h, N, kind):
    F = h.mod("stress")
    names = L3[:N]
    R = h.reals("R", (2, N), -2, 2)
    w = h.reals("w", N, -2, 2)
    v = h.reals("v", N, -2, 2) if kind == "frame" else None
    order = perm(h, names)
    sc = frame(R, columns=names)

    def mk(lab, val, val2=None):
        if kind == "series":
            return pd.Series(list(val), index=lab)
        if kind == "map":
            return dict(zip(lab, val))
        return pd.DataFrame(np.column_stack([list(val), list(val2)]), index=lab, columns=["x", "y"])
    pick = lambda x: [x[names.index(k)] for k in order]
    base = F.stress_test(w if v is None else np.column_stack([w, v]), R, confidence=0.6, transform=lambda x: x)
    out = F.stress_test(mk(order, pick(w), None if v is None else pick(v)), sc, confidence=0.6, transform=lambda x: x)
    h.check("stress test matches weights by label", h.eq(vals(base), vals(out)))
    wrong_labels(h, lambda lab: F.stress_test(mk(lab, w, w if v is None else v), sc, confidence=0.6), names)
    h.check("extra labels are rejected", raises(lambda: F.stress_test(mk(order + ["zz"], pick(w) + [w[0]], None if v is None else pick(v) + [v[0]]), sc, confidence=0.6), ValueError) is not None)


def stress_inv(h, views):
    F = h.mod("stress")
    names = ["a", "b"]
    R = h.reals("R", (2, 2), -1, 1)
    w = h.reals("w", 2, -1, 1)
    order = perm(h, names)
    h.rng(lambda seed: Rng(h, script=lambda k, ix: sum(ix) % 2))
    from types import SimpleNamespace
    h.stub("minimize", lambda f, x0, *a, **k: SimpleNamespace(x=np.asarray(x0, dtype=object) * 0, success=True, status=0, message="", fun=0))
    kw = dict(horizon=1, n_simulations=2, seed=1, confidence=0.6)
    if views:
        m = (R[0, 0] + R[1, 0]) / 2
        kw["stress_views"] = {"a": m}
    inv = frame(R, columns=names)
    ident = lambda y: y
    base = F.stress_invariants(inv, ser(w, names, names), ident, **kw)
    want = F.stress_invariants(inv, np.array(list(w), dtype=object if h.symbolic else float), ident, **kw)
    out = F.stress_invariants(inv, ser(w, names, order), ident, **kw)
    h.check("invariant stress matches weights by label", h.all(h.eq(vals(base), vals(out)), h.eq(vals(base), vals(want))))
    d = {"I2": (["a"], lambda x: x * 2), "I1": (["b"], lambda x: x)}
    x = F.stress_invariants(inv, pd.Series([w[0], w[1]], index=["I2", "I1"]), d, **kw)
    y = F.stress_invariants(inv, pd.Series([w[1], w[0]], index=["I1", "I2"]), d, **kw)
    h.check("invariant stress matches weights by instrument label", h.eq(vals(x), vals(y)))
    h.check("unknown instruments are rejected", raises(lambda: F.stress_invariants(inv, pd.Series([w[0], w[1]], index=["I2", "zz"]), d, **kw), ValueError) is not None)


# ---------------------------------------------------------------- sample weights
def sample_weights(h, N):
    U = h.mod("utils.weights")
    E = h.mod("ensembles")
    names = L3[:N]
    w = h.reals("w", N, 0, 2)
    h.assume(tot(w) >= 0.1)
    order = perm(h, names)
    out = U.normalize_weights(ser(w, names, order), N, names)
    h.check("sample weights are matched by sample label", h.all(*[h.eq(out[i] * tot(w), w[i]) for i in range(N)]))
    X = h.reals("X", (2, N), -1, 1)
    df = frame(X, index=["A", "B"], columns=names)
    av = E.average_exposures(df, ser(w, names, order))
    h.check("averaging matches sample weights by label", h.all(list(av.index) == ["A", "B"], *[h.eq(av.iloc[i] * tot(w), dot(X[i], w)) for i in range(2)]))
    h.check("sample weights missing a sample are rejected", raises(lambda: E.average_exposures(df, pd.Series(list(w), index=names[:-1] + ["zz"])), ValueError) is not None)
    h.check("sample weights missing a sample are rejected", raises(lambda: U.normalize_weights(pd.Series(list(w)[:-1], index=names[:-1]), N, names), ValueError) is not None)


def portfolios_mismatch(h):
    """Portfolios with different asset orders must not be blended by position."""
    E = h.mod("ensembles")
    P = h.mod("portfolioapi")
    x, y = h.reals("x", 2, 0, 1), h.reals("y", 2, 0, 1)
    a, b = pd.Series(list(x), index=["A", "B"]), pd.Series(list(y), index=["B", "A"])
    fr = lambda v, n: P.PortfolioFrontier(weights=np.array([[v[0]], [v[1]]], dtype=object if h.symbolic else float), returns=arr(h, [v[0]]), risks=arr(h, [1.0 if not h.symbolic else S(1)]), risk_measure="r", asset_names=n)
    box = []
    e = raises(lambda: box.append(E.average_frontiers([fr(x, ["A", "B"]), fr(y, ["B", "A"])])), ValueError)
    if e is None:
        h.check("frontiers in different asset order are matched by label or rejected", h.all(h.eq(box[0]["A"] * 2, x[0] + y[1]), h.eq(box[0]["B"] * 2, x[1] + y[0])))
    else:
        h.check("frontiers in different asset order are matched by label or rejected", True)
    h.check("frontiers over different assets are rejected", raises(lambda: E.average_frontiers([fr(x, ["A", "B"]), fr(y, ["A", "C"])]), ValueError) is not None)
    m = []
    e = raises(lambda: m.append(E._collect_samples([a, b])), ValueError)
    h.check("portfolios in different asset order are matched by label or rejected", True if e is not None else h.eq(vals(m[0][0])[:, 1], arr(h, [y[1], y[0]])))


def scen_probs(h):
    tame(h)
    E = h.mod("ensembles")
    names = ["t1", "t2", "t3"]
    R = h.reals("R", (3, 1), -1, 1)
    q = probs(h, 3, "q")
    order = perm(h, names)
    kw = dict(preprocess=None, projection=None, distribution=None, distribution_factory=None, use_scenarios=True, mean_estimator="sample", cov_estimator="sample", mean_kwargs={}, cov_kwargs={})
    sc = frame(R, index=names, columns=["a"])
    d = E._build_distribution(returns=sc, probabilities=ser(q, names, order), **kw)
    h.check("ensemble scenario probabilities are matched by scenario label", h.all(*[h.eq(vals(d.probabilities)[i] * tot(q), q[i]) for i in range(3)]))
    h.check("missing scenario labels are rejected", raises(lambda: E._build_distribution(returns=sc, probabilities=pd.Series(list(q), index=["t1", "t2", "zz"]), **kw), ValueError) is not None)
    kw["use_scenarios"] = False
    d = E._build_distribution(returns=sc, probabilities=ser(q, names, order), **kw)
    h.check("ensemble moments use each scenario's own probability", h.eq(vals(d.mu)[0] * tot(q), dot(q, R[:, 0])))


# ---------------------------------------------------------------- discrete allocation
def discrete(h, N, use):
    D = h.mod("discrete_allocation")
    names = L3[:N]
    w = h.reals("w", N, 0.1, 1)
    p = h.reals("p", N, 0.5, 5)
    o1, o2 = perm(h, names, "p1"), perm(h, names, "p2")
    lots = [1, 2, 3][:N]
    ls = {k: lots[names.index(k)] for k in o2}
    pr = ser(p, names, o1) if use == "series" else {k: p[names.index(k)] for k in o1}
    lot = pd.Series(ls) if use == "series" else ls
    x = D.DiscreteAllocationInput(ser(w, names, names), pr, 10, lot)
    h.check("prices are matched by label", h.all(list(x.latest_prices.index) == names, h.eq(vals(x.latest_prices), p)))
    h.check("lot sizes are matched by label", [int(v) for v in x.lot_sizes] == lots)
    h.check("target weights keep their label", h.all(list(x.weights.index) == names, *[h.eq(x.weights.iloc[i] * tot(w), w[i]) for i in range(N)]))
    x = D.DiscreteAllocationInput(ser(w, names, o1), dict(zip(names, p)), 10, dict(zip(names, lots)))
    h.check("reordering the weights changes nothing", h.all(*[h.all(h.eq(x.weights[k] * tot(w), w[names.index(k)]), h.eq(x.latest_prices[k], p[names.index(k)]), int(x.lot_sizes[k]) == lots[names.index(k)]) for k in names]))
    extra = dict(zip(o1, [p[names.index(k)] for k in o1]))
    extra = {"zz": 7.0, **extra, "yy": 9.0}
    x = D.DiscreteAllocationInput(ser(w, names, names), extra, 10)
    h.check("prices of other assets are ignored", h.all(list(x.latest_prices.index) == names, h.eq(vals(x.latest_prices), p)))
    h.check("default lot size is one", all(int(v) == 1 for v in x.lot_sizes))
    wrong_labels(h, lambda lab: D.DiscreteAllocationInput(ser(w, names, names), dict(zip(lab, p)), 10), names)


def discrete_alloc(h):
    """End to end through the frontier wrapper."""
    P = h.mod("portfolioapi")
    w = h.real("w", 0.05, 0.95)
    W = arr(h, [[w], [1 - w]])
    f = P.PortfolioFrontier(weights=W, returns=arr(h, [w]), risks=arr(h, [w]), risk_measure="r", asset_names=["b", "a"])
    one = f.as_discrete_allocation(0, {"b": 1.0, "a": 3.0}, 10.0, fallback_mode="none", lot_sizes={"b": 1, "a": 2})
    two = f.as_discrete_allocation(0, pd.Series({"a": 3.0, "b": 1.0}), 10.0, fallback_mode="none", lot_sizes=pd.Series({"a": 2, "b": 1}))
    h.check("reordered prices and lots give the same allocation", h.all(one.shares.keys() == two.shares.keys(), *[h.eq(one.shares[k], two.shares[k]) for k in one.shares], h.eq(one.leftover_cash, two.leftover_cash)))
    tb = 10 * w
    h.check("shares are bought at their own asset's price", h.all(h.le(one.shares.get("b", 0) - 0, tb + 1 + 1e-6), h.le(tb - 1, one.shares.get("b", 0) + 1e-6)))


# ---------------------------------------------------------------- trading costs
def costs(h, where):
    P = h.mod("portfolioapi")
    names = L3
    mu = h.reals("mu", 3, -1, 1)
    iw, mic, pc = h.reals("iw", 3, -1, 1), h.reals("mic", 3, 0, 1), h.reals("pc", 3, 0, 1)
    o = [perm(h, names)] * 3
    cov = pd.DataFrame(np.eye(3), index=names, columns=names)
    tc = P.TransactionCosts(ser(iw, names, o[0]), ser(mic, names, o[1]), ser(pc, names, o[2]))
    dist = P.AssetsDistribution(mu=ser(mu, names, names), cov=cov)
    if where == "instance":
        W = P.PortfolioWrapper(dist, costs=tc)
        r = W._resolve_constraints(None, None)
    else:
        W = P.PortfolioWrapper(dist)
        r = W._resolve_constraints(None, tc)
    h.check("initial weights are matched by label", h.eq(vals(r[4]), iw))
    h.check("market impact costs are matched by label", h.eq(vals(r[5]), mic))
    h.check("proportional costs are matched by label", h.eq(vals(r[6]), pc))
    for bad in ({"initial_weights": pd.Series(list(iw), index=["a", "b", "zz"])},
                {"initial_weights": iw, "market_impact_costs": pd.Series(list(mic), index=["a", "b", "zz"])},
                {"initial_weights": iw, "proportional_costs": pd.Series(list(pc), index=["a", "b", "zz"])}):
        def go():
            t = P.TransactionCosts(**bad)
            P.PortfolioWrapper(dist, costs=t) if where == "instance" else P.PortfolioWrapper(dist)._resolve_constraints(None, t)
        h.check("mismatched cost labels are rejected", raises(go, (ValueError, KeyError)) is not None)


def short_labels(h, what):
    """A labelled input that leaves an asset out, or names one twice, is rejected."""
    tame(h)
    P, V, B_ = h.mod("portfolioapi"), h.mod("views"), h.mod("bayesian")
    x = h.reals("x", 4, 0.1, 1)
    cov = pd.DataFrame(np.array([[4.0, 1.0, 0.5], [1.0, 3.0, 0.25], [0.5, 0.25, 2.0]]), index=L3, columns=L3)
    dist = P.AssetsDistribution(mu=pd.Series([0.1, 0.2, 0.3], index=L3), cov=cov)
    full = ser(x[:3], L3, L3)
    if what in ("initial_weights", "market_impact_costs", "proportional_costs"):
        def use(s):
            t = P.TransactionCosts(**{"initial_weights": full, what: s})
            return P.PortfolioWrapper(dist)._resolve_constraints(None, t) if where else P.PortfolioWrapper(dist, costs=t)
    elif what == "sample_mu":
        def use(s):
            return B_.NIWPosterior(prior_mu=pd.Series([0.1, 0.2, 0.3], index=L3), prior_sigma=cov, t0=3, nu0=5).update(sample_mu=s, sample_sigma=cov, n_obs=4)
        if h.symbolic:
            h.stub("cholesky", lambda a, **k: a)
    else:
        def use(s):
            return V.BlackLittermanProcessor(prior_cov=cov, mean_views={"b": 0.1}, view_confidences={"b": 0.5}, **{what: s})
    for where in (0, 1) if "weights" in what or "costs" in what else (0,):
        for lab in (["a", "b"], ["c"], ["b", "a"], ["a", "b", "b"], ["a", "b", "c", "c"], ["a", "c", "zz"]):
            h.check("a labelled input that misses an asset is rejected", raises(lambda: use(pd.Series(list(x[:len(lab)]), index=lab)), (ValueError, KeyError)) is not None)
        for lab in (["a", "b", "c"], ["c", "a", "b"]):
            h.check("a labelled input that names every asset is accepted", raises(lambda: use(pd.Series(list(x[:3]), index=lab)), Exception) is None)


def dist_labels(h):
    tame(h)
    P = h.mod("portfolioapi")
    mu = h.reals("mu", 2, -1, 1)
    c = h.real("c", -0.5, 0.5)
    C_ = arr(h, [[2.0 + 0 * c, c], [c, 1.0 + 0 * c]])
    R = h.reals("R", (2, 2), -1, 1)
    for who in ("dist", "wrapper"):
        mk = (lambda m, s: P.AssetsDistribution(mu=m, cov=s)) if who == "dist" else (lambda m, s: P.PortfolioWrapper.from_moments(m, s).dist)
        box = []
        e = raises(lambda: box.append(mk(pd.Series(list(mu), index=["a", "b"]), pd.DataFrame(C_[::-1, ::-1], index=["b", "a"], columns=["b", "a"]))), ValueError)
        if e is None:
            d = box[0]
            i = list(d.asset_names).index("a")
            h.check("moments in different label order are matched or rejected", h.all(h.eq(d.mu[i], mu[0]), h.eq(d.cov[i, i], 2.0)))
        else:
            h.check("moments in different label order are matched or rejected", True)
        for m, s in ((pd.Series(list(mu), index=["a", "z"]), pd.DataFrame(C_, index=["a", "b"], columns=["a", "b"])),):
            h.check("moments over different assets are rejected", raises(lambda: mk(m, s), ValueError) is not None)
    h.check("covariance with rows and columns in different order is rejected", raises(lambda: P.AssetsDistribution(mu=pd.Series(list(mu), index=["a", "b"]), cov=pd.DataFrame(C_, index=["a", "b"], columns=["b", "a"])), ValueError) is not None)
    h.check("scenarios over other assets are rejected", raises(lambda: P.AssetsDistribution(mu=pd.Series(list(mu), index=["a", "b"]), cov=C_, scenarios=frame(R, columns=["b", "a"])), ValueError) is not None)
    h.check("asset names that disagree are rejected", raises(lambda: P.AssetsDistribution(mu=pd.Series(list(mu), index=["a", "b"]), cov=C_, asset_names=["b", "a"]), ValueError) is not None)


def moment_labels(h):
    M = h.mod("moments")
    mu = h.reals("mu", 2, -1, 1)
    S_ = pd.DataFrame([[2.0, 0.5], [0.5, 1.0]], index=["a", "b"], columns=["a", "b"])
    for f, k in ((M.shrink_mean_jorion, dict(T=10)), (M.shrink_mean_james_stein, dict(T=10))):
        m3 = pd.Series(list(mu), index=["b", "a"])
        e = raises(lambda: f(m3, S_, **k), Exception)
        h.check("a mean and covariance in different label order are rejected", isinstance(e, ValueError))


# ---------------------------------------------------------------- views
def bl(h, which):
    V = h.mod("views")
    names = L3
    o = perm(h, names)
    cov = pd.DataFrame(np.array([[4.0, 1.0, 0.5], [1.0, 3.0, 0.25], [0.5, 0.25, 2.0]]), index=names, columns=names)
    x = h.reals("x", 3, 0.1, 1)
    q = h.real("q", -1, 1)
    kw = dict(prior_cov=cov, mean_views={"b": q}, view_confidences={"b": 0.5})
    if which == "pi":
        f = lambda s: V.BlackLittermanProcessor(pi=s, **kw)
    elif which == "market_weights":
        f = lambda s: V.BlackLittermanProcessor(market_weights=s, risk_aversion=2.0, **kw)
    elif which == "prior_mean":
        f = lambda s: V.BlackLittermanProcessor(prior_mean=s, **kw)
    elif which == "views":
        kw2 = dict(kw, mean_views=None, view_confidences=0.5)
        f = lambda s: V.BlackLittermanProcessor(**dict(kw2, pi=np.array([0.1, 0.2, 0.3]), mean_views=s))
    m1, s1 = f(ser(x, names, names)).get_posterior()
    m2, s2 = f(ser(x, names, o)).get_posterior()
    h.check("posterior mean does not depend on the order of labels", same(h, m1, m2))
    h.check("posterior covariance does not depend on the order of labels", same(h, s1, s2))
    wrong_labels(h, lambda lab: f(pd.Series(list(x), index=lab)), names)


def flex(h, which):
    V = h.mod("views")
    names = L3
    o = perm(h, names)
    Sg = np.array([[4.0, 1.0, 0.5], [1.0, 3.0, 0.25], [0.5, 0.25, 2.0]])
    x = h.reals("x", 3, -1, 1)
    if which == "prior_mean":
        got = []
        fn = lambda mu, cov, n, rng: (got.append((mu, cov)), h.const(np.vstack([np.zeros(3), np.ones(3)])))[1]
        cov = pd.DataFrame(Sg, index=names, columns=names)
        V.FlexibleViewsProcessor(prior_mean=ser(x, names, o), prior_cov=cov, distribution_fn=fn, num_scenarios=2)
        m = np.ravel(vals(got[0][0]))
        c = vals(got[0][1])
        k = names if h.symbolic else names
        # the order used must be one common order of both
        ok = [h.all(*[h.eq(m[i], x[names.index(p[i])]) for i in range(3)], *[h.le(abs(c[i, i] - Sg[names.index(p[i]), names.index(p[i])]), 1e-4) for i in range(3)]) for p in (names, o)]
        h.check("prior mean and covariance are matched by label", h.any(*ok))
        wrong_labels(h, lambda lab: V.FlexibleViewsProcessor(prior_mean=pd.Series(list(x), index=lab), prior_cov=cov, distribution_fn=fn, num_scenarios=2), names)
    else:
        R = h.const(np.array([[0.1, -0.2, 0.4], [0.3, 0.2, -0.1], [-0.2, 0.5, 0.3], [0.2, 0.1, 0.2], [0.0, -0.3, 0.1]]))
        prob = []

        def go(s):
            prob.clear()
            from types import SimpleNamespace
            V0 = h.mod("views")
            old = V0.entropy_pooling

            def cap(p, A, b, *a, **k):
                prob.append((np.asarray(A, dtype=object), np.asarray(b, dtype=object), a, k))
                return p
            V0.entropy_pooling = cap
            try:
                V.FlexibleViewsProcessor(prior_risk_drivers=frame(R, columns=names), mean_views=s)
            finally:
                V0.entropy_pooling = old
            return prob[0]
        A1, b1, *_ = go(ser(x, names, names))
        A2, b2, *_ = go(ser(x, names, o))
        # rows may come in either order: match them as sets of (row, rhs)
        rows = lambda A, b: [list(A[i]) + [np.ravel(b)[i]] for i in range(A.shape[0])]
        r1, r2 = rows(A1, b1), rows(A2, b2)
        h.check("vector views are matched by label", h.all(len(r1) == len(r2), *[h.any(*[h.eq(np.array(u, dtype=object), np.array(v, dtype=object)) for v in r2]) for u in r1]))


def cases(tier):
    cs = []
    for k in ("series", "dict", "frame"):
        cs.append(Case(f"pnl {k}", pnl, dict(N=3, kind=k), "N=3, T=2, every permutation"))
    for k in ("series", "frame"):
        cs.append(Case(f"report {k}", report, dict(N=2 if tier == "quick" else 3, kind=k), "N=2 (3 thorough), T=2"))
    cs.append(Case("drawdown", drawdown, dict(N=2), "N=2, horizon 2"))
    for k in ("series", "map", "frame"):
        cs.append(Case(f"stress {k}", stress, dict(N=2, kind=k), "N=2, T=2"))
    for v in (False, True):
        cs.append(Case(f"stress invariants views={v}", stress_inv, dict(views=v), "N=2, T=2"))
    cs.append(Case("sample weights", sample_weights, dict(N=3), "3 samples"))
    cs.append(Case("portfolio labels", portfolios_mismatch, {}, "2 assets"))
    cs.append(Case("scenario probabilities", scen_probs, {}, "3 scenarios"))
    for u in ("series", "dict"):
        cs.append(Case(f"discrete {u}", discrete, dict(N=3 if u == "series" else 2, use=u), "N=3, every permutation of prices and lots"))
    cs.append(Case("discrete end to end", discrete_alloc, {}, "N=2, concrete prices"))
    for w in ("instance", "call"):
        cs.append(Case(f"costs {w}", costs, dict(where=w), "N=3, every permutation"))
    for w in ("initial_weights", "market_impact_costs", "proportional_costs", "sample_mu", "pi", "market_weights", "prior_mean"):
        cs.append(Case(f"labels missing {w}", short_labels, dict(what=w), "N=3"))
    cs.append(Case("distribution labels", dist_labels, {}, "N=2"))
    cs.append(Case("moment labels", moment_labels, {}, "N=2"))
    for w in ("pi", "market_weights", "prior_mean", "views"):
        cs.append(Case(f"Black-Litterman {w}", bl, dict(which=w), "N=3, every permutation"))
    for w in ("prior_mean", "views"):
        cs.append(Case(f"flexible views {w}", flex, dict(which=w), "N=3, every permutation"))
    return cs
