from checks.common import *

ASSUMPTIONS = ["risks are not negative in ratio comparisons, and each is zero or above 1e-6"]
PRIMARY, ALT = "Volatility", "CVaR (alt)"


def frontier(h, M, names, alt=True, N=2):
    P = h.mod("portfolioapi")
    W = h.reals("w", (N, M), -1, 2)
    r = h.reals("r", M, -1, 1)
    k = h.reals("k", M, 0, 2)
    a = h.reals("a", M, -1, 2)
    nm = ["x", "y", "z"][:N] if names else None
    f = P.PortfolioFrontier(weights=W, returns=r, risks=k, risk_measure=PRIMARY, asset_names=nm, **(dict(alternate_risks={ALT: a}) if alt else {}))
    return P, f, W, r, k, a


def on(h, out, f, W, r, risk, good, names):
    """The answer is one frontier column, with its own numbers, that qualifies."""
    w, ret, rk = out
    if names:
        h.check("weights carry the asset names", list(w.index) == list(f.asset_names))
    w = vals(w)
    M = len(r)
    h.check("weights, return and risk are those of one frontier portfolio that qualifies",
            h.any(*[h.all(h.eq(w, W[:, j]), h.eq(ret, r[j]), h.eq(rk, risk[j]), good(j)) for j in range(M)]))


def best(h, what, P, f, W, r, risk, label, names, M):
    kw = {} if label is None else dict(risk_label=label)
    if what == "min_risk":
        return on(h, f.min_risk(**kw), f, W, r, risk, lambda j: h.all(*[h.le(risk[j], x) for x in risk]), names)
    if what == "max_return":
        return on(h, f.max_return(), f, W, r, risk, lambda j: h.all(*[h.ge(r[j], x) for x in r]), names)
    if what == "closest_risk":
        t = h.real("t", -1, 3)
        return on(h, f.closest_risk(t, **kw), f, W, r, risk, lambda j: h.all(*[h.le(abs(risk[j] - t), abs(x - t)) for x in risk]), names)
    if what == "tangency":
        rf = h.real("rf", -1, 1)
        for x in risk:
            h.assume(bor(x == 0, x > Fraction(1, 10**6)))
        e = raises(lambda: f.tangency(rf), RuntimeError)
        none = band(*[x == 0 for x in risk])
        if e is not None:
            return h.check("only a riskless frontier has no tangency portfolio", none)
        h.check("a riskless frontier has no tangency portfolio", bnot(none))
        return on(h, f.tangency(rf), f, W, r, risk, lambda j: h.all(bool_goal(risk[j] > 0), *[h.implies(risk[i] > 0, h.le((r[i] - rf) * risk[j], (r[j] - rf) * risk[i])) for i in range(M)]), names)
    if what == "at_risk":
        c = h.real("c", -1, 3)
        e = raises(lambda: f.at_risk(c, **kw), RuntimeError)
        if e is not None:
            return h.check("refused only when no portfolio is within the cap", band(*[x > c for x in risk]))
        return on(h, f.at_risk(c, **kw), f, W, r, risk, lambda j: h.all(h.le(risk[j], c), *[h.implies(risk[i] <= c, h.le(r[i], r[j])) for i in range(M)]), names)
    if what == "at_return":
        c = h.real("c", -2, 2)
        e = raises(lambda: f.at_return(c, **kw), RuntimeError)
        if e is not None:
            return h.check("refused only when no portfolio reaches the floor", band(*[x < c for x in r]))
        return on(h, f.at_return(c, **kw), f, W, r, risk, lambda j: h.all(h.ge(r[j], c), *[h.implies(r[i] >= c, h.ge(risk[i], risk[j])) for i in range(M)]), names)
    raise AssertionError(what)


def bool_goal(c):
    return Goal("bool", c)


def select(h, what, M, names=True, label=None):
    P, f, W, r, k, a = frontier(h, M, names)
    best(h, what, P, f, W, r, a if label == ALT else k, label, names, M)


def count(cs):
    return tot(ite(c, 1, 0) if isinstance(c, B) else int(bool(c)) for c in cs)


def percentile(h, M, label, scale, names=True):
    P, f, W, r, k, a = frontier(h, M, names)
    risk = a if label == ALT else k
    kw = {} if label is None else dict(risk_label=label)
    if isinstance(scale, float):
        p, pct = scale, (h.const(scale) if scale <= 1 else h.const(scale) / 100)
    elif scale == "unit":
        p = pct = h.real("p", 0, 1)
    else:
        p = h.real("p", Fraction(101, 100), 100)
        pct = p / 100
    if not h.symbolic:
        tie = np.abs(np.array([(2 * q + 1) / 2 for q in range(M - 1)]) - float(pct) * (M - 1))
        h.assume(not len(tie) or tie.min() > 1e-7)
    idx = f.index_at_risk_percentile(p, **kw)

    def good(j):
        less = count([x < risk[j] for x in risk])
        leq = count([x <= risk[j] for x in risk])
        near = [h.all(*[h.le(abs(pct * (M - 1) - q), abs(pct * (M - 1) - u)) for u in range(M)], h.le(less, q), h.le(q, leq - 1)) for q in range(M)]
        return h.any(*near)
    out = f.at_percentile(p, **kw)
    on(h, out, f, W, r, risk, good, names)
    h.check("the index is that of the selected portfolio", h.all(h.eq(vals(out[0]), W[:, idx]), h.eq(out[1], r[idx]), h.eq(out[2], risk[idx])))
    pc = f.risk_percentiles(**kw)
    for i in range(M):
        for j in range(M):
            h.check("percentile ranks follow the risks", h.implies(risk[i] < risk[j], h.ge(vals(pc)[j] - vals(pc)[i], Fraction(1, M - 1) if M > 1 else 0)))
    h.check("percentile ranks span zero to one", h.all(h.ge(vals(pc), 0), h.le(vals(pc), 1)))


def refusals(h):
    P, f, W, r, k, a = frontier(h, 2, True)
    lo, hi = h.real("lo", -5, -Fraction(1, 100)), h.real("hi", Fraction(1001, 10), 500)
    for p in (lo, hi):
        h.check("percentiles outside the range are refused", raises(lambda: f.at_percentile(p), ValueError) is not None)
        h.check("percentiles outside the range are refused", raises(lambda: f.index_at_risk_percentile(p), ValueError) is not None)
    for g in (lambda: f.min_risk(risk_label="no"), lambda: f.at_risk(1.0, risk_label="no"), lambda: f.at_return(-5.0, risk_label="no"),
              lambda: f.closest_risk(1.0, risk_label="no"), lambda: f.at_percentile(0.5, risk_label="no")):
        h.check("an unknown risk measure is refused", raises(g, KeyError) is not None)
    mk = lambda **x: P.PortfolioFrontier(**{**dict(weights=W, returns=r, risks=k, risk_measure=PRIMARY, asset_names=["x", "y"]), **x})
    for bad in (dict(returns=r[:1]), dict(risks=k[:1]), dict(weights=W[:, :1]), dict(asset_names=["x"]), dict(alternate_risks={ALT: a[:1]})):
        h.check("misaligned frontiers are refused", raises(lambda: mk(**bad), ValueError) is not None)
    h.check("every risk measure is offered", list(f.available_risk_measures()) == [PRIMARY, ALT])


def repeat(h, M):
    """Selections leave the frontier as it was; any order of queries gives the same answers."""
    P, f, W, r, k, a = frontier(h, M, True)
    for x in k:
        h.assume(x > Fraction(1, 100))
    W0, r0, k0, a0 = W.copy(), r.copy(), k.copy(), a.copy()
    w1 = f.tangency(0.0)
    f.min_risk(risk_label=ALT), f.closest_risk(0.5), f.risk_percentiles(), f.at_percentile(0.5), f.max_return()
    w2 = f.tangency(0.0)
    h.check("repeating a selection gives the same portfolio", h.all(h.eq(vals(w1[0]), vals(w2[0])), h.eq(w1[1], w2[1]), h.eq(w1[2], w2[2])))
    h.check("selections do not change the frontier", h.all(h.eq(W, W0), h.eq(f.weights, W0), h.eq(f.returns, r0), h.eq(f.risks, k0), h.eq(f.alternate_risks[ALT], a0)))


def table(h):
    """Tabular views hold the frontier's own columns."""
    P, f, W, r, k, a = frontier(h, 3, True)
    _, g, *_ = frontier(h, 3, False)
    h.check("all columns in order", h.eq(vals(f.to_frame()), W))
    fr = f.to_frame(columns=[2, 0])
    h.check("chosen columns in the order asked", h.all(h.eq(vals(fr), W[:, [2, 0]]), bool_goal(list(fr.index) == ["x", "y"] and list(fr.columns) == [2, 0])))
    m, nm = g.to_samples(columns=[1], as_frame=False)
    h.check("raw samples", h.all(h.eq(m, W[:, [1]]), bool_goal(nm is None)))
    m, nm = f.to_samples(as_frame=False)
    h.check("raw samples", h.all(h.eq(m, W), bool_goal(list(nm) == ["x", "y"])))
    h.check("labels are applied", list(f.to_frame(columns=[1], column_labels=["q"]).columns) == ["q"])
    h.check("wrong labels are refused", raises(lambda: f.to_frame(column_labels=["q"]), ValueError) is not None)


def discrete(h):
    """Discretising a frontier column discretises that column's weights."""
    P = h.mod("portfolioapi")
    D = h.mod("discrete_allocation")
    c = h.choose("c", [0, 1])
    W = np.array([[0.6, 0.25], [0.4, 0.75]])
    names = h.choose("named", [True, False])
    lab = ["x", "y"] if names else ["Asset_0", "Asset_1"]
    px = {lab[1]: 31.0, lab[0]: 17.0}
    f = P.PortfolioFrontier(weights=W, returns=np.array([0.1, 0.2]), risks=np.array([0.1, 0.2]), risk_measure=PRIMARY, asset_names=lab if names else None)
    a = f.as_discrete_allocation(c, px, 1000.0)
    b = D.discretize_weights(weights=pd.Series(W[:, c], index=lab), latest_prices=px, total_value=1000.0)
    h.check("the column's weights are discretised", h.all(*[h.eq(a.shares[l], b.shares[l]) for l in lab]))
    for bad in (-1, 2):
        h.check("a column off the frontier is refused", raises(lambda: f.as_discrete_allocation(bad, px, 1000.0), IndexError) is not None)


def cases(tier):
    th = tier == "thorough"
    cs = []
    for M in (1, 2, 3, 4) + ((5,) if th else ()):
        for what in ("min_risk", "max_return", "tangency", "at_risk", "at_return", "closest_risk"):
            labels = (None,) if what in ("max_return", "tangency") else (None, ALT, PRIMARY)
            for label in labels:
                if label == PRIMARY and M != 3:
                    continue
                if M == 4 and not th and (what == "tangency" or label is None) and what in ("tangency",):
                    pass
                cs.append(Case(f"{what} M{M} {label or 'default'}", select, dict(what=what, M=M, label=label, names=M != 2), f"{M} portfolios", jitter=20, optional=M > 4))
    for M in (1, 2, 3) + ((4,) if th else ()):
        for label in (None, ALT):
            for scale in ("unit", "hundred"):
                cs.append(Case(f"percentile M{M} {label or 'default'} {scale}", percentile, dict(M=M, label=label, scale=scale), f"{M} portfolios", jitter=20, optional=M > 3))
    for p in (0.0, 0.5, 1.0, 2.0, 50.0, 100.0):
        cs.append(Case(f"percentile at {p}", percentile, dict(M=3, label=None, scale=p), "3 portfolios", jitter=20))
    cs.append(Case("refusals", refusals, {}, "2 portfolios"))
    cs.append(Case("repeat", repeat, dict(M=2), "2 portfolios"))
    cs.append(Case("table", table, {}, "3 portfolios"))
    cs.append(Case("discrete", discrete, {}, "2 portfolios"))
    return cs
