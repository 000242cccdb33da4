from checks.opt import *
import itertools

ASSUMPTIONS = ["solver answers are arbitrary vectors (long-only, not all zero); what programs they solve is decided under P12-P16",
               "portfolio variances are non-negative", "simulated normal scenarios: any draw, 2 rows instead of 5000"]
METHODS = ("mv", "mv at", "cvar", "cvar at", "robust", "gamma", "rrp", "rrp frontier")


class Answers:
    """Replaces the solvers, symbolically and in replay, by arbitrary answers; records the programs."""

    def __init__(self, h, tag="s", N=2, line=False, centres=None):
        self.centres = centres      # narrow boxes around distinct points: the order of the answers is settled
        self.line = line            # two assets, weights adding up to one
        self.h, self.calls, self.tag, self.N = h, [], tag, N
        for k in ("qp", "lp", "conelp"):
            h.intercept(k, lambda _k=k, **kw: self._call(_k, **kw))

    def _call(self, kind, **k):
        i = len(self.calls)
        c = np.ravel(vals(k["q"] if kind == "qp" else k["c"]))
        if self.centres:
            m = Fraction(self.centres[i % len(self.centres)], 100)
            x = self.h.reals(f"{self.tag}{i}", len(c), m - Fraction(1, 100), m + Fraction(1, 100))
        else:
            x = self.h.reals(f"{self.tag}{i}", len(c), Fraction(1, 10), 1)
        if self.line:
            x[1] = 1 - x[0]
        self.calls.append((kind, k, x))
        obj = dot(c, x)
        return {"status": "optimal", "x": x.reshape(-1, 1) if self.h.symbolic else x, "primal objective": obj, "dual objective": obj, "gap": 0.0, "iterations": 1}

    def weights(self):
        return [x[:self.N] for _, _, x in self.calls]


def wrap(h, src, N=2, costs=None, cons=None, T=2, given=False):
    """A wrapper and its reporting-space moments, scenarios and probabilities."""
    P = h.mod("portfolioapi")
    kw = dict(costs=costs, constraints=cons)
    R = p = None
    if h.symbolic:
        tame(h)
    if src in ("moments", "labelled", "log"):
        mu = h.reals("mu", N, -1, 1)
        cov, L = pd_matrix(h, "L", N, -1, 1)
        if h.symbolic:
            h.stub("cholesky", lambda a: factor(h, a, cov, L))
    if src == "moments":
        W = P.PortfolioWrapper(P.AssetsDistribution(mu=mu, cov=cov), **kw)
    elif src == "labelled":
        nm = list("ab")[:N]
        W = P.PortfolioWrapper.from_moments(pd.Series(mu, index=nm), pd.DataFrame(cov, index=nm, columns=nm), **kw)
    elif src == "log":
        B_ = h.mod("bayesian")
        s_mu, L2 = pd_matrix(h, "U", N, -1, 1)
        if h.symbolic:
            h.stub("cholesky", lambda a: factor(h, a, cov, L) if same(a, cov) else factor(h, a, s_mu, L2))
        W = P.PortfolioWrapper.from_robust_posterior(B_.RobustBayesPosterior(mu=mu, sigma=cov, s_mu=s_mu), **kw)
        m = [ex(h, mu[i] + cov[i, i] / 2) - 1 for i in range(N)]
        if h.symbolic:      # the conversion itself is decided under P07
            m, c = h.reals("simple_mu", N, -1, 1), symm(h, "simple_cov", N, -1, 1)
            known_conversion(h, mu, cov, arr(h, m), c)
            return P, W, arr(h, m), c, s_mu, None, None
        c = arr(h, [[ex(h, mu[i] + mu[j] + (cov[i, i] + cov[j, j]) / 2 + cov[i, j]) - ex(h, mu[i] + cov[i, i] / 2) * ex(h, mu[j] + cov[j, j] / 2) for j in range(N)] for i in range(N)])
        return P, W, arr(h, m), c, s_mu, None, None
    else:
        R = h.reals("R", (T, N), -1, 1) if src != "fixed" else h.const(np.array([[-0.5, 0.25], [0.75, -0.125], [0.0, 0.5]])[:T])
        p = probs(h, T) if src == "weighted" else h.const(np.array([0.96875, 0.03125, 0.0])[:T]) if src == "fixed" else probs(h, T, uniform=True)
        kws = dict(probabilities=p) if src != "uniform" else {}
        if given:           # the moments are given next to the scenarios
            if src == "fixed":
                mu, L = h.const(np.array([0.25, 0.125])[:N]), h.const(np.array([[0.5, 0.0], [0.25, 0.375]])[:N, :N])
                cov = L @ L.T
            else:
                mu = h.reals("mu", N, -1, 1)
                cov, L = pd_matrix(h, "L", N, -1, 1)
            if h.symbolic:
                h.stub("cholesky", lambda a: factor(h, a, cov, L))
            kws.update(mu=mu, cov=cov)
        else:
            mu = arr(h, [dot(p, R[:, i]) for i in range(N)])
            cov = arr(h, [[tot(p[t] * (R[t, i] - mu[i]) * (R[t, j] - mu[j]) for t in range(T)) for j in range(N)] for i in range(N)])
            if h.symbolic:
                h.stub("cholesky", lambda a: chol2(h, a))
        W = P.PortfolioWrapper(P.AssetsDistribution(scenarios=R, **kws), **kw)
    return P, W, mu, cov, cov, R, p


def known_conversion(h, mu, cov, m, c):
    """log2simple of the wrapper's own moments answers with symbols of its own."""
    J = h.mod("utils.projection")
    real = getattr(J.log2simple, "_real", J.log2simple)

    def log2simple(a, b):
        if np.shape(a) == np.shape(mu) and same(a, mu) and same(b, cov):
            return m.copy(), c.copy()
        return real(a, b)
    log2simple._real = real
    J.log2simple = log2simple


def same(x, y):
    return all(sym._iszero((S.of(u) - v).t) for u, v in zip(np.ravel(vals(x)), np.ravel(vals(y))))


def chol2(h, a):
    n = len(a)
    M = np.array([[S(0)] * n for _ in range(n)], dtype=object)
    for i in range(n):
        for j in range(i + 1):
            M[i, j] = sym.fresh("chol")
    return M


def tail(h, w, R, p, alpha):
    """Exact CVaR: minimum over thresholds of threshold plus mean excess over the tail probability."""
    L = [-dot(r, w) for r in R]
    v = [a + tot(q * (smax(b - a, 0) if h.symbolic else max(b - a, 0)) for q, b in zip(p, L)) / alpha for a in L]
    return v


def is_cvar(h, got, w, R, p, alpha):
    v = tail(h, w, R, p, alpha)
    return h.all(*[h.le(got, x) for x in v], h.any(*[h.eq(got, x) for x in v]))


def is_vol(h, got, w, cov):
    if h.symbolic:
        h.assume(quad(w, cov) >= 0)
    return h.all(h.ge(got, 0), h.eq(got * got, quad(w, cov)))


def nonneg(h, cov, ws):
    """Variances of the weights are not negative (the covariance is positive semidefinite)."""
    if h.symbolic:
        for w in ws:
            h.assume(quad(w, cov) >= 0)
    else:               # in floating point an exact zero may come out as the root of -1e-18
        for w in ws:
            h.assume(float(quad(w, cov)) > 1e-12)


def run(h, W, what, alpha, one=False, n=None, **kw):
    if what == "mv":
        return W.variance_frontier(n or 2, **kw)
    if what == "mv at":
        return W.min_variance_at_return(h.real("target", -1, 1), **kw)
    if what == "cvar":
        return W.cvar_frontier(n or 2, alpha=alpha, enforce_convexity=False, **kw)
    if what == "smooth":
        return W.cvar_frontier(n or 3, alpha=alpha, **kw)
    if what == "cvar at":
        return W.min_cvar_at_return(h.real("target", -1, 1), alpha=alpha, **kw)
    if what == "robust":
        return W.robust_lambda_frontier(lambdas=[h.real(f"l{i}", 0, 1) for i in range(1 if one else n or 2)], **kw)
    if what == "gamma":
        return W.solve_robust_gamma_portfolio(h.real("g1", 0, 1), h.real("g2", 4, 9), **kw)
    if what == "rrp":
        return W.relaxed_risk_parity_portfolio_with_diagnostics(lambda_reg=h.real("lr", 0, 1), **kw)
    if what == "rrp frontier":
        return W.relaxed_risk_parity_frontier(target_multipliers=[h.real(f"m{i}", 0, 2) for i in range(1, 1 + (n or 1))], lambda_reg=h.real("lr", 0, 1), **kw)
    raise AssertionError(what)


def overlays(h, f, ws, cov, R, p, own, only_raw=False):
    for label, v in f.alternate_risks.items():
        if only_raw and "raw" not in label:      # decided by the unsmoothed cases
            continue
        for j, w in enumerate(ws):
            if label == "Volatility":
                h.check("the volatility overlay belongs to the weights", is_vol(h, v[j], w, cov))
            elif label.startswith("CVaR (95"):
                h.check("the CVaR overlay belongs to the weights", is_cvar(h, v[j], w, R, p, Fraction(1, 20) if h.symbolic else 0.05))
            elif label.startswith("CVaR (raw"):
                h.check("the raw CVaR belongs to the weights", is_cvar(h, v[j], w, R, p, own))
            else:
                h.check("an overlay is known: " + label, False)
    want = set()
    if R is not None:
        want |= {"CVaR (95%)"}
    return want


def report(h, what, src, alpha=0.4, T=2, n=None):
    N = 2
    P, W, mu, cov, unc, R, p = wrap(h, src, T=T, given=what in ("robust", "rrp frontier"))
    scov = cov
    if what == "robust" and R is not None:      # the given covariance is the one of the mean
        m_ = [dot(p, R[:, i]) for i in range(N)]
        scov = arr(h, [[tot(p[t] * (R[t, i] - m_[i]) * (R[t, j] - m_[j]) for t in range(T)) for j in range(N)] for i in range(N)])
    a = Answers(h, line=src == "fixed", centres=(90, 50, 80, 60, 70, 45) if n else None)
    al = Fraction(str(alpha)) if h.symbolic else alpha
    out = run(h, W, what, alpha, one=src == "log", n=n)
    sols = a.weights()
    if what in ("mv at", "cvar at", "gamma", "rrp"):
        w, ret, risk = out[:3]
        if src == "labelled":
            h.check("weights carry the asset names", list(w.index) == ["a", "b"])
        w = vals(w)
        h.check("the weights are a solution", h.any(*[h.eq(w, s) for s in sols]))
        nonneg(h, unc if what == "gamma" else cov, [w])
        h.check("the reported return belongs to the weights", h.eq(ret, dot(mu, w)))
        if what in ("mv at", "rrp"):
            h.check("the reported volatility belongs to the weights", is_vol(h, risk, w, cov))
        elif what == "cvar at":
            h.check("the reported CVaR belongs to the weights", is_cvar(h, risk, w, R, p, al))
        else:
            h.assume(quad(w, unc) <= 4)
            h.check("the reported squared radius belongs to the weights", h.eq(risk, quad(w, unc)))
        if what == "rrp":
            d = out[3]
            h.check("diagnostics belong to the weights", h.all(h.eq(d["achieved_return"], dot(mu, w)), h.eq(d["portfolio_variance"], quad(w, cov)),
                                                            h.eq(d["risk_parity_return"], dot(mu, d["risk_parity_weights"]))))
        return
    f = out
    M = vals(f.weights)
    ws = [M[:, j] for j in range(M.shape[1])]
    if src == "labelled":
        h.check("weights carry the asset names", list(f.asset_names) == ["a", "b"])
    for c in (scov, unc):
        nonneg(h, c, ws)
    for j, w in enumerate(ws):
        h.check("every column is a solution", h.any(*[h.eq(w, s) for s in sols]))
        h.check("the reported return belongs to the weights", h.eq(f.returns[j], dot(mu, w)))
    for j, w in enumerate(ws):
        if what in ("mv", "rrp frontier"):
            h.check("the reported volatility belongs to the weights", is_vol(h, f.risks[j], w, cov))
        elif what == "cvar":
            h.check("the reported CVaR belongs to the weights", is_cvar(h, f.risks[j], w, R, p, al))
        elif what == "robust":
            h.check("the reported estimation risk belongs to the weights", is_vol(h, f.risks[j], w, unc))
    if what == "smooth":
        raw = [v for k, v in f.alternate_risks.items() if "raw" in k]
        h.check("the exact CVaR stays available", len(raw) == 1)
        r, y, x = f.risks, raw[0], f.returns
        h.check("the smoothed risk does not fall", h.all(*[h.le(r[j], r[j + 1]) for j in range(len(ws) - 1)]))
        gap = Fraction(1, 1000) if h.symbolic else 1e-3
        rising = band(*[x[j + 1] - x[j] >= gap for j in range(len(ws) - 1)], *[y[j] <= y[j + 1] for j in range(len(ws) - 1)])
        convex = band(*[(y[j + 1] - y[j]) * (x[j + 2] - x[j + 1]) + gap <= (y[j + 2] - y[j + 1]) * (x[j + 1] - x[j]) for j in range(len(ws) - 2)])
        h.check("smoothing leaves a convex frontier alone", h.implies(band(rising, convex), h.eq(r, y)))
    if what in ("cvar", "smooth"):
        h.check("columns are sorted by return", h.all(*[h.le(f.returns[j], f.returns[j + 1]) for j in range(len(ws) - 1)]))
    if what == "robust":
        h.check("columns are sorted by estimation risk", h.all(*[h.le(f.risks[j], f.risks[j + 1]) for j in range(len(ws) - 1)]))
        h.check("every column keeps its own penalty", h.any(*[h.all(*[h.all(h.eq(f.metadata[j]["lambda"], h.real(f"l{k}", 0, 1)), h.eq(ws[j], sols[k])) for j, k in enumerate(pm)]) for pm in itertools.permutations(range(len(ws)))]))
    if R is not None and what in ("mv", "robust", "rrp frontier"):
        h.check("scenario overlays are attached", "CVaR (95%)" in f.alternate_risks)
    if what in ("cvar", "smooth") or (what == "robust" and src != "moments" and src != "labelled"):
        h.check("a volatility overlay is attached", "Volatility" in f.alternate_risks)
    overlays(h, f, ws, scov, R, p, al, only_raw=what == "smooth")


def simulated(h, what, log):
    """Without scenarios CVaR is measured on the simulated ones, in simple-return space."""
    P, W, mu, cov, unc, _, _ = wrap(h, "log" if log else "moments")
    kd = getattr(P.PortfolioWrapper._scenario_inputs, "__kwdefaults__", None) if hasattr(P.PortfolioWrapper, "_scenario_inputs") else None
    if not kd or "n_simulations" not in kd:
        raise sym.Unsupported("simulation size not adjustable")
    log_ = []
    h.rng(lambda seed=None: Rng(h, log_))
    a = Answers(h)
    kd["n_simulations"] = 2
    try:
        out = run(h, W, what, 0.4, seed=7)
    finally:
        kd["n_simulations"] = 5000
    draws = [e for e in log_ if e[0] == "mvn"]
    h.check("one simulation from the stored moments", len(draws) == 1 and draws[0][4].shape == (2, 2))
    m, c = draws[0][3]
    h.check("one simulation from the stored moments", h.all(h.eq(m, W.dist.mu), h.eq(c, W.dist.cov)))
    Z = vals(draws[0][4])
    R = arr(h, [[ex(h, z) - 1 for z in r] for r in Z]) if log else Z
    p = probs(h, 2, uniform=True)
    al = Fraction(2, 5) if h.symbolic else 0.4
    if what == "cvar at":
        w = vals(out[0])
        h.check("the reported return belongs to the weights", h.eq(out[1], dot(mu, w)))
        return h.check("the reported CVaR belongs to the weights", is_cvar(h, out[2], w, R, p, al))
    M = vals(out.weights)
    for j in range(M.shape[1]):
        h.check("the reported return belongs to the weights", h.eq(out.returns[j], dot(mu, M[:, j])))
        h.check("the reported CVaR belongs to the weights", is_cvar(h, out.risks[j], M[:, j], R, p, al))


def overlay_cov(h, labelled):
    """A return covariance given to the robust frontier is matched to the assets and used for the overlay."""
    P, W, mu, cov, unc, _, _ = wrap(h, "labelled")
    a = Answers(h)
    C_, _ = pd_matrix(h, "C", 2, -1, 1)
    arg = pd.DataFrame(C_, index=["a", "b"], columns=["a", "b"]).loc[["b", "a"], ["b", "a"]] if labelled else C_
    f = W.robust_lambda_frontier(lambdas=[h.real("l0", 0, 1), h.real("l1", 0, 1)], return_cov=arg)
    M = vals(f.weights)
    h.check("a volatility overlay is attached", "Volatility" in f.alternate_risks)
    for j in range(M.shape[1]):
        nonneg(h, C_, [M[:, j]])
        h.check("the volatility overlay belongs to the weights", is_vol(h, f.alternate_risks["Volatility"][j], M[:, j], C_))


# ------------------------------------------------------------------ per-call constraints and costs
def equal_programs(h, label, a, b):
    ok = len(a) == len(b) and all(x[0] == y[0] for x, y in zip(a, b))
    h.check(label, ok)
    for (kind, k, _), (_, q, _) in zip(a, b):
        names = ("P", "q", "G", "h", "A", "b") if kind == "qp" else ("c", "G", "h", "A", "b")
        for n in names:
            u, v = k.get(n), q.get(n)
            if u is None or v is None:
                h.check(label, u is None and v is None)
            else:
                u, v = vals(u), vals(v)
                h.check(label, u.shape == v.shape)
                h.check(label, h.eq(np.ravel(u), np.ravel(v)))


def isolation(h, what, own, call, base="own"):
    """A call with its own rules equals the same call on a wrapper built with them, and leaves no trace."""
    P = h.mod("portfolioapi")
    K = h.mod("utils.constraints")
    cons = {"own": K.Constraints(long_only=True, bounds=[(0, h.real("ou", Fraction(1, 2), 1)), (0, h.real("ov", Fraction(1, 2), 1))]),
            "open": K.Constraints(long_only=True, total_weight=None),
            "call": K.Constraints(long_only=False, bounds=[(h.real("cl", -1, 0), h.real("cu", Fraction(1, 2), 1))] * 2, total_weight=h.real("ct", Fraction(9, 10), Fraction(11, 10)))}
    cost = {t: P.TransactionCosts(initial_weights=h.reals(t + "w", 2, -1, 1), market_impact_costs=h.reals(t + "m", 2, 0, 1) if "m" in m else None,
                                  proportional_costs=h.reals(t + "p", 2, 0, 1) if "p" in m else None) for t, m in (("own", "mp"), ("call", "mp"), ("half", ""))}
    mk = lambda c, k: wrap(h, "fixed" if what.startswith("cvar") or what == "smooth" else "moments", cons=cons.get(c), costs=cost.get(k))[1]
    W = mk(base, "own" if own else None)
    before = {n: (None if getattr(W, n) is None else np.array(getattr(W, n), copy=True)) for n in ("G", "h", "A", "b", "initial_weights", "market_impact_costs", "proportional_costs")}
    kw = {}
    if "c" in call:
        kw["constraints"] = cons["call"]
    if "k" in call or "h" in call:
        kw["costs"] = cost["half" if "h" in call else "call"]
    a0 = Answers(h)
    run(h, W, what, 0.4)
    a1 = Answers(h)
    run(h, W, what, 0.4, **kw)
    a2 = Answers(h)
    run(h, W, what, 0.4)
    V = mk("call" if "c" in call else base, ("half" if "h" in call else "call") if "costs" in kw else ("own" if own else None))
    a3 = Answers(h)
    run(h, V, what, 0.4)
    equal_programs(h, "a call's own rules are the ones solved", a1.calls, a3.calls)
    equal_programs(h, "later calls are not affected", a2.calls, a0.calls)
    for n, v in before.items():
        x = getattr(W, n)
        h.check("the wrapper is unchanged", (x is None) == (v is None))
        if v is not None:
            h.check("the wrapper is unchanged", h.eq(x, v))


def cases(tier):
    th = tier == "thorough"
    J = 30
    cs = []
    for what in METHODS + ("smooth",):
        scen = what in ("cvar", "cvar at", "smooth")
        for src in ("moments", "labelled", "log", "uniform", "weighted", "fixed"):
            if scen and src in ("moments", "labelled", "log") or what in ("gamma", "rrp", "mv at") and src in ("uniform", "weighted"):
                continue
            if what in ("gamma", "cvar at") and src == "fixed":
                continue
            if not th and (src == "weighted" and what != "cvar at" or src == "uniform" and what != "mv"):
                continue
            cs.append(Case(f"report {what} {src}", report, dict(what=what, src=src), "N=2, T=2", jitter=J))
    for what, n in (("mv", 4), ("cvar", 4), ("smooth", 4), ("robust", 3), ("robust", 4), ("rrp frontier", 3)) + ((("mv", 5), ("cvar", 5), ("smooth", 5), ("rrp frontier", 4)) if th else ()):
        cs.append(Case(f"report {what} of {n}", report, dict(what=what, src="fixed", n=n), f"N=2, T=2, {n} columns, answers within 0.01 of distinct points", jitter=J))
    for al in (0.05, 0.5, 0.9) if th else (0.05,):
        cs.append(Case(f"report cvar at {al}", report, dict(what="cvar at", src="weighted", alpha=al, T=3), "N=2, T=3", jitter=J))
    for what in ("cvar", "cvar at"):
        for log in (False, True):
            if log and what == "cvar" and not th:
                continue
            cs.append(Case(f"simulated {what}{' log' if log else ''}", simulated, dict(what=what, log=log), "N=2, 2 simulations", jitter=J))
    for l in (False, True):
        cs.append(Case(f"overlay covariance{' labelled' if l else ''}", overlay_cov, dict(labelled=l), "N=2", jitter=J))
    for what in METHODS:
        cs.append(Case(f"isolation {what} open c", isolation, dict(what=what, own=False, call="c", base="open"), "N=2, T=2, wrapper without a budget rule", jitter=J))
        for own in (False, True):
            for call in ("c", "k", "ck", "h"):
                if not own and call != "ck" and not th:
                    continue
                if call == "h" and not own:
                    continue
                cs.append(Case(f"isolation {what} {'own' if own else 'bare'} {call}", isolation, dict(what=what, own=own, call=call), "N=2, T=2", jitter=J))
    return cs
