from checks.opt import *

ASSUMPTIONS = ["CVXOPT/GLPK meet their contract: they return a minimiser of the program they are given, or a non-optimal status",
               "the quadratic cost is w' Sigma w + (w - w0)' diag(cost) (w - w0), up to a positive factor"]


def data(h, N, cons, cost):
    mu = h.reals("mu", N, -1, 1)
    if h.symbolic:
        cov = symm(h, "cov", N, -2, 2)
    else:
        cov = pd_shift(symm(h, "cov", N, -2, 2))
    s = system(h, N, cons)
    kw = {}
    if cost:
        kw = dict(initial_weights=h.reals("w0", N, -1, 1), market_impact_costs=h.reals("lam", N, 0, 2))
    return mu, cov, s, kw


def value(w, cov, kw):
    v = quad(w, cov)
    if kw:
        v = v + tot(c * (x - y) * (x - y) for c, x, y in zip(kw["market_impact_costs"], w, kw["initial_weights"]))
    return v


def doc_solve(mu, cov, s, kw, target=None):
    N = len(mu)
    P, q = 2 * cov, np.zeros(N)
    if kw:
        lam = np.asarray(kw["market_impact_costs"])
        P, q = P + 2 * np.diag(lam), -2 * lam * np.asarray(kw["initial_weights"])
    G, hh = s.G, s.h
    if target is not None:
        G = -mu.reshape(1, -1) if G is None else np.vstack([G, -mu])
        hh = np.array([-target]) if hh is None else np.append(hh, -target)
    return cvx(P, q, G, hh, s.A, s.b)


def compete(h, run, mu, cov, s, kw, target, what="the returned portfolio"):
    if s.A is not None:         # the solver needs independent equality rows
        h.assume(np.linalg.svd(np.asarray(s.A, dtype=float), compute_uv=False).min() > 1e-2)
    best = doc_solve(mu, cov, s, kw, target)
    if best is None:
        refused(h, run, lambda v: s.rows(v) + ([(-dot(mu, v), -target, "le")] if target is not None else []), len(mu))
    try:
        w = np.ravel(vals(run()))
    except RuntimeError:
        h.check("a feasible program is solved", False)
    rows = s.rows(w) + ([(-dot(mu, w), -target, "le")] if target is not None else [])
    h.check("the returned portfolio obeys every rule", near_feasible(rows))
    h.check("the returned portfolio is not beaten", h.le(value(w, cov, kw), value(best, cov, kw), TOL))


def solve(h, N, cons, cost, target):
    O = h.mod("optimization")
    mu, cov, s, kw = data(h, N, cons, cost)
    t = h.real("t", -1, 1) if target else None
    if h.symbolic:
        cap = Capture(h)
    opt = O.MeanVariance(mu, cov, *s.args(), **kw)
    run = lambda: opt.efficient_portfolio(t) if target else opt.efficient_portfolio()
    if not h.symbolic:
        return compete(h, run, mu, cov, s, kw, t)
    w = run()
    h.check("one quadratic program is solved", len(cap.calls) == 1 and cap.calls[0].kind == "qp")
    c = cap.calls[0]
    z = fresh_vec(h, "z", N)
    rows = s.rows(z) + ([(-dot(mu, z), -t, "le")] if target else [])
    same_feasible(h, "feasible set", c, rows, z)
    same_objective(h, "objective is variance plus trading cost", c, lambda x: value(x, cov, kw), N, z)
    h.check("the solver's weights are returned", h.eq(w, c.x))


def lonely(h, which):
    """A cost or an initial portfolio alone changes nothing; mismatched lengths are refused."""
    O = h.mod("optimization")
    mu, cov, s, kw = data(h, 2, "box", True)
    one = {which: kw[which]}
    if h.symbolic:
        cap = Capture(h)
    run = lambda: O.MeanVariance(mu, cov, *s.args(), **one).efficient_portfolio()
    if not h.symbolic:
        return compete(h, run, mu, cov, s, {}, None)
    run()
    z = fresh_vec(h, "z", 2)
    same_feasible(h, "feasible set", cap.calls[0], s.rows(z), z)
    same_objective(h, "objective is the variance alone", cap.calls[0], lambda x: quad(x, cov), 2, z)
    e = raises(lambda: O.MeanVariance(mu, cov, *s.args(), initial_weights=kw["initial_weights"][:1], market_impact_costs=kw["market_impact_costs"]), ValueError)
    h.check("costs of the wrong length are refused", e is not None)


def frontier(h, N, num, cons, cost):
    O = h.mod("optimization")
    mu, cov, s, kw = data(h, N, cons, cost)
    if not h.symbolic:
        return compete_frontier(h, lambda: O.MeanVariance(mu, cov, *s.args(), **kw).efficient_frontier(num), mu, cov, s, kw, num)
    cap = Capture(h)
    opt = O.MeanVariance(mu, cov, *s.args(), **kw)
    W = vals(opt.efficient_frontier(num))
    check_frontier(h, cap, W, mu, s, num, N, lambda c, z: same_objective(h, "every point minimises variance plus trading cost", c, lambda x: value(x, cov, kw), N, z), lambda c: N)


def check_frontier(h, cap, W, mu, s, num, N, objective, nvars, kind="qp"):
    """Capture of a whole frontier: minimum-risk solve, return maximiser, equally spaced targets."""
    lps = [c for c in cap.calls if is_return_lp(h, c, mu)]
    h.check("the return maximiser is found once", len(lps) == 1)
    lp = lps[0]
    sol = [c for c in cap.calls if c is not lp]
    lo = dot(mu, sol[0].x[:N])
    hi = -lp.objective(lp.x)
    h.check("the first point is the minimum-risk portfolio", h.eq(W[:, 0], sol[0].x[:N]))
    z = fresh_vec(h, "z", N)
    if kind == "qp":
        same_feasible(h, "maximum return", lp, s.rows(z), z)
        same_feasible(h, "minimum risk", sol[0], s.rows(z), z)
        objective(sol[0], z)
    if num < 2:
        h.check("one portfolio is the minimum-risk one", W.shape == (N, 1))
        return
    if W.shape[1] == 1 and num > 1:
        h.check("the frontier collapses only when nothing is gained", h.le(abs(hi - lo), Fraction(1, 10**8) + Fraction(1, 10**5) * abs(hi)))
        return
    h.check("one column per requested point", W.shape == (N, num) and len(sol) == num)
    for k in range(1, num):
        t = lo + (hi - lo) * Fraction(k, num - 1)
        c = sol[k]
        h.check("columns are the solutions in order", h.eq(W[:, k], c.x[:N]))
        if kind == "qp":
            same_feasible(h, "return target", c, s.rows(z) + [(-dot(mu, z), -t, "le")], z)
            objective(c, z)
        else:
            objective(c, t)


def is_return_lp(h, c, mu):
    if c.kind != "lp":
        return False
    v = np.ravel(vals(c.k["c"]))
    N = len(mu)
    return all(sym._iszero((S.of(v[i]) + mu[i]).t) for i in range(N)) and all(sym._iszero(S.of(x).t) for x in v[N:])


def compete_frontier(h, run, mu, cov, s, kw, num):
    first = doc_solve(mu, cov, s, kw)
    top = cvx(None, -mu, s.G, s.h, s.A, s.b, lp=True)
    h.assume(first is not None, top is not None)
    lo, hi = dot(mu, first), dot(mu, top)
    h.assume(abs(hi - lo) > 1e-3 or num > 1 and hi - lo > 2e-5 * (1 + abs(hi)))
    try:
        W = vals(run())
    except RuntimeError:
        h.check("a feasible frontier is solved", False)
    if W.shape[1] == 1 and num > 1:
        h.check("the frontier collapses only when nothing is gained", False)
    h.assume(abs(hi - lo) > 1e-3)
    if num < 2:
        num = 1
    h.check("one column per requested point", W.shape == (len(mu), num))
    for k in range(num):
        t = lo + (hi - lo) * k / max(num - 1, 1)
        w = W[:, k]
        best = doc_solve(mu, cov, s, kw, t - 1e-7 if k else None)
        h.assume(best is not None)
        if k:       # inputs whose optimum jumps with the last digits of the target settle nothing
            near = doc_solve(mu, cov, s, kw, t - 1e-5)
            h.assume(near is not None)
            h.assume(abs(value(near, cov, kw) - value(best, cov, kw)) <= 3e-5)
        h.check("every point obeys every rule", near_feasible(s.rows(w) + [(-dot(mu, w), -t + 1e-6, "le")]))
        h.check("no point is beaten at its target", h.le(value(w, cov, kw), value(best, cov, kw), 1e-4))


def status(h):
    """A failed solve is retried once with a negligible ridge, then reported."""
    O = h.mod("optimization")
    mu, cov, s, kw = data(h, 2, "box", False)
    bad = h.choose("bad", ["first", "both"])
    if not h.symbolic:
        from cvxopt import matrix, solvers
        real, seen = solvers.qp, []

        def flaky(**k):
            seen.append(1)
            sol = real(*[None if k[n] is None else matrix(k[n]) for n in ("P", "q", "G", "h", "A", "b")])
            if len(seen) == 1 or bad == "both":
                sol = dict(sol, status="unknown")
            return sol

        best = doc_solve(mu, cov, s, kw)
        h.assume(best is not None)
        h.intercept("qp", flaky)
        run = lambda: np.ravel(vals(O.MeanVariance(mu, cov, *s.args()).efficient_portfolio()))
        if bad == "both":
            return h.check("a failed solve is an error, not a portfolio", raises(run, RuntimeError) is not None)
        w = run()
        return h.check("the retry only adds a negligible ridge", h.le(value(w, cov, kw), value(best, cov, kw), 1e-4))
    cap = Capture(h, status={0: "unknown", 1: "optimal" if bad == "first" else "unknown"})
    box = []
    e = raises(lambda: box.append(O.MeanVariance(mu, cov, *s.args()).efficient_portfolio()), RuntimeError)
    if bad == "both":
        h.check("a failed solve is an error, not a portfolio", e is not None)
        return
    h.check("a successful retry returns its solution", e is None and len(cap.calls) == 2)
    z = fresh_vec(h, "z", 2)
    c = cap.calls[1]
    same_feasible(h, "retry", c, s.rows(z), z)
    zero = np.array([S(0)] * 2, dtype=object)
    extra = c.objective(z) - c.objective(zero) - quad(z, cov)
    n2 = dot(z, z)
    h.check("the retry only adds a negligible ridge", h.all(h.ge(extra, 0), h.le(extra, n2 * Fraction(1, 10**6))))
    h.check("the retry's weights are returned", h.eq(np.ravel(vals(box[0])), c.x))


def wrapper(h, what, cons, cost):
    """The portfolio wrapper hands over its own moments, constraints and impact costs."""
    P = h.mod("portfolioapi")
    N = 2
    mu, cov, s, kw = data(h, N, cons, cost)
    t = h.real("t", -1, 1)
    if h.symbolic:
        tame(h)
        h.stub("eigvalsh", lambda a: np.array([S(1)] * N, dtype=object))
        h.assume(cov[0, 0] > 0, cov[1, 1] > 0, cov[0, 0] * cov[1, 1] > cov[0, 1] * cov[0, 1])
    W = P.PortfolioWrapper(P.AssetsDistribution(mu=mu, cov=cov))
    W.G, W.h, W.A, W.b = s.args()
    if cost:
        W._apply_transaction_costs(P.TransactionCosts(**kw)) if cost == "own" else None
    call = dict(costs=P.TransactionCosts(**kw)) if cost == "call" else {}
    run = (lambda: vals(W.min_variance_at_return(t, **call)[0])) if what == "target" else (lambda: W.variance_frontier(2, **call).weights)
    if not h.symbolic:
        if what == "target":
            return compete(h, run, mu, cov, s, kw, t)
        return compete_frontier(h, run, mu, cov, s, kw, 2)
    cap = Capture(h)
    if what == "target":
        run()
        z = fresh_vec(h, "z", N)
        h.check("one program is solved", len(cap.calls) == 1)
        same_feasible(h, "feasible set", cap.calls[0], s.rows(z) + [(-dot(mu, z), -t, "le")], z)
        same_objective(h, "objective is variance plus trading cost", cap.calls[0], lambda x: value(x, cov, kw), N, z)
    else:
        out = vals(run())
        check_frontier(h, cap, out, mu, s, 2, N, lambda c, z: same_objective(h, "every point minimises variance plus trading cost", c, lambda x: value(x, cov, kw), N, z), lambda c: N)


def cases(tier):
    th = tier == "thorough"
    cs = []
    J = 200
    for N in (2, 3):
        for cons in ("none", "budget", "eq", "box", "ineq", "rows", "group"):
            for cost in (False, True):
                for target in (False, True):
                    if N == 3 and not th and (cons not in ("rows", "box") or not cost):
                        continue
                    cs.append(Case(f"solve N{N} {cons}{' cost' if cost else ''}{' target' if target else ''}", solve, dict(N=N, cons=cons, cost=cost, target=target), f"N={N}, constraints '{cons}' with symbolic rows and limits", jitter=J))
    for w in ("initial_weights", "market_impact_costs"):
        cs.append(Case("only " + w, lonely, dict(which=w), "N=2", jitter=J))
    for num, cons, cost in ((1, "box", False), (2, "box", False), (3, "rows", True), (4, "ineq", False), (5, "group", True)) + (((8, "rows", True), (10, "box", True)) if th else ()):
        cs.append(Case(f"frontier {num} {cons}{' cost' if cost else ''}", frontier, dict(N=2, num=num, cons=cons, cost=cost), f"N=2, {num} points", jitter=J))
    if th:
        cs.append(Case("frontier N3", frontier, dict(N=3, num=4, cons="rows", cost=True), "N=3, 4 points", jitter=J))
    cs.append(Case("failed solve", status, {}, "N=2", jitter=J))
    for what in ("target", "frontier"):
        for cost in (None, "own", "call"):
            cs.append(Case(f"wrapper {what} {cost or 'no'} cost", wrapper, dict(what=what, cons="rows" if what == "target" else "box", cost=cost), "N=2", jitter=J))
    return cs
