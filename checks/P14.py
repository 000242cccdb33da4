from checks.opt import *
from checks.P12 import is_return_lp, check_frontier

ASSUMPTIONS = ["GLPK meets its contract: it returns a minimiser of the linear program it is given, or a non-optimal status",
               "scenario CVaR is the Rockafellar-Uryasev minimum over c of c + E[(loss - c)+]/alpha (shown equal to the reported CVaR under P02/P06)"]


def pos(h, x):
    if not h.symbolic:
        return max(x, 0.0)
    return sym.ite(x > 0, x, S(0)) if hasattr(sym, "ite") else (x + abs(x)) / 2


def data(h, T, N, alpha, cons, cost):
    R = h.reals("R", (T, N), -1, 1)
    p = probs(h, T)
    a = h.real("alpha", Fraction(1, 100), Fraction(99, 100)) if alpha == "any" else alpha
    s = system(h, N, cons)
    kw = {}
    if cost:
        kw = dict(initial_weights=h.reals("w0", N, -1, 1), proportional_costs=h.reals("fee", N, 0, 1))
    return R, p, a, s, kw


def frac(a):
    return Fraction(repr(a)) if isinstance(a, float) else a


def fee(h, w, kw):
    if not kw:
        return 0
    return tot(c * (pos(h, x - y) + pos(h, y - x)) for c, x, y in zip(kw["proportional_costs"], w, kw["initial_weights"]))


def ru(h, w, c, R, p, a):
    return c + tot(q * pos(h, -dot(r, w) - c) for q, r in zip(p, R)) / a


def risk(w, R, p, a):
    """Replay: exact scenario CVaR."""
    loss = -(R @ w)
    return min(c + float(p @ np.maximum(loss - c, 0)) / a for c in loss)


def value(h, w, R, p, a, kw):
    return risk(w, R, p, a) + fee(h, w, kw)


def doc_solve(R, p, a, s, kw, target=None):
    T, N = R.shape
    e = 2 * N if kw else 0
    n = N + 1 + T + e
    c = np.concatenate([np.zeros(N), [1.0], p / a] + ([kw["proportional_costs"]] * 2 if kw else []))
    G = np.vstack([np.hstack([-R, -np.ones((T, 1)), -np.eye(T), np.zeros((T, e))]), np.hstack([np.zeros((T + e, N + 1)), -np.eye(T + e)])])
    hh = np.zeros(2 * T + e)
    pad = lambda M: np.hstack([M, np.zeros((len(M), n - N))])
    if s.G is not None:
        G, hh = np.vstack([G, pad(s.G)]), np.append(hh, s.h)
    if target is not None:
        G, hh = np.vstack([G, pad(-(p @ R).reshape(1, -1))]), np.append(hh, -target)
    A, b = (pad(s.A), np.asarray(s.b)) if s.A is not None else (np.zeros((0, n)), np.zeros(0))
    if kw:
        t = np.hstack([np.eye(N), np.zeros((N, 1 + T)), -np.eye(N), np.eye(N)])
        A, b = np.vstack([A, t]), np.append(b, kw["initial_weights"])
    x = cvx(None, c, G, hh, A if len(A) else None, b if len(A) else None, lp=True)
    return None if x is None else x[:N]


def compete(h, run, R, p, a, s, kw, target):
    mu = p @ R
    best = doc_solve(R, p, a, s, kw, target)
    if best is None:
        refused(h, run, lambda v: s.rows(v) + ([(-dot(mu, v), -target, "le")] if target is not None else []), R.shape[1])
    try:
        w = np.ravel(vals(run()))
    except RuntimeError:
        h.check("a feasible program is solved", False)
    h.check("the returned portfolio obeys every rule", near_feasible(s.rows(w) + ([(-dot(mu, w), -target, "le")] if target is not None else [])))
    h.check("the returned portfolio is not beaten", h.le(value(h, w, R, p, a, kw), value(h, best, R, p, a, kw), TOL))


def check_program(h, call, R, p, a, s, kw, target, N):
    """Lower and upper lift between the linear program and the documented one."""
    T = R.shape[0]
    mu = np.array([tot(q * x for q, x in zip(p, R[:, j])) for j in range(N)], dtype=object)
    n = N + 1 + T + (2 * N if kw else 0)
    if call.n != n:
        raise sym.Unsupported(f"program with {call.n} variables instead of {n}")
    rows = lambda w: s.rows(w) + ([(-dot(mu, w), -target, "le")] if target is not None else [])
    z = fresh_vec(h, "z", n)
    w, c = z[:N], z[N]
    fe = holds(call.rows(z))
    h.check("every stated rule is enforced", h.implies(fe, goal_rows(h, rows(w))))
    # the objective is c + p.xi/alpha + fee.(u+ + u-), and each xi, u+ + u- dominates what it stands for
    lab = "the objective is never below CVaR plus trading cost"
    xi = z[N + 1:N + 1 + T]
    for r, x in zip(R, xi):
        h.check(lab, h.implies(fe, h.all(h.ge(x, 0), h.ge(x, -dot(r, w) - c))))
    obj = c + tot(q * x for q, x in zip(p, xi)) / a
    if kw:
        up, dn = z[N + 1 + T:2 * N + 1 + T], z[2 * N + 1 + T:]
        obj = obj + tot(f * (x + y) for f, x, y in zip(kw["proportional_costs"], up, dn))
        for i in range(N):
            d = w[i] - kw["initial_weights"][i]
            h.check(lab, h.implies(fe, h.all(h.ge(up[i] + dn[i], d), h.ge(up[i] + dn[i], -d))))
    h.check(lab, h.eq(call.objective(z), obj))
    w2 = fresh_vec(h, "w", N)
    c2 = h.real("c")
    lift = list(w2) + [c2] + [pos(h, -dot(r, w2) - c2) for r in R]
    if kw:
        lift += [pos(h, x - y) for x, y in zip(w2, kw["initial_weights"])] + [pos(h, y - x) for x, y in zip(w2, kw["initial_weights"])]
    lift = np.array(lift, dtype=object)
    h.check("every feasible portfolio competes", h.implies(holds(rows(w2)), goal_rows(h, call.rows(lift))))
    h.check("CVaR plus trading cost is attained", h.eq(call.objective(lift), ru(h, w2, c2, R, p, a) + fee(h, w2, kw)))


def solve(h, T, N, alpha, cons, cost, target):
    O = h.mod("optimization")
    R, p, a, s, kw = data(h, T, N, alpha, cons, cost)
    t = h.real("t", -1, 1) if target else None
    if h.symbolic:
        cap = Capture(h)
    opt = O.MeanCVaR(R, p, a, *s.args(), **kw)
    run = lambda: opt.efficient_portfolio(t) if target else opt.efficient_portfolio()
    if not h.symbolic:
        return compete(h, run, R, p, a, s, kw, t)
    w = run()
    h.check("one linear program is solved", len(cap.calls) == 1 and cap.calls[0].kind == "lp")
    check_program(h, cap.calls[0], R, p, frac(a), s, kw, t, N)
    h.check("the solver's weights are returned", h.eq(np.ravel(vals(w)), cap.calls[0].x[:N]))


def lonely(h, which):
    O = h.mod("optimization")
    R, p, a, s, kw = data(h, 3, 2, 0.25, "box", True)
    if h.symbolic:
        cap = Capture(h)
    run = lambda: O.MeanCVaR(R, p, a, *s.args(), **{which: kw[which]}).efficient_portfolio()
    if not h.symbolic:
        return compete(h, run, R, p, a, s, {}, None)
    run()
    check_program(h, cap.calls[0], R, p, frac(a), s, {}, None, 2)


def frontier(h, T, N, num, cons, cost):
    O = h.mod("optimization")
    R, p, a, s, kw = data(h, T, N, 0.25, cons, cost)
    opt_run = lambda: O.MeanCVaR(R, p, a, *s.args(), **kw).efficient_frontier(num)
    if not h.symbolic:
        return compete_frontier(h, opt_run, R, p, a, s, kw, num)
    cap = Capture(h)
    W = vals(opt_run())
    mu = np.array([tot(q * x for q, x in zip(p, R[:, j])) for j in range(N)], dtype=object)
    lps = [c for c in cap.calls if is_return_lp(h, c, mu)]
    h.check("the return maximiser is found once", len(lps) == 1)
    lp = lps[0]
    sol = [c for c in cap.calls if c is not lp]
    check_program(h, sol[0], R, p, frac(a), s, kw, None, N)
    z = fresh_vec(h, "zz", lp.n)
    h.check("maximum return: every stated rule is enforced", h.implies(holds(lp.rows(z)), goal_rows(h, s.rows(z[:N]))))
    lift = list(z[:N]) + [S(0)] + [pos(h, -dot(r, z[:N])) for r in R]
    if kw:
        lift += [pos(h, x - y) for x, y in zip(z, kw["initial_weights"])] + [pos(h, y - x) for x, y in zip(z, kw["initial_weights"])]
    h.check("maximum return: every feasible portfolio competes", h.implies(holds(s.rows(z[:N])), goal_rows(h, lp.rows(np.array(lift, dtype=object)))))
    check_frontier(h, cap, W, mu, s, num, N, lambda c, t: check_program(h, c, R, p, frac(a), s, kw, t, N), None, kind="lp")


def compete_frontier(h, run, R, p, a, s, kw, num):
    mu = p @ R
    first = doc_solve(R, p, a, s, kw)
    top = cvx(None, -mu, s.G, s.h, s.A, s.b, lp=True)
    h.assume(first is not None, top is not None)
    hi = dot(mu, top)
    W = vals(run())
    w = W[:, 0]
    h.check("the first point is the minimum-risk portfolio", near_feasible(s.rows(w)) and value(h, w, R, p, a, kw) <= value(h, first, R, p, a, kw) + TOL)
    lo = dot(mu, w)
    if num < 2:
        return h.check("one portfolio is the minimum-risk one", W.shape == (len(mu), 1))
    if W.shape[1] == 1 and num > 1 and hi - lo > 2e-5 * (1 + abs(hi)):
        h.check("the frontier collapses only when nothing is gained", False)
    h.assume(hi - lo > 1e-3)
    h.check("one column per requested point", W.shape == (len(mu), num))
    for k in range(1, num):
        t = lo + (hi - lo) * k / (num - 1)
        w = W[:, k]
        best, near = doc_solve(R, p, a, s, kw, t - 1e-7), doc_solve(R, p, a, s, kw, t - 1e-5)
        h.assume(best is not None, near is not None)
        h.assume(abs(value(h, near, R, p, a, kw) - value(h, best, R, p, a, kw)) <= 3e-5)
        h.check("every point obeys every rule", near_feasible(s.rows(w) + [(-dot(mu, w), -t + 1e-6, "le")]))
        h.check("no point is beaten at its target", h.le(value(h, w, R, p, a, kw), value(h, best, R, p, a, kw), 1e-4))


def failed(h):
    O = h.mod("optimization")
    R, p, a, s, kw = data(h, 3, 2, 0.25, "box", False)
    if h.symbolic:
        Capture(h, status={0: "unknown"})
    else:
        h.intercept("lp", lambda **k: {"status": "unknown", "x": np.ones(len(k["c"])) / 2, "primal objective": 0.0})
    e = raises(lambda: O.MeanCVaR(R, p, a, *s.args()).efficient_portfolio(), RuntimeError)
    h.check("an unsolved program is an error, not a portfolio", e is not None)


def wrapper(h, what, cost, alpha):
    """The portfolio wrapper hands over its scenarios, probabilities, constraints and proportional costs."""
    P = h.mod("portfolioapi")
    T, N = 3, 2
    R, p, a, s, kw = data(h, T, N, alpha or 0.05, "rows" if what == "target" else "box", cost)
    t = h.real("t", -1, 1)
    if h.symbolic:
        tame(h)
    W = P.PortfolioWrapper(P.AssetsDistribution(scenarios=R, probabilities=p))
    W.G, W.h, W.A, W.b = s.args()
    tc = P.TransactionCosts(**kw) if cost else None
    if cost == "own":
        W._apply_transaction_costs(tc)
    call = dict(costs=tc) if cost == "call" else {}
    if alpha:
        call["alpha"] = alpha
    if what == "target":
        run = lambda: vals(W.min_cvar_at_return(t, **call)[0])
    else:
        run = lambda: vals(W.cvar_frontier(2, **call).weights)
    if not h.symbolic:
        if what == "target":
            return compete(h, run, R, p, a, s, kw, t)
        return compete_frontier(h, run, R, p, a, s, kw, 2)
    cap = Capture(h, stop=1)
    raises(run, Done)
    mu = np.array([tot(q * x for q, x in zip(p, R[:, j])) for j in range(N)], dtype=object)
    sol = [c for c in cap.calls if not is_return_lp(h, c, mu)]
    if what == "target":
        check_program(h, sol[0], R, p, frac(a), s, kw, t, N)
    else:
        check_program(h, sol[0], R, p, frac(a), s, kw, None, N)


def cases(tier):
    th = tier == "thorough"
    J = 150
    cs = []
    for cons in ("none", "budget", "box", "ineq", "rows", "group"):
        for cost in (False, True):
            for target in (False, True):
                cs.append(Case(f"solve T3 N2 {cons}{' cost' if cost else ''}{' target' if target else ''}", solve,
                               dict(T=3, N=2, alpha=0.25, cons=cons, cost=cost, target=target), f"T=3, N=2, constraints '{cons}'", jitter=J))
    cs.append(Case("solve any level", solve, dict(T=2, N=2, alpha="any", cons="box", cost=True, target=True), "T=2, N=2, tail level in [0.01, 0.99]", jitter=J))
    for a in (0.05, 0.5, 0.9):
        cs.append(Case(f"solve level {a}", solve, dict(T=3, N=2, alpha=a, cons="box", cost=False, target=True), f"T=3, N=2, tail {a}", jitter=J))
    cs.append(Case("solve T2 N3", solve, dict(T=2, N=3, alpha=0.05, cons="rows", cost=True, target=True), "T=2, N=3", jitter=J))
    if th:
        cs.append(Case("solve T4 N3", solve, dict(T=4, N=3, alpha=0.25, cons="rows", cost=True, target=True), "T=4, N=3", jitter=J, budget=700, prove_ms=200000))
        cs.append(Case("solve T6 N2", solve, dict(T=6, N=2, alpha=0.05, cons="group", cost=True, target=True), "T=6, N=2", jitter=J, budget=700, prove_ms=200000))
    for w in ("initial_weights", "proportional_costs"):
        cs.append(Case("only " + w, lonely, dict(which=w), "T=3, N=2", jitter=J))
    for num, cons, cost in ((1, "box", False), (2, "box", False), (3, "rows", True), (4, "group", True)) + (((7, "ineq", True),) if th else ()):
        cs.append(Case(f"frontier {num} {cons}{' cost' if cost else ''}", frontier, dict(T=3, N=2, num=num, cons=cons, cost=cost), f"T=3, N=2, {num} points", jitter=J))
    cs.append(Case("failed solve", failed, {}, "T=3, N=2"))
    for what in ("target", "frontier"):
        for cost, alpha in ((None, None), ("own", 0.2), ("call", None)):
            cs.append(Case(f"wrapper {what} {cost or 'no'} cost", wrapper, dict(what=what, cost=cost, alpha=alpha), "T=3, N=2", jitter=J))
    return cs
