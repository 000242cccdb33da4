from checks.opt import *

ASSUMPTIONS = ["CVXOPT meets its contract: it returns a minimiser of the cone program it is given, or a non-optimal status",
               "numpy.linalg.cholesky returns the lower factor L with S = L L' (any positive definite S of the given size)"]


def data(h, N, cons, cost):
    mu = h.reals("mu", N, -1, 1)
    Sg, L = pd_matrix(h, "L", N)
    s = system(h, N, cons)
    kw = dict(initial_weights=h.reals("w0", N, -1, 1), proportional_costs=h.reals("fee", N, 0, 1)) if cost else {}
    if h.symbolic:
        h.stub("cholesky", lambda a: factor(h, a, Sg, L))
    return mu, Sg, s, kw


def fee(h, w, kw):
    if not kw:
        return 0
    return tot(c * abs(x - y) for c, x, y in zip(kw["proportional_costs"], w, kw["initial_weights"]))


def check_program(h, call, mu, Sg, s, kw, lam, cap2, N):
    n = N + 1 + (2 * N if kw else 0)
    if call.kind != "conelp" or call.n != n:
        raise sym.Unsupported("another program layout")
    z = fresh_vec(h, "z", n)
    w, t = z[:N], z[N]
    cones = call.cones(z)
    inc = [band(hd >= 0, tot(x * x for x in tl) <= hd * hd) for hd, tl in cones]
    lin = holds(call.rows(z))
    h.check("every stated rule is enforced", h.implies(lin, goal_rows(h, s.rows(w))))
    if cap2 is not None:
        h.check("the radius cap is enforced", h.implies(band(lin, *inc), h.le(t * t, cap2)))
    h.check("the radius covers the uncertainty norm", h.implies(band(*inc), h.all(h.ge(t, 0), h.ge(t * t, quad(w, Sg)))))
    obj = -dot(mu, w) + lam * t
    if kw:
        up, dn = z[N + 1:2 * N + 1], z[2 * N + 1:]
        obj = obj + tot(f * (x + y) for f, x, y in zip(kw["proportional_costs"], up, dn))
        for i in range(N):
            d = w[i] - kw["initial_weights"][i]
            h.check("the objective is never below the documented one", h.implies(lin, h.all(h.ge(up[i] + dn[i], d), h.ge(up[i] + dn[i], -d))))
    h.check("the objective is never below the documented one", h.eq(call.objective(z), obj))
    w2 = fresh_vec(h, "w", N)
    r = h.real("radius")
    h.assume(r >= 0, r * r >= quad(w2, Sg))
    if cap2 is not None:
        h.assume(r * r <= cap2)
    lift = list(w2) + [r]
    if kw:
        d = [x - y for x, y in zip(w2, kw["initial_weights"])]
        lift += [(abs(x) + x) / 2 for x in d] + [(abs(x) - x) / 2 for x in d]
    lift = np.array(lift, dtype=object)
    h.check("every feasible portfolio competes", h.implies(holds(s.rows(w2)), goal_rows(h, call.rows(lift))))
    for hd, tl in call.cones(lift):
        h.check("every feasible portfolio competes", h.all(h.ge(hd, 0), h.le(tot(x * x for x in tl), hd * hd)))
    h.check("the documented objective is attained", h.eq(call.objective(lift), -dot(mu, w2) + lam * r + fee(h, w2, kw)))


def root(Sg):
    ev, Q = np.linalg.eigh(Sg)
    return (Q * np.sqrt(np.maximum(ev, 0))) @ Q.T


def doc_solve(mu, Sg, s, kw, lam, cap2):
    from cvxopt import matrix, solvers
    N = len(mu)
    e = 2 * N if kw else 0
    n = N + 1 + e
    c = np.concatenate([-mu, [lam]] + ([kw["proportional_costs"]] * 2 if kw else []))
    pad = lambda M: np.hstack([M, np.zeros((len(M), n - N))])
    G, hh = np.zeros((0, n)), np.zeros(0)
    if s.G is not None:
        G, hh = pad(s.G), np.array(s.h, dtype=float)
    if kw:
        G, hh = np.vstack([G, np.hstack([np.zeros((e, N + 1)), -np.eye(e)])]), np.append(hh, np.zeros(e))
    if cap2 is not None:
        G, hh = np.vstack([G, np.eye(1, n, N)]), np.append(hh, math.sqrt(cap2))
    l = len(G)
    C = np.zeros((N + 1, n))
    C[0, N] = -1
    C[1:, :N] = -root(Sg)
    G, hh = np.vstack([G, C]), np.append(hh, np.zeros(N + 1))
    A, b = (pad(s.A), np.asarray(s.b)) if s.A is not None else (np.zeros((0, n)), np.zeros(0))
    if kw:
        A, b = np.vstack([A, np.hstack([np.eye(N), np.zeros((N, 1)), -np.eye(N), np.eye(N)])]), np.append(b, kw["initial_weights"])
    m = lambda x: matrix(np.asarray(x, dtype=float))
    try:
        sol = solvers.conelp(m(c), m(G), m(hh), {"l": l, "q": [N + 1], "s": []}, m(A) if len(A) else None, m(b) if len(A) else None)
    except (ValueError, ArithmeticError, TypeError):
        return None
    return np.asarray(sol["x"]).ravel()[:N] if sol["status"] == "optimal" else None


def norm(w, Sg):
    return math.sqrt(max(quad(w, Sg), 0))


def compete(h, run, mu, Sg, s, kw, lam, cap2, report=True):
    best = doc_solve(mu, Sg, s, kw, lam, cap2)
    if best is None:
        refused(h, run, s.rows, len(mu))
    try:
        out = run()
    except RuntimeError:
        # interior-point runs may give up on badly scaled inputs, loudly; not what is claimed here
        h.assume(False)
    w = np.ravel(vals(out.weights))
    h.assume(np.abs(w).max() < 20)
    h.check("the portfolio obeys every rule", near_feasible(s.rows(w)))
    if cap2 is not None:
        h.check("the portfolio obeys the radius cap", norm(w, Sg) <= math.sqrt(cap2) + TOL)
    val = lambda x: -dot(mu, x) + lam * norm(x, Sg) + fee(h, x, kw)
    h.check("the portfolio is not beaten", h.le(val(w), val(best), 1e-4))
    if report:
        h.check("the reported return is that of the weights", h.eq(out.nominal_return, dot(mu, w)))
        h.check("the reported radius is that of the weights", h.eq(out.risk, norm(w, Sg), 1e-4))


def params(h, mode):
    lam = h.real("lam", 0, 3)
    if mode == "zero":
        lam = 0.0
    cap2 = h.real("cap2", Fraction(1, 20), 9) if mode in ("gamma", "zero gamma") else None
    if mode == "zero gamma":
        lam = 0.0
    return lam, cap2


def solve(h, N, cons, cost, mode):
    O = h.mod("optimization")
    mu, Sg, s, kw = data(h, N, cons, cost)
    lam, cap2 = params(h, mode)
    cap = Capture(h) if h.symbolic else None
    opt = O.RobustOptimizer(mu, Sg, *s.args(), **kw)
    run = (lambda: opt.solve_lambda_variant(lam)) if cap2 is None else (lambda: opt.solve_gamma_variant(lam, cap2))
    if not h.symbolic:
        return compete(h, run, mu, Sg, s, kw, lam, cap2)
    out = run()
    h.check("one cone program is solved", len(cap.calls) == 1)
    c = cap.calls[0]
    check_program(h, c, mu, Sg, s, kw, lam, cap2, N)
    w = np.ravel(vals(out.weights))
    h.check("the solver's weights are returned", h.eq(w, c.x[:N]))
    h.check("the reported return is that of the weights", h.eq(out.nominal_return, dot(mu, w)))
    if mode == "lambda":       # the radius variable is pressed onto the cone by a positive penalty
        h.assume(lam > 0, c.x[N] >= 0, c.x[N] * c.x[N] == quad(w, Sg))
    h.check("the reported radius is that of the weights", h.all(h.ge(out.risk, 0), h.eq(out.risk * out.risk, quad(w, Sg))))


def frontier(h, cost):
    """One solve per penalty, in order."""
    O = h.mod("optimization")
    N = 2
    mu, Sg, s, kw = data(h, N, "box", cost)
    lams = [0.0, h.real("l1", Fraction(1, 100), 1), h.real("l2", Fraction(1, 100), 3)]
    cap = Capture(h) if h.symbolic else None
    opt = O.RobustOptimizer(mu, Sg, *s.args(), **kw)
    if not h.symbolic:
        h.assume(doc_solve(mu, Sg, s, kw, 0.0, None) is not None)
        rets, risks, W = opt.efficient_frontier(lams)
        for k, l in enumerate(lams):
            compete(h, lambda: type("R", (), dict(weights=W[:, k], nominal_return=rets[k], risk=risks[k]))(), mu, Sg, s, kw, l, None)
        return
    rets, risks, W = opt.efficient_frontier(lams)
    h.check("one solve per penalty", len(cap.calls) == 3 and len(rets) == 3 and len(risks) == 3 and vals(W).shape == (N, 3))
    for k, l in enumerate(lams):
        c = cap.calls[k]
        h.check("columns are in the order of the penalties", h.eq(vals(W)[:, k], c.x[:N]))
        check_program(h, c, mu, Sg, s, kw, l, None, N)
        h.check("the reported return is that of the weights", h.eq(rets[k], dot(mu, vals(W)[:, k])))


def guards(h):
    O = h.mod("optimization")
    mu, Sg, s, kw = data(h, 2, "box", True)
    neg = h.real("neg", -2, -Fraction(1, 1000))
    ok = h.real("ok", 0, 2)
    if h.symbolic:
        Capture(h, status={0: "unknown"})
    else:
        h.intercept("conelp", lambda **k: {"status": "unknown", "x": np.ones(len(k["c"])) / 2})
    opt = O.RobustOptimizer(mu, Sg, *s.args())
    h.check("a negative penalty is refused", raises(lambda: opt.solve_lambda_variant(neg), ValueError) is not None)
    h.check("a negative weight is refused", raises(lambda: opt.solve_gamma_variant(neg, ok), ValueError) is not None)
    h.check("a negative cap is refused", raises(lambda: opt.solve_gamma_variant(ok, neg), ValueError) is not None)
    h.check("an unsolved program is an error, not a portfolio", raises(lambda: opt.solve_lambda_variant(ok), RuntimeError) is not None)
    h.check("mismatched costs are refused", raises(lambda: O.RobustOptimizer(mu, Sg, *s.args(), initial_weights=kw["initial_weights"], proportional_costs=kw["proportional_costs"][:1]), ValueError) is not None)


def lonely(h, which):
    O = h.mod("optimization")
    mu, Sg, s, kw = data(h, 2, "box", True)
    lam, _ = params(h, "lambda")
    cap = Capture(h) if h.symbolic else None
    run = lambda: O.RobustOptimizer(mu, Sg, *s.args(), **{which: kw[which]}).solve_lambda_variant(lam)
    if not h.symbolic:
        return compete(h, run, mu, Sg, s, {}, lam, None)
    run()
    check_program(h, cap.calls[0], mu, Sg, s, {}, lam, None, 2)


def wrapper(h, what, cost):
    """The wrapper hands over its posterior mean, uncertainty matrix, constraints and costs."""
    P = h.mod("portfolioapi")
    N = 2
    own = what.endswith("scatter")   # the uncertainty matrix differs from the return covariance
    what = what.replace("gamma scatter", "gamma")
    mu, Sg, s, kw = data(h, N, "box" if what != "gamma" else "group", cost)
    lam, cap2 = params(h, "gamma" if what == "gamma" else "lambda")
    cov = Sg
    if h.symbolic:
        tame(h)
        h.stub("eigvalsh", lambda a: np.array([S(1)] * N, dtype=object))
    if own:
        cov = h.const(np.array([[0.04, 0.01], [0.01, 0.09]]))
    W = P.PortfolioWrapper(P.AssetsDistribution(mu=mu, cov=cov))
    if own:
        W._uncertainty_cov = Sg
    W.G, W.h, W.A, W.b = s.args()
    tc = P.TransactionCosts(**kw) if cost else None
    if cost == "own":
        W._apply_transaction_costs(tc)
    call = dict(costs=tc) if cost == "call" else {}
    cap = Capture(h) if h.symbolic else None
    if what == "gamma":
        run = lambda: W.solve_robust_gamma_portfolio(lam, cap2, **call)[0]
    else:
        grid = {"lambdas": [0.5, lam]} if what in ("lambdas", "scatter") else {"num_portfolios": 3, "max_lambda": lam}
        run = lambda: W.robust_lambda_frontier(**grid, **call)
        want = [0.5, lam] if what in ("lambdas", "scatter") else [0.0, lam / 2, lam]
    if what == "grid":
        h.assume(lam > Fraction(1, 100))
    if not h.symbolic:
        if what == "gamma":
            return compete(h, lambda: type("R", (), dict(weights=run()))(), mu, Sg, s, kw, lam, cap2, report=False)
        h.assume(doc_solve(mu, Sg, s, kw, 0.0, None) is not None)
        f = run()
        M, got = vals(f.weights), [m["lambda"] for m in f.metadata]
        h.check("every requested penalty is solved once", len(got) == len(want) and np.allclose(sorted(got), sorted(want)))
        for k, l in enumerate(got):
            compete(h, lambda: type("R", (), dict(weights=M[:, k]))(), mu, Sg, s, kw, l, None, report=False)
        return
    if what == "gamma":
        run()
        h.check("one program is solved", len(cap.calls) == 1)
        return check_program(h, cap.calls[0], mu, Sg, s, kw, lam, cap2, N)
    f = run()
    out = vals(f.weights)
    h.check("one solve per penalty", len(cap.calls) == len(want) and out.shape == (N, len(want)) and len(f.metadata) == len(want))
    seen = set()
    for k in range(len(want)):
        i = next((i for i in range(len(want)) if i not in seen and all(sym._iszero((S.of(u) - v).t) for u, v in zip(out[:, k], cap.calls[i].x))), None)
        h.check("every column is one of the solutions", i is not None)
        seen.add(i)
        l = Fraction(want[i]) if isinstance(want[i], float) else want[i]
        h.check("every column carries its own penalty", h.eq(f.metadata[k]["lambda"], l))
        check_program(h, cap.calls[i], mu, Sg, s, kw, l, None, N)


def cases(tier):
    th = tier == "thorough"
    J = 150
    cs = []
    for cons in ("none", "budget", "box", "ineq", "rows", "group"):
        for cost in (False, True):
            for mode in ("lambda", "gamma"):
                cs.append(Case(f"solve N2 {cons}{' cost' if cost else ''} {mode}", solve, dict(N=2, cons=cons, cost=cost, mode=mode), f"N=2, constraints '{cons}'", jitter=J))
    for mode in ("zero", "zero gamma"):
        cs.append(Case(f"solve {mode}", solve, dict(N=2, cons="box", cost=True, mode=mode), "N=2, zero penalty", jitter=J))
    for N in (3,) + ((4,) if th else ()):
        for mode in ("lambda", "gamma"):
            cs.append(Case(f"solve N{N} {mode}", solve, dict(N=N, cons="rows", cost=True, mode=mode), f"N={N}", jitter=J))
    for cost in (False, True):
        cs.append(Case(f"frontier{' cost' if cost else ''}", frontier, dict(cost=cost), "N=2, three penalties", jitter=J))
    cs.append(Case("guards", guards, {}, "N=2"))
    for w in ("initial_weights", "proportional_costs"):
        cs.append(Case("only " + w, lonely, dict(which=w), "N=2", jitter=J))
    for what in ("lambdas", "grid", "scatter", "gamma", "gamma scatter"):
        for cost in (None, "own", "call"):
            if cost and what in ("grid", "scatter", "gamma scatter"):
                continue
            cs.append(Case(f"wrapper {what} {cost or 'no'} cost", wrapper, dict(what=what, cost=cost), "N=2", jitter=J))
    return cs
