from checks.opt import *

ASSUMPTIONS = ["CVXOPT meets its contract: it returns a minimiser of the program it is given, or a non-optimal status",
               "the weights have a stated positive sum (budget row), or none is stated and the documented normalisation to one applies"]


def data(h, N, cons, total, rf):
    mu = h.reals("mu", N, -1, 1)
    cov = symm(h, "cov", N, -2, 2)
    if not h.symbolic:
        cov = pd_shift(cov)
    s = system(h, N, cons)
    S_ = h.const(1)
    if total == "s":                 # k * sum(w) = k * total
        S_ = h.real("total", Fraction(1, 5), 3)
        k = h.real("k", -2, 2)
        h.assume(bor(k > Fraction(1, 10), k < -Fraction(1, 10)))
        A, b = np.array(s.A, dtype=object if h.symbolic else float), np.array(s.b, dtype=object if h.symbolic else float)
        A[0, :] = [k] * N
        b[0] = k * S_
        s = Sys(s.G, s.h, A, b)
    if total == "last":              # budget row after the other rows
        s = Sys(s.G, s.h, np.asarray(s.A)[::-1], np.asarray(s.b)[::-1])
    if cons in ("rows", "eq"):
        a = s.A[0] if total == "last" else s.A[-1]
        h.assume(abs(a[0] - a[-1]) > Fraction(1, 100))
    r = h.real("rf", -Fraction(1, 2), Fraction(1, 2)) if rf else h.const(0)
    return mu, cov, s, S_, r


def doc_rows(s, S_, w):
    rows = s.rows(w)
    return rows if s.A is not None else rows + [(tot(w), S_, "eq")]


def sharpe(h, N, cons, total=None, rf=True):
    O = h.mod("optimization")
    mu, cov, s, S_, r = data(h, N, cons, total, rf)
    opt = O.MeanVariance(mu, cov, *s.args())
    run = (lambda: opt.max_sharpe(r)) if rf else (lambda: opt.max_sharpe())
    if not h.symbolic:
        return compete(h, run, mu, cov, s, S_, r)
    cap = Capture(h)
    box = []
    e = raises(lambda: box.append(run()), RuntimeError)
    h.check("one quadratic program is solved", len(cap.calls) == 1 and cap.calls[0].kind == "qp" and cap.calls[0].n == N)
    c = cap.calls[0]
    x = c.x
    sx = tot(x)
    if e is not None:
        h.check("a solution with positive total weight is returned", sx <= Fraction(1, 10**6))
        return
    out = box[0]
    w = np.ravel(vals(out.weights))
    h.check("only a solution with positive total weight is returned", sx > 0)
    h.check("the weights are the solution, rescaled to the total weight", h.all(*[h.eq(w[i] * sx, x[i] * S_) for i in range(N)]))
    h.check("the reported return is that of the weights", h.eq(out.nominal_return, dot(mu, w)))
    h.assume(quad(w, cov) >= 0)           # the covariance is positive semidefinite
    h.check("the reported risk is the volatility of the weights", h.all(h.ge(out.risk, 0), h.eq(out.risk * out.risk, quad(w, cov))))
    y = fresh_vec(h, "y", N)
    sy = tot(y)
    crow = c.rows(y)
    h.check("excess return is normalised to one", h.implies(holds(crow), h.eq(dot(mu - r, y), 1)))
    for l, rhs, k in doc_rows(s, S_, y):
        # the portfolio y * S / sum(y) obeys l <= rhs
        if fin(rhs):
            g = h.le(l * S_, rhs * sy) if k == "le" else h.eq(l * S_, rhs * sy)
            h.check("every stated rule is enforced", h.implies(band(holds(crow), sy > 0), g))
    t = h.real("t")
    h.assume(t > 0)                       # w = t*y is any feasible portfolio with excess return t
    full = band(*[(l * t <= rhs) if k == "le" else (l * t == rhs) for l, rhs, k in doc_rows(s, S_, y) if fin(rhs)], dot(mu - r, y) == 1)
    for l, rhs, k in crow:
        g = h.le(l, rhs) if k == "le" else h.eq(l, rhs)
        h.check("every feasible portfolio competes", h.implies(full, g))
    same_objective(h, "the variance is minimised", c, lambda z: quad(z, cov), N, y)


def best_ratio(mu, cov, s, S_, r):
    """Cornuejols-Tutuncu program with an explicit scale variable; 1/volatility of the optimum."""
    N = len(mu)
    P = np.zeros((N + 1, N + 1))
    P[:N, :N] = 2 * cov
    P[N, N] = 1e-9
    A = [np.append(mu - r, 0.0)]
    b = [1.0]
    if s.A is None:
        A.append(np.append(np.ones(N), -S_))
        b.append(0.0)
    else:
        A += [np.append(a, -q) for a, q in zip(s.A, s.b)]
        b += [0.0] * len(s.A)
    A, idx = independent(np.array(A, dtype=float), np.array(b, dtype=float))
    G = [np.append(np.zeros(N), -1.0)]
    if s.G is not None:
        G += [np.append(g, -q) for g, q in zip(s.G, s.h)]
    x = cvx(P, np.zeros(N + 1), np.array(G, dtype=float), np.zeros(len(G)), A, idx)
    return x


def independent(A, b):
    keep = []
    for i in range(len(A)):
        if np.linalg.matrix_rank(A[keep + [i]], tol=1e-9) == len(keep) + 1:
            keep.append(i)
    return A[keep], b[keep]


def compete(h, run, mu, cov, s, S_, r):
    N = len(mu)
    x = best_ratio(mu, cov, s, S_, r)
    if x is None or x[N] <= 1e-3:
        refused(h, run, lambda v: doc_rows(s, S_, v), N)
    h.assume(x[N] > max(1e-3, 0.02 * abs(x[:N]).max()), abs(x[:N]).max() < 50)    # a clearly positive total weight
    w0 = x[:N] / x[N]
    h.assume(near_feasible(doc_rows(s, S_, w0), 1e-6), dot(mu - r, w0) > 1e-3)
    try:
        out = run()
    except RuntimeError:
        h.check("a feasible maximum-Sharpe problem is solved", False)
    w = np.ravel(vals(out.weights))
    h.check("the portfolio obeys every rule", near_feasible(doc_rows(s, S_, w)))
    ratio = lambda v: dot(mu - r, v) / math.sqrt(quad(v, cov))
    h.check("no feasible portfolio has a higher Sharpe ratio", h.ge(ratio(w), ratio(w0), 1e-4))
    h.check("the reported return is that of the weights", h.eq(out.nominal_return, dot(mu, w)))
    h.check("the reported risk is the volatility of the weights", h.eq(out.risk, math.sqrt(quad(w, cov))))


def failed(h):
    O = h.mod("optimization")
    mu, cov, s, S_, r = data(h, 2, "box", None, True)
    opt = O.MeanVariance(mu, cov, *s.args())
    if h.symbolic:
        Capture(h, status={0: "unknown"})
    else:
        h.intercept("qp", lambda **k: {"status": "unknown", "x": np.ones(2) / 2})
    e = raises(lambda: opt.max_sharpe(r), O.InfeasibleOptimizationError)
    h.check("an unsolved problem is an error, not a portfolio", e is not None)


def reuse(h):
    """Asking for the Sharpe portfolio leaves the optimiser's own programs unchanged."""
    O = h.mod("optimization")
    mu, cov, s, S_, r = data(h, 2, "rows", None, True)
    opt = O.MeanVariance(mu, cov, *s.args())
    if not h.symbolic:
        a = compete(h, lambda: opt.max_sharpe(r), mu, cov, s, S_, r)
        return compete(h, lambda: opt.max_sharpe(r), mu, cov, s, S_, r)
    cap = Capture(h)
    raises(lambda: opt.max_sharpe(r), RuntimeError)
    opt.efficient_portfolio()
    z = fresh_vec(h, "z", 2)
    same_feasible(h, "later minimum-variance solve", cap.calls[-1], s.rows(z), z)
    same_objective(h, "later minimum-variance objective", cap.calls[-1], lambda v: quad(v, cov), 2, z)


def cases(tier):
    th = tier == "thorough"
    J = 200
    cs = []
    for N in (2, 3):
        for cons in ("none", "budget", "box", "rows", "group", "eq"):
            if N == 3 and not th and cons not in ("box", "group"):
                continue
            cs.append(Case(f"sharpe N{N} {cons}", sharpe, dict(N=N, cons=cons), f"N={N}, constraints '{cons}', symbolic risk-free rate", jitter=J))
    for cons in ("budget", "box", "rows", "group"):
        cs.append(Case(f"sharpe total {cons}", sharpe, dict(N=2, cons=cons, total="s", rf=False), "N=2, total weight in [0.2, 3], scaled budget row", jitter=J))
    cs.append(Case("sharpe budget row last", sharpe, dict(N=2, cons="rows", total="last"), "N=2", jitter=J))
    cs.append(Case("sharpe default rate", sharpe, dict(N=2, cons="box", rf=False), "N=2, no risk-free rate given", jitter=J))
    cs.append(Case("failed solve", failed, {}, "N=2"))
    cs.append(Case("reuse", reuse, {}, "N=2", jitter=J))
    return cs
