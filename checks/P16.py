from checks.opt import *
from engine import facades

ASSUMPTIONS = ["CVXOPT meets its contract: it returns a minimiser of the program it is given, or a non-optimal status",
               "numpy/scipy cholesky returns the lower factor L with S = L L' (any positive definite S of the given size)",
               "decision vector laid out as documented: weights, marginal risks, ceiling, floor, regulator, auxiliary norm"]


def data(h, N, cons, budgets):
    mu = h.reals("mu", N, -1, 1)
    Sg, L = pd_matrix(h, "L", N)
    s = system(h, N, cons)
    rb = h.reals("rb", N, Fraction(1, 20), 2) if budgets else None
    if budgets:                   # sums within rounding of one are taken as they are
        h.assume(bor(tot(rb) == 1, abs(tot(rb) - 1) > Fraction(1, 1000)) if h.symbolic else True)
    b = [x / tot(rb) for x in rb] if budgets else [Fraction(1, N) if h.symbolic else 1.0 / N] * N
    if h.symbolic:
        h.stub("cholesky", lambda a: factor(h, a, Sg, L))
    return mu, Sg, s, rb, b


def full_rows(s, w):
    """The linear rules of the weights: the user's, long-only and fully invested."""
    rows = s.rows(w) + [(-x, 0, "le") for x in w]
    if s.A is None:
        rows.append((tot(w), 1, "eq"))
    return rows


def mv(Sg, x):
    return [dot(r, x) for r in Sg]


def check_lp(h, call, mu, s, N):
    if call.kind != "lp" or call.n != N:
        raise sym.Unsupported("another program layout")
    w = fresh_vec(h, "v", N)
    same_feasible(h, "the attainable maximum", call, full_rows(s, w), w)
    same_objective(h, "the attainable maximum: objective", call, lambda x: -dot(mu, x), N, w)


def same(x, y):
    x, y = np.ravel(vals(x)), np.ravel(vals(y))
    return len(x) == len(y) and all(sym._iszero((S.of(u) - v).t) for u, v in zip(x, y))


def like_direct(h, call, mu, Sg, s, rb, lam, target, N):
    """Entry by entry the program the optimiser itself poses (plus the target row), which the solve cases decide."""
    O = h.mod("optimization")
    old = [(k, facades.HOOKS.get(k)) for k in ("conelp", "lp", "qp")]
    ref = Capture(h)
    O.RelaxedRiskParity(mu, Sg, *s.args(), risk_budgets=rb).solve(lambda_reg=lam)
    for k, f in old:
        facades.HOOKS[k] = f
    a, b = call.k, ref.calls[-1].k
    da, db = a["dims"], b["dims"]
    m, extra = int(db["l"]), 0 if target is None else 1
    if list(da["q"]) != list(db["q"]) or int(da["l"]) != m + extra or len(ref.calls) != 1:
        return False
    Ga, ha, Gb, hb = vals(a["G"]), np.ravel(vals(a["h"])), vals(b["G"]), np.ravel(vals(b["h"]))
    if extra and not (same(Ga[m], list(-mu) + [0] * (N + 4)) and same([ha[m]], [-target])):
        return False
    Ga, ha = np.delete(Ga, np.s_[m:m + extra], 0), np.delete(ha, np.s_[m:m + extra])
    return same(Ga, Gb) and same(ha, hb) and all(same(a[k], b[k]) for k in ("c", "A", "b"))


def check_program(h, call, mu, Sg, s, b, lam, target, N, rb=False):
    n = 2 * N + 4
    if call.kind != "conelp" or call.n != n:
        raise sym.Unsupported("another program layout")
    if rb is not False and like_direct(h, call, mu, Sg, s, rb, lam, target, N):
        h.check("the program is the optimiser's own", True)
        return
    z = fresh_vec(h, "z", n)
    x, ze, (psi, ga, rho, q) = z[:N], z[N:2 * N], z[2 * N:]
    cones = call.cones(z)
    inc = [band(hd >= 0, tot(t * t for t in tl) <= hd * hd) for hd, tl in cones]
    lin = holds(call.rows(z))
    L = "every stated rule is enforced"
    h.check(L, h.implies(lin, goal_rows(h, full_rows(s, x))))
    h.check(L, h.implies(lin, h.all(*[h.eq(a, m) for a, m in zip(ze, mv(Sg, x))])))
    h.check(L, h.implies(lin, h.all(*[h.ge(v, 0) for v in (psi, ga, rho)])))
    if target is not None:
        h.check("the return target is enforced", h.implies(lin, h.ge(dot(mu, x), target)))
    vx = quad(x, Sg)
    every = band(*inc, psi >= 0, rho >= 0, q >= 0)
    h.check("the auxiliary variable dominates the volatility", h.implies(band(*inc), h.all(h.ge(q, 0), h.ge(q * q, vx))))
    h.check("the ceiling dominates volatility and regulator", h.implies(every, h.ge(N * psi * psi, q * q + N * rho * rho)))
    diag = tot(Sg[i, i] * x[i] * x[i] for i in range(N))
    h.check("the regulator dominates the diagonal penalty", h.implies(every, h.ge(rho * rho, lam * diag)))
    for i in range(N):
        h.check("every risk contribution carries its budget share of the floor", h.implies(every, h.ge(x[i] * ze[i], b[i] * ga * ga)))
    h.check("the gap between ceiling and floor is minimised", h.eq(call.objective(z), psi - ga))
    # conversely every documented point is a point of the program
    w = fresh_vec(h, "w", N)
    p, g, r = h.real("ceil"), h.real("floor"), h.real("reg")
    zt = mv(Sg, w)
    vw = quad(w, Sg)
    nrm = sq(h, vw)
    lift = np.array(list(w) + zt + [p, g, r, nrm], dtype=object)
    rules = full_rows(s, w) + [(-v, 0, "le") for v in zt + [p, g, r]]
    if target is not None:
        rules.append((target, dot(mu, w), "le"))
    h.check("every admissible portfolio competes", h.implies(holds(rules), goal_rows(h, call.rows(lift))))
    dg = tot(Sg[i, i] * w[i] * w[i] for i in range(N))
    h.assume(*[v >= 0 for v in list(w) + zt + [p, g, r]], N * p * p >= vw + N * r * r, r * r >= lam * dg,
             *[w[i] * zt[i] >= b[i] * g * g for i in range(N)])
    for hd, tl in call.cones(lift):
        h.check("every admissible portfolio competes", h.all(h.ge(hd, 0), h.le(tot(t * t for t in tl), hd * hd)))


def check_target(h, used, t, top, low):
    """The requested target, clipped to the attainable maximum, not below the floor."""
    tol = smax(S.of(Fraction(1, 10**8)), abs(top) / 1000) if h.symbolic else max(1e-8, abs(top) / 1000)
    mx = (lambda a: a if low is None else (smax(a, low) if h.symbolic else max(a, low)))
    h.check("an attainable target is imposed as requested", h.implies(t < top - tol, h.eq(used, mx(t))))
    h.check("an unattainable target is clipped to the maximum", h.implies(t >= top - tol, h.all(h.le(used, mx(top)), h.ge(used, mx(top - tol)))))


# ------------------------------------------------------------------ replay
def root(Sg):
    ev, Q = np.linalg.eigh(Sg)
    return (Q * np.sqrt(np.maximum(ev, 0))) @ Q.T


def doc_solve(mu, Sg, s, b, lam, target):
    """Documented program with the marginal risks eliminated: variables weights, ceiling, floor, regulator."""
    from cvxopt import matrix, solvers
    N = len(mu)
    n = N + 3
    c = np.concatenate([np.zeros(N), [1, -1, 0]])
    lin, rhs, A, bb = [], [], [], []
    e = np.eye(N)
    base = full_rows(s, np.zeros(N))
    cols = [full_rows(s, u) for u in e]
    for i, (l0, r, k) in enumerate(base):
        row = np.concatenate([[cl[i][0] - l0 for cl in cols], np.zeros(3)])
        (lin if k == "le" else A).append(row)
        (rhs if k == "le" else bb).append(r)
    for i in range(N):
        lin.append(np.concatenate([-Sg[i], np.zeros(3)])); rhs.append(0)
    for j in range(3):
        lin.append(-np.eye(n)[N + j]); rhs.append(0)
    if target is not None:
        lin.append(np.concatenate([-mu, np.zeros(3)])); rhs.append(-target)
    G, dims = [np.array(lin)], []

    def cone(head, *tail):
        G.append(-np.vstack([head, *tail]))
        dims.append(1 + sum(np.atleast_2d(t).shape[0] for t in tail))
    pad = lambda M: np.hstack([M, np.zeros((len(M), 3))])
    u = np.eye(n)
    cone(u[N], pad(root(Sg)) / math.sqrt(N), u[N + 2])
    if lam > 0:
        cone(u[N + 2], pad(math.sqrt(lam) * np.diag(np.sqrt(np.diag(Sg)))))
    for i in range(N):
        m = np.concatenate([Sg[i], np.zeros(3)])
        cone(u[i] + m, 2 * math.sqrt(b[i]) * u[N + 1], u[i] - m)
    G = np.vstack(G)
    hh = np.concatenate([rhs, np.zeros(sum(dims))])
    m = lambda x: matrix(np.asarray(x, dtype=float))
    try:
        sol = solvers.conelp(m(c), m(G), m(hh), {"l": len(lin), "q": dims, "s": []}, m(np.array(A)), m(np.array(bb)))
    except (ValueError, ArithmeticError, TypeError):
        return None
    return np.asarray(sol["x"]).ravel()[:N] if sol["status"] == "optimal" else None


def parts(w, Sg, b, lam):
    rho = math.sqrt(lam * float(np.diag(Sg) @ (w * w)))
    psi = math.sqrt(max(quad(w, Sg), 0) / len(w) + rho * rho)
    ga = math.sqrt(min(max(w[i] * mv(Sg, w)[i], 0) / b[i] for i in range(len(w))))
    return psi, ga, rho


def attainable(mu, s):
    from scipy.optimize import linprog
    N = len(mu)
    base, cols = full_rows(s, np.zeros(N)), [full_rows(s, u) for u in np.eye(N)]
    pick = lambda kind: [(np.array([c[i][0] - l0 for c in cols]), r) for i, (l0, r, k) in enumerate(base) if k == kind]
    le, eq = pick("le"), pick("eq")
    res = linprog(-np.asarray(mu), np.array([a for a, _ in le]), np.array([r for _, r in le]), np.array([a for a, _ in eq]), np.array([r for _, r in eq]), bounds=[(None, None)] * N)
    return -res.fun if res.status == 0 else None


def compete(h, run, mu, Sg, s, b, lam, t=None, low=None, report=True):
    N = len(mu)
    if infeasible(lambda w: full_rows(s, w), N):
        h.check("an infeasible program yields no portfolio", raises(run, (RuntimeError, ValueError, ArithmeticError)) is not None)
        h.assume(False)
    top = attainable(mu, s) if t is not None else None
    target = None
    if t is not None:
        h.assume(top is not None)
        target = min(t, top - max(1e-8, 1e-3 * abs(top)))
        if low is not None:
            target = max(target, low)
        h.assume(target <= top + 1e-9)
    best = doc_solve(mu, Sg, s, b, lam, target)
    h.assume(best is not None)
    try:
        out = run()
    except RuntimeError:
        h.assume(False)
    w = np.ravel(vals(out.weights))
    h.check("the portfolio obeys every rule", near_feasible(full_rows(s, w)))
    if target is not None:
        h.check("the portfolio reaches the target", dot(mu, w) >= target - 1e-5)
    psi, ga, rho = parts(w, Sg, b, lam)
    B_ = parts(best, Sg, b, lam)
    h.check("the portfolio is not beaten", psi - ga <= B_[0] - B_[1] + 3e-4)
    if report:
        if t is not None:
            check_target(h, out.target_return, t, top, low)
            h.check("the attainable maximum is reported", h.eq(out.max_return, top, 1e-5))
        h.check("marginal risks belong to the weights", h.eq(out.marginal_risk, np.array(mv(Sg, w)), 1e-5))
        h.check("the reported objective is the gap", h.eq(out.objective, out.psi - out.gamma))
        h.check("the reported ceiling, floor and regulator belong to the weights", abs(out.psi - psi) < 5e-3 and abs(out.gamma - ga) < 5e-3 and abs(out.rho - rho) < 5e-3)


# ------------------------------------------------------------------ harnesses
def solve(h, N, cons, lam="pos", target=False, low=False, budgets=False):
    O = h.mod("optimization")
    mu, Sg, s, rb, b = data(h, N, cons, budgets)
    lm = h.real("lam", Fraction(1, 100), 2) if lam == "pos" else 0.0
    t = h.real("t", -1, 1) if target else None
    m = h.real("low", -1, 1) if low else None
    cap = Capture(h) if h.symbolic else None
    opt = O.RelaxedRiskParity(mu, Sg, *s.args(), **(dict(risk_budgets=rb) if budgets else {}))
    run = lambda: opt.solve(lambda_reg=lm, return_target=t, min_target=m)
    if not h.symbolic:
        return compete(h, run, mu, Sg, s, b, lm, t, m)
    out = run()
    if target:
        h.check("the attainable maximum is computed, then one cone program is solved", len(cap.calls) == 2)
        check_lp(h, cap.calls[0], mu, s, N)
        top = dot(mu, cap.calls[0].x)
        h.check("the attainable maximum is reported", h.eq(out.max_return, top))
        check_target(h, out.target_return, t, top, m)
    else:
        h.check("one cone program is solved", len(cap.calls) == 1)
        h.check("no target is reported", out.target_return is None and out.max_return is None)
    c = cap.calls[-1]
    result(h, out, c, N)
    check_program(h, c, mu, Sg, s, b, lm, out.target_return, N)


def result(h, out, c, N):
    h.check("the solver's answer is reported", h.all(h.eq(out.weights, c.x[:N]), h.eq(out.marginal_risk, c.x[N:2 * N]), h.eq(out.psi, c.x[2 * N]),
                                                     h.eq(out.gamma, c.x[2 * N + 1]), h.eq(out.rho, c.x[2 * N + 2])))
    h.check("the reported objective is the gap", h.eq(out.objective, out.psi - out.gamma))


def clip(h, low):
    """Requested target against the attainable maximum, whatever the solvers answer."""
    O = h.mod("optimization")
    mu, Sg, s, rb, b = data(h, 2, "box", False)
    t = h.real("t", -1, 1)
    m = h.real("low", -1, 1) if low else None
    v = h.reals("v", 2, 0, 1)
    h.assume(v[0] + v[1] == 1 if h.symbolic else True)
    sols = []
    if h.symbolic:
        cap = Capture(h, answers={0: v})
    else:
        v = v / max(v.sum(), 1e-9)

        def answer(k, c, **_):
            x = v if k == "lp" else np.ones(len(c)) / 2
            sols.append(_)
            return {"status": "optimal", "x": x, "primal objective": float(np.ravel(c)[:len(x)] @ x)}
        h.intercept("lp", lambda **k: answer("lp", **k))
        h.intercept("conelp", lambda **k: answer("conelp", **k))
    out = O.RelaxedRiskParity(mu, Sg, *s.args()).solve(lambda_reg=0.5, return_target=t, min_target=m)
    k = cap.calls[-1].k if h.symbolic else sols[-1]
    check_target(h, out.target_return, t, dot(mu, v), m)
    h.check("the attainable maximum is reported", h.eq(out.max_return, dot(mu, v)))
    G, hh = vals(k["G"]), np.ravel(vals(k["h"]))
    i = int(k["dims"]["l"]) - 1
    if same_row(h, G[i], list(-mu) + [0] * 6):
        h.check("the reported target is the one imposed", h.eq(hh[i], -out.target_return))


def same_row(h, x, y):
    return same(x, y) if h.symbolic else np.allclose(np.asarray(x, float), np.asarray(y, float))


def guards(h):
    O = h.mod("optimization")
    mu, Sg, s, rb, b = data(h, 2, "box", True)
    neg, ok, t = h.real("neg", -2, -Fraction(1, 1000)), h.real("ok", 0, 2), h.real("t", -1, 1)
    bad = h.real("bad", -1, 0)
    if h.symbolic:
        Capture(h, status={0: "unknown", 1: "unknown", 2: "unknown"})
    else:
        for k in ("conelp", "lp"):
            h.intercept(k, lambda **k: {"status": "unknown", "x": np.ones(len(k["c"])) / 2, "primal objective": 0.0})
    opt = O.RelaxedRiskParity(mu, Sg, *s.args())
    h.check("a negative regulator is refused", raises(lambda: opt.solve(lambda_reg=neg), ValueError) is not None)
    h.check("an unsolved program is an error, not a portfolio", raises(lambda: opt.solve(lambda_reg=ok), RuntimeError) is not None)
    h.check("an unsolved maximum is an error", raises(lambda: opt.solve(return_target=t), RuntimeError) is not None)
    for z in (np.array([bad, 1], dtype=object if h.symbolic else float), np.array([1, bad], dtype=object if h.symbolic else float), rb[:1]):
        h.check("improper budgets are refused", raises(lambda: O.RelaxedRiskParity(mu, Sg, risk_budgets=z), ValueError) is not None)
    for z in (float("nan"), float("inf")):
        h.check("a non-finite target is refused", raises(lambda: opt.solve(return_target=z), ValueError) is not None)
    h.check("mismatched sizes are refused", raises(lambda: O.RelaxedRiskParity(mu[:1], Sg), ValueError) is not None)


def wrapper(h, how, budgets=False, call_rules=False):
    """The wrapper anchors targets at the risk parity return and solves the documented program for each."""
    P = h.mod("portfolioapi")
    N = 2
    mu, Sg, s, rb, b = data(h, N, "box", budgets)
    lam = h.real("lam", Fraction(1, 100), 2)
    mult = h.real("mult", 0, 3)
    t = h.real("t", -1, 1)
    if h.symbolic:
        tame(h)
    W = P.PortfolioWrapper(P.AssetsDistribution(mu=mu, cov=Sg))
    W.G, W.h, W.A, W.b = s.args()
    kw = dict(risk_budgets=rb) if budgets else {}
    if not h.symbolic:
        rp = doc_solve(mu, Sg, s, b, 0.0, None)
        h.assume(rp is not None)
        low = max(float(dot(mu, rp)), 0.0)
        bad = watch(h)
        one = lambda w: (lambda: type("R", (), dict(weights=w))())
        if how == "frontier":
            h.assume(mult >= 1.01)
            f = W.relaxed_risk_parity_frontier(3, mult, lambda_reg=lam, **kw)
            h.assume(not bad)
            M = vals(f.weights)
            compete(h, one(M[:, 0]), mu, Sg, s, b, 0.0, report=False)
            for k, m in enumerate([1.0, (1 + mult) / 2, mult]):
                loose(h, M[:, k + 1], mu, Sg, s, b, lam, m * low, low)
            return
        if how == "list":
            f = W.relaxed_risk_parity_frontier(target_multipliers=[mult], include_risk_parity=False, lambda_reg=lam, **kw)
            h.assume(not bad)
            return loose(h, vals(f.weights)[:, 0], mu, Sg, s, b, lam, mult * low, low)
        if how == "pure":
            w = W.relaxed_risk_parity_portfolio(lambda_reg=0.0, target_multiplier=None, **kw)[0]
            return compete(h, one(vals(w)), mu, Sg, s, b, 0.0, report=False)
        arg = dict(return_target=t) if how == "target" else dict(target_multiplier=mult)
        if how == "default":
            arg, mult = {}, 1.2
        w, _, _, d = W.relaxed_risk_parity_portfolio_with_diagnostics(lambda_reg=lam, **arg, **kw)
        h.assume(not bad)
        return loose(h, vals(w), mu, Sg, s, b, lam, t if how == "target" else mult * low, low)
    cap = Capture(h)

    def anchor():
        c = cap.calls[0]
        check_program(h, c, mu, Sg, s, b, 0, None, N, rb)
        return smax(dot(mu, c.x[:N]), S(0))

    def step(k, asked, low, got, weights):
        h.check("each target needs its maximum and one program", len(cap.calls) > k + 1)
        lp, c = cap.calls[k], cap.calls[k + 1]
        check_lp(h, lp, mu, s, N)
        # a requested return below the risk parity return may be imposed as is or lifted to that return
        check_target_at_least(h, got, asked, dot(mu, lp.x), low)
        h.check("the solver's weights are returned", h.eq(weights, c.x[:N]))
        check_program(h, c, mu, Sg, s, b, lam, got, N, rb)
    if how in ("frontier", "list"):
        if how == "frontier":
            h.assume(mult >= 1)
            f = W.relaxed_risk_parity_frontier(3, mult, lambda_reg=lam, **kw)
            ms = [S(1), (1 + mult) / 2, mult]
        else:
            f = W.relaxed_risk_parity_frontier(target_multipliers=[mult], include_risk_parity=False, lambda_reg=lam, **kw)
            ms = [mult]
        M = vals(f.weights)
        off = M.shape[1] - len(ms)
        h.check("one column per multiplier, the anchor first", off == (1 if how == "frontier" else 0) and len(f.metadata) == M.shape[1])
        h.check("one solve per column", len(cap.calls) == 1 + 2 * len(ms))
        low = anchor()
        if off:
            h.check("the anchor is the risk parity portfolio", h.all(h.eq(M[:, 0], cap.calls[0].x[:N]), h.eq(f.metadata[0]["lambda_reg"], 0)))
        for k, m in enumerate(ms if how == "list" else ms[1:2]):
            j = k if how == "list" else 1
            md = f.metadata[off + j]
            h.check("every column carries its multiplier and target", h.all(h.eq(md["target_multiplier"], m), h.eq(md["requested_target"], m * low), h.eq(md["lambda_reg"], lam)))
            step(1 + 2 * j, m * low, low, md["effective_target"], M[:, off + j])
        for j in range(len(ms)):
            h.check("the solver's weights are returned", h.eq(M[:, off + j], cap.calls[2 + 2 * j].x[:N]))
        return
    if how == "pure":
        w, _, _, d = W.relaxed_risk_parity_portfolio_with_diagnostics(lambda_reg=0.0, target_multiplier=None, **kw)
        h.check("pure risk parity is one solve without target", len(cap.calls) == 1 and d["target_return"] is None)
        anchor()
        return h.check("the solver's weights are returned", h.eq(vals(w), cap.calls[0].x[:N]))
    arg = dict(return_target=t) if how == "target" else dict(target_multiplier=mult)
    if how == "default":
        arg, mult = {}, Fraction(6, 5)
    w, _, _, d = W.relaxed_risk_parity_portfolio_with_diagnostics(lambda_reg=lam, **arg, **kw)
    h.check("an anchor, a maximum and one program", len(cap.calls) == 3)
    low = anchor()
    asked = t if how == "target" else mult * low
    h.check("the requested target is reported", h.eq(d["requested_target"], asked))
    h.check("the anchor is reported", h.all(h.eq(d["risk_parity_weights"], cap.calls[0].x[:N]), h.eq(d["risk_parity_return"], dot(mu, cap.calls[0].x[:N]))))
    c = cap.calls[2]
    h.check("the reported quantities are the solver's", h.all(h.eq(d["psi"], c.x[2 * N]), h.eq(d["gamma"], c.x[2 * N + 1]), h.eq(d["rho"], c.x[2 * N + 2]),
            h.eq(d["marginal_risk"], c.x[N:2 * N]), h.eq(d["risk_contributions"], c.x[:N] * c.x[N:2 * N]), h.eq(d["objective"], c.x[2 * N] - c.x[2 * N + 1])))
    step(1, asked, low, d["target_return"], vals(w))


def check_target_at_least(h, used, t, top, low):
    tol = smax(S.of(Fraction(1, 10**8)), abs(top) / 1000)
    lifted = smax(t, low)
    h.check("an attainable target is imposed as requested", h.implies(band(t < top - tol, t >= low), h.eq(used, t)))
    h.check("a target is never weakened below the request", h.implies(t < top - tol, h.all(h.ge(used, t), h.le(used, lifted))))
    h.check("an unattainable target is clipped to the maximum", h.implies(t >= top - tol, h.all(h.le(used, smax(top, low)), h.ge(used, top - tol))))


def watch(h):
    """Replay: leave out runs in which the interior-point solver gives up."""
    from cvxopt import matrix, solvers
    real, bad = solvers.conelp, []

    def run(**k):
        m = lambda v: None if v is None else matrix(np.asarray(v, dtype=float))
        sol = real(m(k["c"]), m(k["G"]), m(k["h"].reshape(-1, 1)), {"l": int(k["dims"]["l"]), "q": [int(q) for q in k["dims"]["q"]], "s": []}, m(k["A"]), m(k["b"]))
        if sol["status"] != "optimal":
            bad.append(sol["status"])
        return sol
    h.intercept("conelp", run)
    return bad


def loose(h, w, mu, Sg, s, b, lam, asked, low):
    """Replay: unbeaten among portfolios with at least its own documented target."""
    top = attainable(mu, s)
    h.assume(top is not None)
    tol = max(1e-8, 1e-3 * abs(top))
    lo = min(asked, top - tol)
    hi = max(lo, low)
    h.assume(hi <= top - 1e-3 * abs(top) - 1e-3)
    h.check("the portfolio obeys every rule", near_feasible(full_rows(s, w)))
    h.check("the portfolio reaches the target", dot(mu, w) >= lo - 1e-5)
    best = doc_solve(mu, Sg, s, b, lam, hi)
    h.assume(best is not None)
    p, q = parts(w, Sg, b, lam), parts(best, Sg, b, lam)
    h.check("the portfolio is not beaten", p[0] - p[1] <= q[0] - q[1] + 3e-4)
    if asked >= low:
        return
    best = doc_solve(mu, Sg, s, b, lam, lo)


def backtrack(h, fails):
    """Failed solves move the target halfway to the risk parity return, at most eight times, then drop it."""
    P = h.mod("portfolioapi")
    N = 2
    mu, Sg, s, rb, b = data(h, N, "box", False)
    lam = h.real("lam", Fraction(1, 100), 2)
    t = h.real("t", 0, 1)
    if not h.symbolic:
        h.assume(False)
    tame(h)
    W = P.PortfolioWrapper(P.AssetsDistribution(mu=mu, cov=Sg))
    W.G, W.h, W.A, W.b = s.args()
    h.assume(mu[0] > mu[1])
    top = [S(1), S(0)]
    status = {2 + 2 * k: "unknown" for k in range(min(fails, 8))}
    cap = Capture(h, answers={0: [S(Fraction(1, 2))] * 2, **{1 + 2 * k: top for k in range(8)}}, status=status)
    low = smax((mu[0] + mu[1]) / 2, S(0))
    h.assume(t > low + Fraction(1, 50), t < mu[0] - Fraction(1, 50))
    w, _, _, d = W.relaxed_risk_parity_portfolio_with_diagnostics(lambda_reg=lam, return_target=t)
    c = cap.calls[-1]
    h.check("the solver's weights are returned", h.eq(vals(w), c.x[:N]))
    if fails >= 8:
        h.check("without a solvable target the portfolio is the untargeted one", d["target_return"] is None and d["solver_warning"] is not None)
    else:
        h.check("the requested target is reported", h.eq(d["requested_target"], t))
        h.check("a failed target is relaxed towards the risk parity return", h.all(h.ge(d["target_return"], low), h.le(d["target_return"], t)))
    check_program(h, c, mu, Sg, s, b, lam, d["target_return"], N, rb)


def cases(tier):
    th = tier == "thorough"
    J = 120
    cs = []
    for cons in ("none", "budget", "box", "ineq", "rows", "group"):
        cs.append(Case(f"solve N2 {cons}", solve, dict(N=2, cons=cons), f"N=2, constraints '{cons}'", jitter=J))
        cs.append(Case(f"solve N2 {cons} target", solve, dict(N=2, cons=cons, target=True, budgets=cons == "rows"), f"N=2, constraints '{cons}', return target", jitter=J))
    cs.append(Case("solve N2 pure", solve, dict(N=2, cons="rows", lam="zero", budgets=True), "N=2, no regulator", jitter=J))
    cs.append(Case("solve N2 pure target", solve, dict(N=2, cons="box", lam="zero", target=True), "N=2, no regulator", jitter=J))
    cs.append(Case("solve N2 floor", solve, dict(N=2, cons="box", target=True, low=True), "N=2, target floor", jitter=J))
    for low in (False, True):
        cs.append(Case(f"clip{' floor' if low else ''}", clip, dict(low=low), "N=2", jitter=J))
    for N in (3, 4) if th else (3,):
        if th:
            cs.append(Case(f"solve N{N} budgets", solve, dict(N=N, cons="rows", budgets=True), f"N={N}", jitter=J, optional=True))
        cs.append(Case(f"solve N{N} equal", solve, dict(N=N, cons="box"), f"N={N}", jitter=J, optional=N > 3))
    cs.append(Case("guards", guards, {}, "N=2"))
    for how in ("mult", "target", "default", "pure", "frontier", "list"):
        for bud in (False, True) if how in ("mult", "frontier", "pure") else (False,):
            cs.append(Case(f"wrapper {how}{' budgets' if bud else ''}", wrapper, dict(how=how, budgets=bud), "N=2", jitter=J))
    for f in (1, 8):
        cs.append(Case(f"failed solves {f}", backtrack, dict(fails=f), "N=2"))
    return cs
