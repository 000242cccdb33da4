import itertools

from checks.opt import *

ASSUMPTIONS = ["the quadratic-programming solver returns an optimum of the program it is given (its numerics are P90)",
               "sample weights are non-negative with a positive sum"]
AS = ["a", "b", "c", "d"]
SM = ["s0", "s1", "s2", "s3", "s4"]


def samples(h, N, B, name="e"):
    return h.reals(name, (N, B), -1, 1)


def panel(X, labels):
    N, B = X.shape
    return frame(X, AS[:N], SM[:B]) if labels else X


def vector(h, got, N, labels, names=None):
    if labels:
        h.check("the blend carries the asset labels", isinstance(got, pd.Series) and list(got.index) == (names or AS[:N]))
    got = vals(got)
    h.check("one entry per asset", np.shape(got) == (N,))
    return got


def average(h, N, B, labels, how):
    E_ = h.mod("ensembles")
    X = samples(h, N, B)
    if how == "default":
        got, w = E_.average_exposures(panel(X, labels)), [1] * B
    else:
        w = list(h.reals("w", B, 0, 3))
        h.assume(tot(w) > 0.01)
        if how == "list":
            got = E_.average_exposures(panel(X, labels), weights=list(w))
        elif how == "array":
            got = E_.average_exposures(panel(X, labels), np.array(w))
        else:
            order = rot(range(B)) if how == "shuffled" else list(range(B))
            got = E_.average_exposures(panel(X, labels), weights=pd.Series([w[k] for k in order], index=[SM[k] for k in order]))
    got = vector(h, got, N, labels)
    for i in range(N):
        h.check("the weighted average with weights scaled to one", h.eq(got[i] * tot(w), dot(w, X[i])))


def average_refuse(h):
    E_ = h.mod("ensembles")
    X = samples(h, 2, 3)
    w = h.reals("w", 3, 0.1, 1)
    bad = lambda f: raises(f, ValueError) is not None
    h.check("weights must match the samples", bad(lambda: E_.average_exposures(X, w[:2])) and bad(lambda: E_.average_exposures(panel(X, True), pd.Series(list(w), index=["s0", "s1", "zz"]))))
    h.check("weights must have a positive sum", bad(lambda: E_.average_exposures(X, [0.0, 0.0, 0.0])) and bad(lambda: E_.average_exposures(X, [1.0, -2.0, 0.0])))
    h.check("there must be samples", bad(lambda: E_.average_exposures(np.zeros((2, 0)))))


def shared_rule(h, N, B):
    """Averages obey every linear rule all samples obey."""
    E_ = h.mod("ensembles")
    X, w = samples(h, N, B), list(h.reals("w", B, 0, 3))
    h.assume(tot(w) > 0.01)
    g, c = h.reals("g", N, -1, 1), h.real("c", -2, 2)
    for k in range(B):
        h.assume(dot(g, X[:, k]) <= c)
    got = vals(E_.average_exposures(X, weights=w))
    h.check("a rule shared by the samples holds for the average", h.le(dot(g, got), c))


def folds(B, L):
    """The accepted partitions into L non-empty contiguous folds: the remainder at the end, or spread evenly."""
    if B % L == 0:
        n = B // L
        return [[list(range(i * n, (i + 1) * n)) for i in range(L)]]
    n = B // L
    a = [list(range(i * n, (i + 1) * n)) for i in range(L - 1)] + [list(range((L - 1) * n, B))]
    b = [list(map(int, x)) for x in np.array_split(np.arange(B), L)]
    return [a, b]


def documented(X, parts):
    """Sum over folds of the squared distance between the blend without the fold and the fold's mean."""
    N, B = X.shape

    def f(w):
        out = 0
        for s in parts:
            keep = [k for k in range(B) if k not in s]
            for i in range(N):
                d = tot(w[k] * X[i, k] for k in keep) - tot(X[i, k] for k in s) / len(s)
                out = out + d * d
        return out
    return f


def coefficients(f, n, h):
    """Quadratic form and linear part of f."""
    Z = h.const(np.zeros(n))
    unit = lambda *ix: np.array([Z[i] + ix.count(i) for i in range(n)], dtype=object if h.symbolic else float)
    f0 = f(unit())
    f1 = [f(unit(i)) - f0 for i in range(n)]
    f2 = [f(unit(i, i)) - f0 for i in range(n)]
    P = [[None] * n for _ in range(n)]
    q = [2 * f1[i] - f2[i] / 2 for i in range(n)]
    for i in range(n):
        P[i][i] = f2[i] - 2 * f1[i]
        for j in range(i):
            P[i][j] = P[j][i] = f(unit(i, j)) - f0 - f1[i] - f1[j]
    return P, q


def stacking(h, N, B, L, labels, through=None):
    E_ = h.mod("ensembles")
    X = samples(h, N, B)
    names = AS[:N]
    run = {None: lambda: E_.exposure_stacking(panel(X, labels), L),
           "keyword": lambda: E_.exposure_stacking(panel(X, labels), L=L, solver_options={"maxiters": 77}),
           "portfolios": lambda: E_.stack_portfolios([pd.Series(list(X[:, k]), index=names) for k in range(B)], L=L),
           "frontiers": lambda: E_.exposure_stack_frontiers([front(h, X[:, [k]], names) for k in range(B)], L)}[through]
    docs = [documented(X, p) for p in folds(B, L)]
    if not h.symbolic:
        got = vector(h, run(), N, labels or through in ("portfolios", "frontiers"), names)
        best = []
        for d in docs:
            P, q = coefficients(d, B, h)
            P = np.array(P, dtype=float)
            h.assume(np.linalg.eigvalsh(P).min() > 1e-3)
            w = cvx(P, np.array(q, dtype=float), -np.eye(B), np.zeros(B), np.ones((1, B)), np.ones(1))
            h.assume(w is not None)
            best.append(X @ w)
        return h.check("the blend minimises the cross-validated objective", any(np.allclose(got, b, atol=2e-3) for b in best))
    cap = Capture(h)
    got = vector(h, run(), N, labels or through in ("portfolios", "frontiers"), names)
    if len(cap.calls) != 1 or cap.calls[0].kind != "qp" or cap.calls[0].n != B:
        raise sym.Unsupported("another scheme")
    call = cap.calls[0]
    z = fresh_vec(h, "z", B)
    same_feasible(h, "blend weights", call, [(-x, 0, "le") for x in z] + [(tot(z), 1, "eq")], z)
    P, q = vals(call.k["P"]), np.ravel(vals(call.k["q"]))
    alts = []
    for d in docs:
        DP, Dq = coefficients(d, B, h)
        for s in (1, Fraction(1, 2), 2):
            alts.append(h.all(*[h.eq(P[i, j] + P[j, i], 2 * s * DP[i][j]) for i in range(B) for j in range(i + 1)], *[h.eq(q[i], s * Dq[i]) for i in range(B)]))
    h.check("the cross-validated objective over folds of all samples", h.any(*alts) if len(alts) > 1 else alts[0])
    for i in range(N):
        h.check("the blend uses the optimal weights", h.eq(got[i], dot(call.x, X[i])))


def stack_failures(h):
    E_ = h.mod("ensembles")
    X = samples(h, 2, 3)
    bad = lambda f, e: raises(f, e) is not None
    h.check("fold counts must make sense", all(bad(lambda: E_.exposure_stacking(X, L=L), ValueError) for L in (-1, 0, 1, 4)))
    if h.symbolic:
        Capture(h, status={0: "unknown"})
        h.check("no optimum, no blend", bad(lambda: E_.exposure_stacking(X, L=2), RuntimeError))


def front(h, W, names, risks=None, rets=None):
    P = h.mod("portfolioapi").PortfolioFrontier
    M = W.shape[1]
    if risks is None:
        risks = h.const(np.arange(1, M + 1) * 0.125)
    if rets is None:
        rets = h.const(np.arange(1, M + 1) * 0.25)
    return P(weights=W, returns=rets, risks=risks, risk_measure="Volatility", asset_names=None if names is None else list(names))


def frontiers(h, N, M, select, weighted, labels=True):
    """One portfolio of each frontier: the chosen column, by default the least risky one."""
    E_ = h.mod("ensembles")
    W = [samples(h, N, M, f"w{k}") for k in range(2)]
    R = [h.reals(f"r{k}", M, 0, 1) for k in range(2)]
    names = AS[:N] if labels else None
    F = [front(h, W[k], names, R[k]) for k in range(2)]
    ew = list(h.reals("ew", 2, 0, 2)) if weighted else [1, 1]
    h.assume(tot(ew) > 0.01)
    kw = dict(ensemble_weights=list(ew)) if weighted else {}
    if select:
        pick = [h.choose(f"c{k}", list(range(M))) for k in range(2)]
        kw["selections"] = [[pick[0]], (pick[1],)] if select == "columns" else [[pick[0]], None]
    if not select or select == "mixed":
        least = [[h.AND(*[R[k][j] <= x for x in R[k]], *[R[k][i] > R[k][j] for i in range(j)]) for j in range(M)] for k in range(2)]
        for k in range(2):
            if select == "mixed" and k == 0:
                continue
            for j in range(M):
                if bool(least[k][j]):
                    pick_k = j
                    break
            if select == "mixed":
                pick = [pick[0], pick_k]
            else:
                pick = [pick_k] if k == 0 else [pick[0], pick_k]
    got = vector(h, E_.average_frontiers(F, **kw), N, labels)
    for i in range(N):
        h.check("the average of the chosen portfolios", h.eq(got[i] * tot(ew), tot(ew[k] * W[k][i, pick[k]] for k in range(2))))


def frontier_refuse(h):
    E_ = h.mod("ensembles")
    W = samples(h, 2, 2)
    a, b = front(h, W, AS[:2]), front(h, W, AS[:2][::-1])
    bad = lambda f: raises(f, ValueError) is not None
    h.check("assets must agree", bad(lambda: E_.average_frontiers([a, b])))
    h.check("one column per frontier", bad(lambda: E_.average_frontiers([a, a], selections=[[0, 1], [0]])) and bad(lambda: E_.average_frontiers([a, a], selections=[[], [0]])))
    h.check("one selection per frontier", bad(lambda: E_.average_frontiers([a, a], selections=[[0]])))
    h.check("something to blend", bad(lambda: E_.average_frontiers([])))


def mixed_stack(h, N):
    """Portfolios and frontiers may be mixed; each keeps its own column."""
    E_ = h.mod("ensembles")
    X = samples(h, N, 3)
    names = AS[:N]
    entries = [pd.Series(list(X[:, 0]), index=names), front(h, X[:, [2, 1]], names), frame(X[:, [2]], names, ["z"])]
    seen = []
    real = E_.exposure_stacking
    E_.exposure_stacking = lambda s, L=None, **k: seen.append((s, L)) or pd.Series([0.0] * N, index=names)
    try:
        E_.stack_portfolios(entries, selections=[None, [1], None], L=2)
    finally:
        E_.exposure_stacking = real
    if len(seen) != 1:
        raise sym.Unsupported("another scheme")
    s, L = seen[0]
    h.check("every entry contributes its portfolio, in order", h.eq(vals(s), X))
    h.check("the fold count and the labels are passed on", L == 2 and list(s.index) == names)


def options_restored(h):
    """Solver options set for one call do not leak into the next."""
    E_ = h.mod("ensembles")
    if h.symbolic:
        X = samples(h, 1, 2)
        Capture(h)
    else:
        X = np.array([[0.5, 0.25]])
    o = E_.solvers.options
    before = dict(o)
    E_.exposure_stacking(X, L=2, solver_options={"maxiters": 55, "abstol": 1e-9})
    h.check("solver options are restored", dict(o) == before)


def cases(tier):
    th = tier == "thorough"
    cs, J = [], 100
    for N, B in ((1, 1), (2, 1), (2, 2), (3, 2), (2, 3)) + (((3, 4), (4, 4)) if th else ()):
        for how in ("default", "list", "array", "series", "shuffled"):
            if how in ("series", "shuffled") and B == 1:
                continue
            cs.append(Case(f"average {N}x{B} {how}", average, dict(N=N, B=B, labels=how in ("series", "shuffled") or B == 2, how=how), f"N={N}, B={B}", jitter=J))
    cs.append(Case("average shared rule", shared_rule, dict(N=2, B=2), "N=2, B=2", jitter=J))
    cs.append(Case("average shared rule three", shared_rule, dict(N=2, B=3), "N=2, B=3", jitter=J))
    cs.append(Case("average refusals", average_refuse, {}, "N=2, B=3"))
    for N, B, L in ((1, 2, 2), (2, 2, 2), (1, 3, 2), (2, 3, 2), (1, 3, 3), (2, 3, 3), (2, 4, 2), (1, 4, 3), (2, 5, 2), (1, 5, 3)) + (((2, 5, 4), (2, 6, 4), (3, 6, 3), (2, 7, 3)) if th else ()):
        cs.append(Case(f"stacking {N}x{B} L={L}", stacking, dict(N=N, B=B, L=L, labels=B == 3), f"N={N}, B={B}, L={L}", jitter=J))
    for t in ("keyword", "portfolios", "frontiers"):
        cs.append(Case(f"stacking through {t}", stacking, dict(N=2, B=3, L=2, labels=False, through=t), "N=2, B=3, L=2", jitter=J))
    cs.append(Case("stacking failures", stack_failures, {}, "N=2, B=3"))
    for sel in (None, "columns", "mixed"):
        for w in (False, True):
            cs.append(Case(f"frontiers {sel} {w}", frontiers, dict(N=2, M=3 if sel is None else 2, select=sel, weighted=w, labels=w), "2 frontiers", jitter=J))
    cs.append(Case("frontier refusals", frontier_refuse, {}, "2 frontiers"))
    cs.append(Case("mixed entries", mixed_stack, dict(N=2), "3 entries", jitter=J))
    cs.append(Case("solver options", options_restored, {}, "B=2"))
    return cs
