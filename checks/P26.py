from checks.common import *
from checks.P25 import dominant, frac_of

ASSUMPTIONS = ["the covariance handed to a shrinkage estimator is positive semidefinite, so no eigenvalue repair is needed",
               "an eigendecomposition returns real eigenvalues in ascending order (their values and vectors are arbitrary)",
               "one step of the Tyler iteration (its convergence is P90)"]
LAB = ["a", "b", "c"]


def calm(h):
    """Positive definiteness tests pass."""
    tame(h)
    h.stub("cholesky", lambda a: a)
    M = h.mod("moments")
    if h.symbolic and hasattr(M, "ensure_psd_matrix"):
        M.ensure_psd_matrix = lambda m, *a, **k: (m + m.T) / 2


def repair(h, N, tri=False):
    """The eigenvalue repair leaves semidefinite matrices alone and lifts others by a multiple of the identity."""
    V = h.mod("utils.validation")
    A = symm(h, "A", N, -1, 1)
    if N > 2:
        A[0, 1] = A[1, 0] = A[0, 2] = A[2, 0] = 0 * A[0, 0]
    got = V.ensure_psd_matrix(A.copy())
    a, b, c = A[N - 2, N - 2], A[N - 1, N - 1], A[N - 2, N - 1]
    psd = h.AND(a >= 0, b >= 0, a * b >= c * c, *([A[0, 0] >= 0] if N > 2 else []))
    d = got[0, 0] - A[0, 0]
    for i in range(N):
        for j in range(N):
            h.check("only the diagonal is lifted, evenly", h.eq(got[i, j] - A[i, j], d if i == j else 0))
    if bool(psd):
        h.check("a semidefinite matrix is left alone", h.eq(d, 0))
    e = 2e-8 if not h.symbolic else Fraction(2, 10 ** 8)
    p, q = got[N - 2, N - 2] + e, got[N - 1, N - 1] + e
    h.check("the result is semidefinite", h.all(h.ge(p, 0), h.ge(q, 0), h.ge(p * q, got[N - 2, N - 1] ** 2), h.ge(got[0, 0] + e, 0)))


def named(h, got, N, labels):
    if labels:
        h.check("the result carries the asset labels on both sides", isinstance(got, pd.DataFrame) and list(got.index) == LAB[:N] and list(got.columns) == LAB[:N])
    got = vals(got)
    h.check("one row and column per asset", np.shape(got) == (N, N))
    for i in range(N):
        for j in range(i):
            h.check("the estimate is symmetric", h.eq(got[i, j], got[j, i]))
    return got


def table(X, labels):
    return frame(X, columns=LAB[:X.shape[1]]) if labels else X


def second(X, centre):
    T, N = X.shape
    m = [tot(X[:, j]) / T if centre else 0 * X[0, 0] for j in range(N)]
    return np.array([[tot((x - m[i]) * (y - m[j]) for x, y in zip(X[:, i], X[:, j])) / T for j in range(N)] for i in range(N)], dtype=object)


def blend(h, got, S_, F, num, den, label):
    """got is the blend of S_ and F with intensity num/den cut to [0, 1]."""
    N = len(S_)
    if h.symbolic:
        h.assume((num >= 0) | (num < 0))
    ij = [(i, j) for i in range(N) for j in range(i, N)]
    if bool(den <= 0) or bool(num >= den):
        for i, j in ij:
            h.check("full intensity gives the target", h.eq(got[i, j], F[i, j]) if not bool(den <= 0) else h.any(h.eq(got[i, j], F[i, j]), h.eq(got[i, j], S_[i, j])))
        return
    if bool(num <= 0):
        for i, j in ij:
            h.check("zero intensity gives the sample covariance", h.eq(got[i, j], S_[i, j]))
        return
    for i, j in ij:
        h.check(label, h.any(h.eq(got[i, j] - S_[i, j], num / den * (F[i, j] - S_[i, j])), h.eq((got[i, j] - S_[i, j]) * den, num * (F[i, j] - S_[i, j]))))


def ledoit(h, T, N, labels, own=True, free=1):
    """own: the covariance is that of the returns; otherwise an arbitrary symmetric matrix."""
    M = h.mod("moments")
    if h.symbolic:
        calm(h)
    X = h.const(np.array([[1, -.5, .25], [-.75, .5, 1], [.5, 1, -.5], [0, 0.25, 1]])[:T, :N])
    for i in range(T):
        for j in range(N):
            if i * N + j < free:
                X[i, j] = h.real(f"x_{i}_{j}", -1, 1)
    S_ = second(X, True) if own else symm(h, "S", N, -1, 1)
    if not own:
        for i in range(N):
            if N > 2:
                S_[i, i] = h.const([1, 2, 1.5][i])
            h.assume(S_[i, i] >= tot(abs(S_[i, j]) for j in range(N) if j != i))
    S_ = arr(h, S_)
    R = table(X, labels)
    got = named(h, M.shrink_covariance_ledoit_wolf(R, frame(S_, LAB[:N], LAB[:N]) if labels else S_), N, labels)
    tr = tot(S_[i, i] for i in range(N))
    h.check("the sample trace is kept", h.eq(tot(got[i, i] for i in range(N)), tr))
    F = np.array([[tr / N if i == j else 0 * tr for j in range(N)] for i in range(N)], dtype=object)
    m = [tot(X[:, j]) / T for j in range(N)]
    pi = tot(((X[t, i] - m[i]) * (X[t, j] - m[j]) - S_[i, j]) ** 2 for t in range(T) for i in range(N) for j in range(N)) / T
    gamma = tot((S_[i, j] - F[i, j]) ** 2 for i in range(N) for j in range(N))
    h.assume(gamma >= 0.001)
    blend(h, got, S_, F, pi, T * gamma, "the Ledoit-Wolf intensity")


def constant_correlation(h, T, N, labels, scales=(1, 2, 0.5), free_x=0, one=False):
    M = h.mod("moments")
    if h.symbolic:
        calm(h)
    X = h.const(np.array([[1, -.5, .25], [-.75, .5, 1], [.5, 1, -.5], [0, 0.25, 1]])[:T, :N])
    for i in range(free_x):
        X[i, 0] = h.real(f"x_{i}", -2, 2)
    s = h.const(np.array(scales[:N]))
    c = np.empty((N, N), dtype=object if h.symbolic else float)
    for i in range(N):
        c[i, i] = 1 + 0 * s[0]
        for j in range(i):
            c[i, j] = c[j, i] = h.real(f"c_{i}_{j}", -0.45, 0.45) if not free_x and not (one and i + j > 1) else h.const([0.25, -0.125, 0.5][i + j - 1])
    S_ = arr(h, [[s[i] * s[j] * c[i, j] for j in range(N)] for i in range(N)])
    got = named(h, M.shrink_covariance_ledoit_wolf(table(X, labels), frame(S_, LAB[:N], LAB[:N]) if labels else S_, target="constant_correlation"), N, labels)
    off = [(i, j) for i in range(N) for j in range(i)]
    r = tot(c[i, j] for i, j in off) / len(off)
    for i in range(N):
        h.check("the sample variances are kept", h.eq(got[i, i], S_[i, i]))
    for i, j in off:
        f = r * s[i] * s[j]
        h.check("each covariance lies between sample and target", h.all(h.any(h.le(S_[i, j], got[i, j]), h.le(f, got[i, j])), h.any(h.ge(S_[i, j], got[i, j]), h.ge(f, got[i, j]))))
    k = lambda i, j: (got[i, j] - S_[i, j], r * s[i] * s[j] - S_[i, j])
    for a, b in zip(off, off[1:]):
        (da, fa), (db, fb) = k(*a), k(*b)
        h.check("one intensity for all pairs", h.eq(da * fb, db * fa))


def oas(h, T, N, centred, labels, free=None, default=False, line=False):
    M = h.mod("moments")
    if h.symbolic:
        calm(h)
    X = h.const(np.array([[1, -.5, .25], [-.75, .5, 1], [.5, 1, -.5], [0, 0.25, 1]])[:T, :N])
    if N == 2 and T > 2:
        X[:, 1] = X[:, 0]
    if line:                               # observations along one direction: little is shrunk even with few of them
        X = h.const(np.array([[1, 2, -1], [-.5, -1, .5], [0.25, .5, -.25], [0, 0.25, 1]])[:T, :N])
    for i in range(T):
        for j in range(N):
            if free is None or i * N + j < free:
                X[i, j] = h.real(f"x_{i}_{j}", -1, 1)
    kw = {} if default else dict(assume_centered=centred)
    S_ = arr(h, second(X, not centred))
    got = named(h, M.shrink_covariance_oas(table(X, labels), **kw), N, labels)
    tr = tot(S_[i, i] for i in range(N))
    h.check("the sample trace is kept", h.eq(tot(got[i, i] for i in range(N)), tr))
    if N == 1:
        return
    F = np.array([[tr / N if i == j else 0 * tr for j in range(N)] for i in range(N)], dtype=object)
    t2 = tot(S_[i, j] ** 2 for i in range(N) for j in range(N))
    q = Fraction(2, N) if h.symbolic else 2.0 / N
    num = (1 - q) * t2 + tr * tr
    den = (T + 1 - q) * (t2 - tr * tr / N)
    h.assume(t2 - tr * tr / N >= 1e-6)
    if T == 2 and N == 2:                  # two observations of two assets always shrink fully
        return [h.check("full intensity gives the target", h.eq(got[i, j], F[i, j])) for i in range(2) for j in range(2)]
    lemma(h, num >= 0)
    blend(h, got, S_, F, num, den, "the oracle-approximating intensity")


def oas_round(h, N):
    """A sample covariance proportional to the identity is left alone."""
    M = h.mod("moments")
    if h.symbolic:
        calm(h)
    x = h.real("x", 0.1, 1)
    X = np.array([[x if i == j else 0 * x for j in range(N)] for i in range(N)])
    got = vals(M.shrink_covariance_oas(X))
    for i in range(N):
        for j in range(N):
            h.check("nothing to shrink: the sample covariance", h.eq(got[i, j] * N, x * x if i == j else 0))


def poet(h, T, N, k, thresh, standardize, labels, zero=False):
    M = h.mod("moments")
    base = np.array([[1, -.5, .25], [-.75, .5, 1], [.5, 1, -.5], [0, 0.25, 1]])[:T, :N]
    X = h.const(base) if standardize else h.reals("x", (T, N), -1, 1)
    if zero:                               # a constant column has no spread to standardise by
        X[:, 0] = h.const(np.full(T, 0.5))
    seen = {}
    if h.symbolic:
        calm(h)

        def eigh(a):
            w = np.array([h.real(f"w{i}") for i in range(N)], dtype=object)
            v = np.array([[h.real(f"v{i}{j}") for j in range(N)] for i in range(N)], dtype=object)
            for i in range(N - 1):
                h.assume(w[i] < w[i + 1])
            h.assume(w[0] > 0)
            seen["w"], seen["v"] = w, v
            return w, v
        h.stub("eigh", eigh)
        h.stub("argsort", None) if False else None
    t = h.real("t", 0, 1) if thresh == "free" else thresh
    kw = {} if k == "default" else dict(k=k)
    if thresh != "default":
        kw["thresh"] = t
    if not standardize or k != "default":
        kw["standardize"] = standardize
    out = M.factor_covariance_poet(table(X, labels), return_decomp=True, **kw)
    S0 = second(X, True) * (Fraction(T, T - 1) if h.symbolic else T / (T - 1))
    S_ = arr(h, S0)
    got = named(h, out[0], N, labels)
    B_ = vals(out[1])
    if labels:
        h.check("loadings carry the asset labels", list(out[1].index) == LAB[:N] and len(out[2]) == T)
    kk = B_.shape[1]
    h.check("as many factors as asked", kk == min(k, N) if isinstance(k, int) else 1 <= kk <= N)
    h.check("one loading row per asset, one score per observation", np.shape(B_) == (N, kk) and np.shape(vals(out[2])) == (T, kk))
    for i in range(N):
        h.check("the sample variances are kept", h.eq(got[i, i], S_[i, i]))
    if standardize:
        sd = [math.sqrt(float(frac_of(S_[i, i]) if h.symbolic else S_[i, i])) for i in range(N)]
        sd = [x if x > 1e-12 else 1.0 for x in sd]
        if h.symbolic:
            sd = [sq(h, S_[i, i]) if sd[i] != 1.0 or frac_of(S_[i, i]) != 0 else S(1) for i in range(N)]
    else:
        sd = [1] * N
    if not isinstance(t, str):
        for i in range(N):
            for j in range(i):
                f = tot(B_[i, c] * B_[j, c] for c in range(kk))
                r, z = S_[i, j] - f, t * sd[i] * sd[j]
                g = got[i, j] - f
                h.check("the residual is soft-thresholded", h.all(
                    h.any(h.ge(r, z), h.le(r, -z), h.eq(g, 0)),
                    h.any(h.le(r, z), h.eq(g, r - z)),
                    h.any(h.ge(r, -z), h.eq(g, r + z))))
    else:
        for i in range(N):
            for j in range(i):
                f = tot(B_[i, c] * B_[j, c] for c in range(kk))
                r, g = S_[i, j] - f, got[i, j] - f
                h.check("the residual only shrinks towards zero", h.any(h.all(h.ge(g, 0), h.le(g, r)), h.all(h.le(g, 0), h.ge(g, r))))
    if not h.symbolic:
        w, v = np.linalg.eigh(np.array([[S_[i, j] / (sd[i] * sd[j]) for j in range(N)] for i in range(N)], dtype=float))
        if min(np.diff(w), default=1) < 1e-3:
            return
    else:
        w, v = seen["w"], seen["v"]
    for i in range(N):
        for j in range(i + 1):
            want = tot(sd[i] * sd[j] * v[i, N - 1 - c] * v[j, N - 1 - c] * (w[N - 1 - c] if h.symbolic else max(w[N - 1 - c], 0)) for c in range(kk))
            h.check("the factors are the leading principal components", h.eq(tot(B_[i, c] * B_[j, c] for c in range(kk)), want))


def poet_plain(h, T, N):
    M = h.mod("moments")
    X = h.reals("x", (T, N), -1, 1)
    if h.symbolic:
        calm(h)
    k = {}
    a = vals(M.factor_covariance_poet(X, k=N, thresh=0.0, standardize=False))
    S_ = arr(h, second(X, True) * (Fraction(T, T - 1) if h.symbolic else T / (T - 1)))
    for i in range(N):
        for j in range(N):
            h.check("no threshold: the sample covariance", h.eq(a[i, j], S_[i, j]))


def refusals(h):
    M = h.mod("moments")
    X = h.reals("x", (3, 2), -1, 1)
    if h.symbolic:
        calm(h)
    bad = lambda f: raises(f, ValueError) is not None
    E2 = h.const(np.eye(2))
    h.check("thresholds are not negative, factor counts positive", bad(lambda: M.factor_covariance_poet(h.const(np.array([[1., 2], [2, 1], [0, 3]])), k=0)) and bad(lambda: M.factor_covariance_poet(h.const(np.array([[1., 2], [2, 1], [0, 3]])), k=1, thresh=-0.1)))
    h.check("shrinkage must lie in [0, 1]", all(bad(lambda: M.robust_covariance_tyler(X, shrinkage=s)) for s in (-0.01, 1.01)))
    h.check("targets must be known", bad(lambda: M.shrink_covariance_ledoit_wolf(X, E2, target="zero")) and bad(lambda: M.robust_covariance_tyler(X, target="zero")) and bad(lambda: M.robust_covariance_tyler(X, target=h.const(np.eye(3)))))
    h.check("shapes must agree", bad(lambda: M.shrink_covariance_ledoit_wolf(X, h.const(np.eye(3)))) and bad(lambda: M.shrink_covariance_oas(X[:, 0])) and bad(lambda: M.factor_covariance_poet(X[:, 0])))


def tyler(h, T, N, target, labels):
    """One iteration: the result is the stated blend of the scatter step and the target, at the sample scale."""
    M = h.mod("moments")
    X = h.const(np.array([[1, -.5, .25], [-.75, .5, 1], [.5, 1, -.5], [0, 0.25, 1]])[:T, :N])
    s = h.real("s", 0, 1)
    if h.symbolic:
        calm(h)
        P = h.const(np.array([[1, -.25, .125], [-.25, 2, .5], [.125, .5, .75]])[:N, :N])
        h.stub("pinv", lambda a: P.copy())
    Tg = h.const(np.array([[2, .5, .25], [.5, 1, .125], [.25, .125, 3]])[:N, :N]) if target != "identity" else h.const(np.eye(N))
    kw = {}
    if target == "array":
        kw["target"] = Tg.copy()
    if target == "shuffled":
        kw["target"] = frame(Tg[np.ix_(rot(range(N)), rot(range(N)))], rot(LAB[:N]), rot(LAB[:N]))
    run = lambda z: named(h, M.robust_covariance_tyler(table(X, labels), shrinkage=z, max_iter=1, **kw), N, labels)
    got, raw, full = run(s), run(0.0), run(1.0)
    S_ = arr(h, second(X, True) * (Fraction(T, T - 1) if h.symbolic else T / (T - 1)))
    tr, tt = tot(S_[i, i] for i in range(N)), tot(Tg[i, i] for i in range(N))
    for i in range(N):
        for j in range(i + 1):
            h.check("full shrinkage gives the target at the sample scale", h.eq(full[i, j] * tt, tr * Tg[i, j]))
            h.check("the blend is convex with the stated intensity", h.eq(got[i, j], (1 - s) * raw[i, j] + s * full[i, j]))
    h.check("the sample trace is kept", h.eq(tot(got[i, i] for i in range(N)), tr))


def tyler_default(h, T, N):
    M = h.mod("moments")
    X = h.const(np.array([[1, -.5, .25], [-.75, .5, 1], [.5, 1, -.5], [0, 0.25, 1]])[:T, :N])
    if h.symbolic:
        calm(h)
        P = dominant(h, N)
        h.stub("pinv", lambda a: P.copy())
    a, b = vals(M.robust_covariance_tyler(X, max_iter=1)), vals(M.robust_covariance_tyler(X, max_iter=1, shrinkage=0.0, target="identity"))
    h.check("no shrinkage unless asked", h.eq(a, b))


def single(h, est, T, labels):
    M = h.mod("moments")
    X = h.reals("x", (T, 1), -1, 1)
    if h.symbolic:
        calm(h)
        h.stub("eigh", lambda a: (np.array([vals(a)[0, 0]], dtype=object), np.array([[S(1)]], dtype=object)))
        h.stub("pinv", lambda a: np.array([[h.real("q", 0.1, 2)]], dtype=object))
    m = tot(X[:, 0]) / T
    v = tot((x - m) ** 2 for x in X[:, 0])
    h.assume(v > 0.01)
    kw = dict(max_iter=1) if est == "tyler" else dict(standardize=False) if est == "poet" else {}
    if est == "tyler" and h.symbolic:
        h.assume(v >= 0.5)
    mu, cov = M.estimate_moments(table(X, labels), cov_estimator=est, cov_kwargs=kw)
    cov = named(h, cov, 1, labels)
    d = dict(sample=T, lw=T, poet=T - 1, tyler=T - 1, oas=None)[est]
    h.check("one asset: its sample variance", h.eq(cov[0, 0] * d, v) if d else h.eq(cov[0, 0] * T, tot(x * x for x in X[:, 0])))
    h.check("one asset: its sample mean", h.eq(vals(mu)[0], m))


NAMES = {"lw": "shrink_covariance_ledoit_wolf", "ledoit_wolf": "shrink_covariance_ledoit_wolf", "LW": "shrink_covariance_ledoit_wolf", "oas": "shrink_covariance_oas",
         "poet": "factor_covariance_poet", "tyler": "robust_covariance_tyler", "tyler_shrinkage": "robust_covariance_tyler",
         "ewma": "covariance_ewma", "glasso": "sparse_precision_glasso", "graphical_lasso": "sparse_precision_glasso", "nls": "shrink_covariance_nls"}
OPTS = {"lw": dict(target="constant_correlation"), "oas": dict(assume_centered=False), "poet": dict(k=1, thresh=0.5), "tyler": dict(shrinkage=0.5), "ewma": dict(span=3), "glasso": dict(alpha=0.5), "nls": dict(dof_correction=1)}


def dispatch(h, est, weighted, labels):
    """estimate_moments hands the estimator the returns, the sample covariance and the options, and returns its answer."""
    M = h.mod("moments")
    T, N = 4, 3
    X = h.reals("x", (T, N), -1, 1)
    p = probs(h, T) if weighted else None
    R = table(X, labels)
    w = list(p) if weighted else [Fraction(1, T) if h.symbolic else 1.0 / T] * T
    m = [tot(a * b for a, b in zip(w, X[:, j])) for j in range(N)]
    cov = [[tot(a * (x - m[i]) * (y - m[j]) for a, x, y in zip(w, X[:, i], X[:, j])) for j in range(N)] for i in range(N)]
    name, opts = NAMES[est], dict(OPTS.get(est, {}))
    real, calls, answer = getattr(M, name), [], object()

    def spy(*a, **k):
        calls.append((a, k))
        return answer
    given = dict(opts)
    setattr(M, name, spy)
    try:
        mu, S_ = M.estimate_moments(R, p, cov_estimator=est, cov_kwargs=given)
    finally:
        setattr(M, name, real)
    if len(calls) != 1:
        raise sym.Unsupported("another way to the estimator")
    a, k = calls[0]
    h.check("the answer is the estimator's", S_ is answer)
    h.check("the estimator gets the returns", h.eq(vals(a[0]), X))
    h.check("the estimator gets the options", all(key in k and k[key] == v for key, v in opts.items()) and given == opts)
    h.check("the mean stays the sample mean", h.eq(vals(mu), arr(h, m)))
    if "ledoit" in name:
        h.check("the estimator gets the sample covariance", h.eq(vals(a[1] if len(a) > 1 else k["S_hat"]), arr(h, cov)))
        if labels:
            h.check("the estimator gets the labels", list((a[1] if len(a) > 1 else k["S_hat"]).columns) == LAB and list(a[0].columns) == LAB)


def plain(h, est, weighted, labels):
    M = h.mod("moments")
    T, N = 3, 2
    X = h.reals("x", (T, N), -1, 1)
    p = probs(h, T) if weighted else None
    w = list(p) if weighted else [Fraction(1, T) if h.symbolic else 1.0 / T] * T
    kw = {} if est is None else dict(cov_estimator=est)
    mu, got = M.estimate_moments(table(X, labels), p, **kw)
    got = named(h, got, N, labels)
    m = [tot(a * b for a, b in zip(w, X[:, j])) for j in range(N)]
    h.check("the sample mean", h.eq(vals(mu), arr(h, m)))
    for i in range(N):
        for j in range(N):
            h.check("the sample covariance", h.eq(got[i, j], tot(a * (x - m[i]) * (y - m[j]) for a, x, y in zip(w, X[:, i], X[:, j]))))


def cases(tier):
    th = tier == "thorough"
    cs, J = [], 100
    for lb in (False, True):
        cs.append(Case(f"ledoit-wolf own N=2 {lb}", ledoit, dict(T=3, N=2, labels=lb, free=2 if not lb else 1), "T=3, N=2", jitter=J))
    cs.append(Case("ledoit-wolf given N=2", ledoit, dict(T=2, N=2, labels=False, own=False), "T=2, N=2", jitter=J))
    cs.append(Case("ledoit-wolf given N=3", ledoit, dict(T=2, N=3, labels=True, own=False, free=0), "T=2, N=3", jitter=J))
    cs.append(Case("ledoit-wolf own N=3", ledoit, dict(T=4, N=3, labels=False, free=1), "T=4, N=3", jitter=J))
    cs.append(Case("constant correlation c", constant_correlation, dict(T=2, N=3, labels=True), "T=2, N=3", jitter=J))
    cs.append(Case("constant correlation large", constant_correlation, dict(T=2, N=3, labels=False, scales=(4, 2, 6), one=True), "T=2, N=3", jitter=J))
    cs.append(Case("constant correlation x", constant_correlation, dict(T=3, N=3, labels=False, free_x=2), "T=3, N=3", jitter=J))
    cs.append(Case("constant correlation N=2", constant_correlation, dict(T=3, N=2, labels=False), "T=3, N=2", jitter=J))
    for T, N, c, free, d in ((2, 2, True, 2, True), (3, 2, False, 2, False), (3, 2, True, 2, False), (2, 3, True, 1, False), (4, 3, False, 1, False), (3, 1, True, None, False), (3, 1, False, None, False)):
        cs.append(Case(f"oas T={T} N={N} {'raw' if c else 'centred'}", oas, dict(T=T, N=N, centred=c, labels=T == 3, free=free, default=d), f"T={T}, N={N}", jitter=J))
    for T, c, d in ((2, True, False), (2, True, True), (3, True, False), (3, False, False)):
        cs.append(Case(f"oas few observations T={T} {'raw' if c else 'centred'} {d}", oas, dict(T=T, N=3, centred=c, labels=d, free=1, default=d, line=True), f"T={T}, N=3", jitter=J))
    for N in (2, 3):
        cs.append(Case(f"oas round N={N}", oas_round, dict(N=N), f"N={N}", jitter=J))
    for N in (2, 3):
        for k in (1, 2, 3, 5):
            for t in ("free", 0.0, "default"):
                if (N == 2 and k > 2) or (k != 1 and t != "free") or (N == 3 and t == "default") or (k == 5 and N == 3 and t != "free"):
                    continue
                cs.append(Case(f"poet raw N={N} k={k} thresh={t}", poet, dict(T=3, N=N, k=k, thresh=t, standardize=False, labels=k == 1), f"T=3, N={N}", jitter=J))
        for k in (1, "default"):
            cs.append(Case(f"poet scaled N={N} k={k}", poet, dict(T=4, N=N, k=k, thresh="free", standardize=True, labels=k == 1), f"T=4, N={N}, fixed returns", jitter=J))
        cs.append(Case(f"poet scaled constant column N={N}", poet, dict(T=4, N=N, k=1, thresh="free", standardize=True, labels=False, zero=True), f"T=4, N={N}", jitter=J))
    for tg in ("identity", "array", "shuffled"):
        for N in (2, 3):
            cs.append(Case(f"tyler {tg} N={N}", tyler, dict(T=3, N=N, target=tg, labels=tg != "array"), f"T=3, N={N}, one iteration", jitter=J))
    cs.append(Case("tyler default", tyler_default, dict(T=3, N=2), "T=3, N=2", jitter=J))
    for e in ("sample", "lw", "oas", "poet", "tyler"):
        for lb in (False, True):
            cs.append(Case(f"single asset {e} {lb}", single, dict(est=e, T=3, labels=lb), "T=3, N=1", jitter=J))
    for e in NAMES:
        for w in (False, True):
            if w and "ledoit" not in NAMES[e]:
                continue
            cs.append(Case(f"dispatch {e}{' weighted' if w else ''}", dispatch, dict(est=e, weighted=w, labels=w), "T=4, N=3", jitter=J))
    for e in (None, "sample", "empirical"):
        for w in (False, True):
            cs.append(Case(f"plain {e} {w}", plain, dict(est=e, weighted=w, labels=w), "T=3, N=2", jitter=J))
    for N in (2,):
        cs.append(Case(f"repair N={N}", repair, dict(N=N), f"N={N}", jitter=J))
    cs.append(Case("refusals", refusals, {}, "T=3, N=2"))
    return cs
