import warnings

from checks.common import *

ASSUMPTIONS = ["eigenvalues of 1x1 and 2x2 matrices are exact; 3x3 and larger matrices range over every spectrum of fixed rational eigenbases",
               "LAPACK's symmetric eigen-solver and Cholesky are exact"]
J = Fraction(1, 10**8)
Q3 = [[1, 2, 2], [2, 1, -2], [2, -2, 1]]        # /3: orthogonal


def rho(h, f):
    return f if h.symbolic else float(f)


def basis(h, n, which):
    if which == "eye":
        Q = [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    elif n == 3:
        Q = [[Fraction(x, 3) for x in r] for r in Q3]
    else:
        Q = [[Fraction(1, 2) * (1 if bin(i & j).count("1") % 2 == 0 else -1) for j in range(4)] for i in range(4)]
    if h.symbolic:
        return np.array([[S(x) for x in r] for r in Q], dtype=object)
    return np.array([[float(x) for x in r] for r in Q])


def spectral(h, n, which):
    """M = Q diag(lam) Q' with a fixed orthogonal Q and any eigenvalues; eigen routines answer exactly."""
    Q = basis(h, n, which)
    lam = h.reals("lam", n, -3, 3)
    for i in range(n - 1):
        h.assume(lam[i] <= lam[i + 1])
    M = (Q * lam) @ Q.T

    def spec(a):
        a = np.asarray(a, dtype=object)
        D = Q.T @ a @ Q
        for i in range(n):
            for j in range(n):
                if i != j and not sym._iszero(S.of(D[i, j]).t):
                    raise sym.Unsupported("matrix outside the eigenbasis of this case")
        ev = [S.of(D[i, i]) for i in range(n)]
        order = sorted(range(n), key=lambda i: 0)
        # a uniform shift keeps the order; anything else is sorted by forking
        for i in range(n):
            for j in range(n - 1 - i):
                if not bool(ev[order[j]] <= ev[order[j + 1]]):
                    order[j], order[j + 1] = order[j + 1], order[j]
        return np.array([ev[i] for i in order], dtype=object), Q[:, order]
    h.stub("eigvalsh", lambda a: spec(a)[0])
    h.stub("eigh", lambda a: spec(a))
    return M, lam, Q


def is_spsd(h, M, n, tol):
    """Goal: no eigenvalue of a symmetric matrix below -tol (leading principal minors of M + tol I, all subsets)."""
    import itertools
    T = [[M[i, j] + (tol if i == j else 0) for j in range(n)] for i in range(n)]
    det = lambda ix: T[ix[0]][ix[0]] if len(ix) == 1 else T[ix[0]][ix[0]] * T[ix[1]][ix[1]] - T[ix[0]][ix[1]] * T[ix[1]][ix[0]]
    return h.all(*[h.ge(det(c), 0) for k in (1, 2) for c in itertools.combinations(range(n), k)])


def small(h, n, symmetric):
    V = h.mod("utils.validation")
    M = symm(h, "m", n, -3, 3) if symmetric else h.reals("m", (n, n), -3, 3)
    keep = M.copy()
    out = vals(V.ensure_psd_matrix(M))
    h.check("the input is not modified", h.eq(M, keep))
    sm = (keep + keep.T) / 2
    h.check("the result is symmetric", h.all(*[h.eq(out[i, j], out[j, i]) for i in range(n) for j in range(i)]))
    h.check("the result is positive semidefinite", is_spsd(h, out, n, rho(h, J * 2)))
    if n == 1:
        psd = sm[0, 0] >= 0
    else:
        psd = band(sm[0, 0] >= 0, sm[1, 1] >= 0, sm[0, 0] * sm[1, 1] - sm[0, 1] * sm[1, 0] >= 0)
    h.check("a valid matrix comes back unchanged up to symmetrisation", h.implies(psd, h.eq(out, sm)))
    h.check("repair only lifts the diagonal, evenly", h.all(*[h.eq(out[i, j], sm[i, j]) if i != j else h.eq(out[i, i] - sm[i, i], out[0, 0] - sm[0, 0]) for i in range(n) for j in range(n)], h.ge(out[0, 0], sm[0, 0])))


def big(h, n, which):
    V = h.mod("utils.validation")
    M, lam, Q = spectral(h, n, which)
    A = h.reals("asym", n * (n - 1) // 2, -1, 1) if which == "asym" else None
    out = vals(V.ensure_psd_matrix(M))
    D = Q.T @ out @ Q
    h.check("the result is symmetric", h.all(*[h.eq(out[i, j], out[j, i]) for i in range(n) for j in range(i)]))
    h.check("the result is positive semidefinite", h.all(*[h.ge(D[i, i], rho(h, -2 * J)) for i in range(n)], *[h.eq(D[i, j], 0) for i in range(n) for j in range(n) if i != j]))
    h.check("a valid matrix comes back unchanged", h.implies(lam[0] >= 0, h.eq(out, M)))


def bigasym(h, n):
    """Asymmetric input: same answer as for its symmetric part."""
    V = h.mod("utils.validation")
    M, lam, Q = spectral(h, n, "full")
    K = h.reals("k", 3, -1, 1)
    A = M.copy()
    for t, (i, j) in enumerate(((0, 1), (0, 2), (1, 2))):
        A[i, j] = A[i, j] + K[t]
        A[j, i] = A[j, i] - K[t]
    h.check("only the symmetric part matters", h.eq(vals(V.ensure_psd_matrix(A)), vals(V.ensure_psd_matrix(M))))


def test_psd(h, n, tolkind):
    V = h.mod("utils.validation")
    M = symm(h, "m", n, -3, 3)
    tol = rho(h, J) if tolkind == "default" else h.real("tol", 1e-6, 1)
    box = []
    r = bool(V.is_psd(M) if tolkind == "default" else V.is_psd(M, tolerance=tol))
    T = M + tol * np.eye(n, dtype=int)
    mn = band(T[0, 0] >= 0) if n == 1 else band(T[0, 0] >= 0, T[1, 1] >= 0, T[0, 0] * T[1, 1] - T[0, 1] * T[1, 0] >= 0)
    h.check("positive semidefinite exactly when no eigenvalue is meaningfully negative", iff(mn, r))


def test_psd_big(h, n, which):
    V = h.mod("utils.validation")
    M, lam, Q = spectral(h, n, which)
    tol = h.real("tol", 1e-6, 1)
    r = bool(V.is_psd(M, tolerance=tol))
    h.check("positive semidefinite exactly when no eigenvalue is meaningfully negative", iff(lam[0] >= -tol, r))
    r = bool(V.is_psd(M))
    h.check("default tolerance: no clearly negative eigenvalue passes, no non-negative one fails", band(implies(lam[0] >= 0, r), implies(lam[0] < -rho(h, 2 * J), not r)))


def asymmetric(h):
    V = h.mod("utils.validation")
    M = h.reals("m", (2, 2), -3, 3)
    d = abs(M[0, 1] - M[1, 0])
    r = bool(V.is_psd(M, tolerance=1e-8))
    h.check("a clearly asymmetric matrix is not positive semidefinite", h.implies(d > rho(h, Fraction(1, 10**8) + Fraction(1, 10**4)), not r))
    for bad in (h.reals("b", (2, 3), -1, 1), h.reals("v", 3, -1, 1)):
        for f in (V.is_psd, V.ensure_psd_matrix):
            h.check("a non-square input is rejected", raises(lambda: f(bad), ValueError) is not None)


def chol(h, n, kind):
    """kind: pd (L L' of any factor) or any (any matrix)."""
    B_ = h.mod("bayesian")
    M, L0 = (pd_matrix(h, "L", n) if kind == "pd" else (h.reals("m", (n, n), -3, 3), None))
    sm = (M + M.T) / 2
    box = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        e = raises(lambda: box.append(B_._cholesky_pd(M)), RuntimeError)
    if kind == "pd":
        h.check("a positive definite matrix factors", e is None)
    if e is not None:
        k = rho(h, Fraction(1, 10**7))
        pdj = sm[0, 0] + k > 0 if n == 1 else band(sm[0, 0] + k > 0, (sm[0, 0] + k) * (sm[1, 1] + k) > sm[0, 1] * sm[1, 0])
        h.check("only a matrix that stays indefinite after the documented jitter is refused", bnot(pdj))
        return
    L = vals(box[0])
    h.check("the factor is lower triangular", h.all(*[h.eq(L[i, j], 0) for i in range(n) for j in range(i + 1, n)], *[h.ge(L[i, i], 0) for i in range(n)]))
    R = L @ L.T
    if kind == "pd":
        h.check("the factor multiplies back to the matrix", h.eq(R, M))
    else:
        k = R[0, 0] - sm[0, 0]
        h.check("the factor multiplies back up to the documented jitter", h.all(h.ge(k, 0), h.le(k, rho(h, Fraction(102, 10**9)), 1e-10), *[h.eq(R[i, j] - sm[i, j], k if i == j else 0) for i in range(n) for j in range(n)]))
        pd0 = sm[0, 0] > 0 if n == 1 else band(sm[0, 0] > 0, sm[0, 0] * sm[1, 1] > sm[0, 1] * sm[1, 0])
        h.check("a positive definite matrix is factored without jitter", h.implies(pd0, h.eq(R, sm)))


def chol_use(h, n):
    """The scenario generator of the views turns unit shocks into the stated covariance."""
    V = h.mod("views")
    M, L0 = pd_matrix(h, "L", n, dlo=0.3)
    mu = h.reals("mu", n, -1, 1)
    I = np.vstack([np.eye(n), -np.eye(n)])
    I = h.const(I)

    class G(Rng):
        def standard_normal(self, size=None):
            return I
    h.rng(lambda seed=None: G(h))
    h.stub("minimize", lambda *a, **k: (_ for _ in ()).throw(sym.Unsupported("no views given")))
    fv = V.FlexibleViewsProcessor(prior_mean=mu, prior_cov=M, num_scenarios=2 * n)
    D = vals(fv.R) - mu
    got = D.T @ D / 2
    k = rho(h, Fraction(1, 10**6))
    h.check("unit shocks are spread with the prior covariance (plus the documented diagonal)", h.all(*[h.all(h.ge(got[i, j] - M[i, j], 0), h.le(got[i, j] - M[i, j], 2 * k)) if i == j else h.eq(got[i, j], M[i, j]) for i in range(n) for j in range(n)]))
    h.check("scenarios are centred on the prior mean", h.all(*[h.eq(tot(D[:, i]), 0) for i in range(n)]))


def uses(h, n):
    """Optimisers and wrappers hold a factor or matrix that multiplies back."""
    P = h.mod("portfolioapi")
    tame2 = h.stub
    h.stub("cond", lambda a: S(1))
    M = symm(h, "m", n, -2, 2)
    W = P.PortfolioWrapper.from_moments(h.const(np.zeros(n)), M)
    c = vals(W.dist.cov)
    h.check("wrapper covariance is symmetric positive semidefinite", h.all(h.eq(c[0, 1], c[1, 0]), is_spsd(h, c, n, rho(h, 2 * J))))
    h.check("wrapper keeps a valid covariance", h.implies(band(M[0, 0] >= 0, M[1, 1] >= 0, M[0, 0] * M[1, 1] >= M[0, 1] * M[1, 0]), h.eq(c, M)))


def cases(tier):
    th = tier == "thorough"
    cs = []
    for n in (1, 2):
        for s in (True, False):
            cs.append(Case(f"sanitise {n}x{n} {'symmetric' if s else 'any'}", small, dict(n=n, symmetric=s), f"every {n}x{n} matrix"))
        for t in ("default", "any"):
            cs.append(Case(f"test {n}x{n} {t} tolerance", test_psd, dict(n=n, tolkind=t), f"every symmetric {n}x{n} matrix"))
    for n, w in ((3, "full"), (3, "eye")) + (((4, "full"),) if th else ()):
        cs.append(Case(f"sanitise {n}x{n} {w}", big, dict(n=n, which=w), f"every {n}x{n} spectrum in one eigenbasis", budget=400))
        cs.append(Case(f"test {n}x{n} {w}", test_psd_big, dict(n=n, which=w), f"every {n}x{n} spectrum in one eigenbasis", budget=400))
    cs.append(Case("sanitise 3x3 any", bigasym, dict(n=3), "every skew part on every spectrum"))
    cs.append(Case("asymmetric", asymmetric, {}, "2x2"))
    for n in (1, 2, 3):
        cs.append(Case(f"cholesky pd {n}", chol, dict(n=n, kind="pd"), f"every positive definite {n}x{n} matrix L L', L_ii >= 0.1", optional=n > 2))
    for n in (1, 2):
        cs.append(Case(f"cholesky any {n}", chol, dict(n=n, kind="any"), f"every {n}x{n} matrix", optional=n > 1))
    cs.append(Case("scenario generator", chol_use, dict(n=2), "2 assets"))
    cs.append(Case("wrapper", uses, dict(n=2), "2 assets"))
    return cs
