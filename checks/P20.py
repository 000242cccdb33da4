from checks.opt import *
from checks.P18 import Answers, is_vol
from checks.P19 import Chi2, inputs, pack, posterior, LAB

ASSUMPTIONS = ["the chi-square quantile function of SciPy is correct (an arbitrary positive number per level and degrees of freedom)",
               "posterior moments are log returns when a simple-return quantity is asked for", "portfolio variances are non-negative"]


def close(h, label, got, want, N, labels):
    if labels:
        h.check(label + ": asset labels", list(got.index) == LAB[:N] and (not isinstance(got, pd.DataFrame) or list(got.columns) == LAB[:N]))
    got = vals(got)
    h.check(label, got.shape == np.shape(want))
    h.check(label, h.eq(got, want))


def from_niw(h, N, labels, free):
    """The bundle agrees with the posterior it was built from."""
    B_ = h.mod("bayesian")
    d = inputs(h, N, free, opaque=True)
    a, u = pack(h, d, N, labels)
    t1, nu1, mu, sig = posterior(d, N)
    c = Chi2(h)
    lev = h.real("level", 0.01, 0.99)
    kw = dict(prior_mu=a[0], prior_sigma=a[1], t0=d["t0"], nu0=d["nu0"], sample_mu=u[0], sample_sigma=u[1], n_obs=d["n"])
    if bool(nu1 <= 2):
        return h.check("an undefined posterior is refused", raises(lambda: B_.RobustBayesPosterior.from_niw(**kw)) is not None)
    r = B_.RobustBayesPosterior.from_niw(**kw)
    ce = arr(h, [[nu1 * sig[i][j] / (nu1 + N + 1) for j in range(N)] for i in range(N)])
    sm = arr(h, [[nu1 * sig[i][j] / (t1 * (nu1 - 2)) for j in range(N)] for i in range(N)])
    for _ in range(2):              # reading changes nothing
        close(h, "the mean is the posterior mean", r.mu, arr(h, mu), N, labels)
        close(h, "the dispersion is the classical equivalent", r.sigma, ce, N, labels)
        close(h, "the scatter is the posterior scatter of the mean", r.s_mu, sm, N, labels)
        close(h, "the scale is the posterior scale", r.sigma1, arr(h, sig), N, labels)
        x = r.cred_radius_mu(lev)
        h.check("the mean radius is the documented one", h.all(h.ge(x, 0), h.eq(x * x * t1 * (nu1 - 2), c.q(lev, N) * nu1)))
        m = nu1 + N + 1
        y = r.cred_radius_sigma_factor(lev)
        e = y - nu1 / (m * (1 if h.symbolic else 1.0))
        h.check("the dispersion factor is the documented one", h.all(h.ge(e, 0), h.eq(e * e * m * m * m, 2 * nu1 * nu1 * c.q(lev, N * (N + 1) // 2))))
        if free != "counts":
            continue
        x, y = r.cred_radius_mu(), r.cred_radius_sigma_factor()
        e = y - nu1 / (m * (1 if h.symbolic else 1.0))
        h.check("the default level is 75%", h.all(h.eq(x * x * t1 * (nu1 - 2), c.q(0.75, N) * nu1), h.eq(e * e * m * m * m, 2 * nu1 * nu1 * c.q(0.75, N * (N + 1) // 2))))
    # the same quantities straight from the posterior
    q = B_.NIWPosterior(*a, t0=d["t0"], nu0=d["nu0"])
    q.update(*u, n_obs=d["n"])
    h.check("bundle and posterior agree", h.all(h.eq(vals(q.get_mu_ce()), vals(r.mu)), h.eq(vals(q.get_S_mu()), vals(r.s_mu)), h.eq(vals(q.get_sigma_ce()), vals(r.sigma)),
                                              h.eq(q.cred_radius_mu(lev), r.cred_radius_mu(lev)), h.eq(q.cred_radius_sigma_factor(lev), r.cred_radius_sigma_factor(lev))))


def bundle(h, N, labels):
    B_ = h.mod("bayesian")
    mu = h.reals("mu", N, -1, 1)
    sg, L1 = pd_matrix(h, "G", N, -1, 1)
    sm, L2 = pd_matrix(h, "U", N, -1, 1)
    if h.symbolic:
        tame(h)
        h.stub("cholesky", lambda a: factor(h, a, sg, L1) if alike(a, sg) else factor(h, a, sm, L2))
    wr = (lambda v: pd.Series(v, index=LAB[:N]) if np.ndim(v) == 1 else frame(v, LAB[:N], LAB[:N])) if labels else (lambda v: v)
    return B_.RobustBayesPosterior(mu=wr(mu), sigma=wr(sg), s_mu=wr(sm)), mu, sg, sm


def alike(x, y):
    return np.shape(x) == np.shape(y) and all(sym._iszero((S.of(u) - v).t) for u, v in zip(np.ravel(vals(x)), np.ravel(vals(y))))


def scaling(h, N, labels):
    """Horizon scaling of the mean scatter in log and simple units."""
    r, mu, sg, sm = bundle(h, N, labels)
    H = h.real("horizon", Fraction(1, 10), 60)
    for k in (0, 1):                # never scaled twice
        close(h, "the log scatter grows with the squared horizon", r.mean_uncertainty_cov_log(annualization_factor=H), H * H * sm, N, labels)
        close(h, "one period leaves the scatter alone", r.mean_uncertainty_cov_log(), sm, N, labels)
        for exact in (False, True):
            for once in (False, True):
                f = 1 if once else H
                J = [ex(h, f * mu[i] + (f * sg[i, i] / 2 if exact else 0)) for i in range(N)]
                kw = {} if once else dict(annualization_factor=H)
                if exact:
                    kw["exact"] = True
                close(h, "the simple scatter is the delta-method image" + (" (exact)" if exact else ""), r.mean_uncertainty_cov_simple(**kw),
                      arr(h, [[f * f * J[i] * sm[i, j] * J[j] for j in range(N)] for i in range(N)]), N, labels)
        h.check("the bundle is unchanged", h.all(h.eq(vals(r.mu), mu), h.eq(vals(r.sigma), sg), h.eq(vals(r.s_mu), sm)))
    for f in (lambda: r.sigma1, r.cred_radius_mu, r.cred_radius_sigma_factor):
        h.check("posterior parameters that were never given are refused", raises(f, ValueError) is not None)


def wrapper(h, N, labels, horizon):
    """A wrapper scales mean and covariance with the horizon, the scatter with its square, once."""
    P = h.mod("portfolioapi")
    r, mu, sg, sm = bundle(h, N, labels)
    H = 1 if not horizon else h.real("horizon", Fraction(1, 10), 60) if N == 1 else h.choose("horizon", [12, 252])
    if h.symbolic:
        h.stub("cholesky", lambda a: scaled_factor(h, a))
    kw = dict(annualization_factor=H) if horizon else {}
    for k in (0, 1) if N == 1 else (0,):
        W = P.PortfolioWrapper.from_robust_posterior(r, **kw)
        h.check("the mean scales with the horizon", h.eq(W.dist.mu, H * mu))
        h.check("the covariance scales with the horizon", h.eq(W.dist.cov, H * sg))
        if labels:
            h.check("asset labels survive", list(W.dist.asset_names) == LAB[:N])
        h.check("the posterior is unchanged", h.all(h.eq(vals(r.mu), mu), h.eq(vals(r.sigma), sg), h.eq(vals(r.s_mu), sm)))
        a = Answers(h, tag=f"s{k}", N=N)
        f = W.robust_lambda_frontier(lambdas=[h.real("lam", 0, 2)])
        w = vals(f.weights)[:, 0]
        if h.symbolic:
            h.assume(quad(w, sm) >= 0, quad(w, sg) >= 0)
        h.check("estimation risk is measured by the scaled scatter", is_vol(h, f.risks[0], w, H * H * sm))
        m, c = h.mod("utils.projection").log2simple(H * mu, H * sg)
        h.check("returns are reported for the scaled posterior", h.eq(f.returns[0], dot(m, w)))


def scaled_factor(h, a):
    """Cholesky contract: any factor of the matrix asked for."""
    n = len(a)
    M = np.array([[S(0)] * n for _ in range(n)], dtype=object)
    for i in range(n):
        for j in range(i + 1):
            M[i, j] = sym.fresh("chol")
        h.assume(M[i, i] > 0)
    Q = M @ M.T
    h.assume(*[Q[i, j] == a[i, j] for i in range(n) for j in range(i + 1)])
    return M


def cases(tier):
    th = tier == "thorough"
    J = 40
    cs = []
    for N in (1, 2, 3):
        for free in ("moments", "counts") if N < 3 or th else ("counts",):
            for lab in (False, True):
                if lab and N != 2:
                    continue
                cs.append(Case(f"posterior N={N}{' labelled' if lab else ''} free={free}", from_niw, dict(N=N, labels=lab, free=free), f"N={N}", jitter=J))
    for N in (1, 2, 3):
        for lab in (False, True):
            cs.append(Case(f"scaling N={N}{' labelled' if lab else ''}", scaling, dict(N=N, labels=lab), f"N={N}, any horizon", jitter=J))
    for N in (1, 2):
        for lab in (False, True):
            for hz in (False, True):
                cs.append(Case(f"wrapper N={N}{' labelled' if lab else ''}{' horizon' if hz else ''}", wrapper, dict(N=N, labels=lab, horizon=hz), f"N={N}, any horizon", jitter=J))
    return cs
