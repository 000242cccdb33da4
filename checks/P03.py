from checks.common import *

ASSUMPTIONS = ["finite scenario values; probabilities that are non-negative and sum to one"]


def sample(h, T, N, shape="vec"):
    M = h.mod("moments")
    R = h.reals("R", (T, N), -3, 3)
    p = probs(h, T, positive=False)
    R0 = R.copy()
    mu, cov = M.estimate_sample_moments(R, p if shape == "vec" else p.reshape(-1, 1))
    mu, cov = np.ravel(vals(mu)), vals(cov)
    h.check("shapes", mu.shape == (N,) and cov.shape == (N, N))
    m = [dot(p, R0[:, j]) for j in range(N)]
    h.check("mean is the probability-weighted mean", h.eq(mu, arr(h, m)))
    for i in range(N):
        for j in range(N):
            h.check("covariance is the centred second moment", h.eq(cov[i, j], tot(p[t] * (R0[t, i] - m[i]) * (R0[t, j] - m[j]) for t in range(T))))
            h.check("covariance is symmetric", h.eq(cov[i, j], cov[j, i]))


def sample_psd(h, T, N):
    M = h.mod("moments")
    R = h.reals("R", (T, N), -3, 3)
    p = probs(h, T, positive=False)
    w = h.reals("w", N, -3, 3)
    mu, cov = M.estimate_sample_moments(R, p)
    y = [dot(R[t], w) for t in range(T)]
    m = dot(p, y)
    v = tot(p[t] * (y[t] - m) * (y[t] - m) for t in range(T))
    h.check("quadratic form is the variance of the combination", h.eq(quad(w, vals(cov)), v))
    h.check("quadratic form is non-negative", h.ge(v, 0))


def labels(h):
    M = h.mod("moments")
    R = h.reals("R", (2, 2), -3, 3)
    p = probs(h, 2)
    mu0, c0 = M.estimate_sample_moments(R, p)
    for pp in (p, pd.Series(p, index=["s", "t"])):
        mu, c = M.estimate_sample_moments(frame(R, index=["s", "t"], columns=["x", "y"]), pp)
        h.check("labels follow the assets", list(mu.index) == ["x", "y"] and list(c.index) == ["x", "y"] and list(c.columns) == ["x", "y"])
        h.check("values do not depend on the container", h.all(h.eq(mu, mu0), h.eq(c, c0)))


def reject(h):
    M = h.mod("moments")
    R = h.reals("R", (2, 1), -3, 3)
    p = h.reals("p", 2, -2, 3)
    s = p[0] + p[1]
    ok = band(p[0] >= 0, p[1] >= 0, s == 1) if h.symbolic else (min(p) >= 0 and abs(s - 1) < 1e-12)
    bad = bor(p[0] < -1e-3, p[1] < -1e-3, s > 1.001, s < 0.999)
    h.assume(bor(ok, bad))
    e = raises(lambda: M.estimate_sample_moments(R, p), ValueError)
    h.check("exactly the valid probability vectors are accepted", iff(ok, e is None))
    h.check("a length mismatch is rejected", raises(lambda: M.estimate_sample_moments(R, np.full(3, 1 / 3)), ValueError) is not None)


def ewma(h, T, N, container="np"):
    M = h.mod("moments")
    R = h.reals("R", (T, N), -3, 3)
    span = h.real("span", 1, 400)
    X = frame(R, columns=list("xyz")[:N]) if container == "pd" else R.copy()
    cov = M.covariance_ewma(X, span=span)
    if container == "pd":
        h.check("labels follow the assets", list(cov.index) == list("xyz")[:N] and list(cov.columns) == list("xyz")[:N])
    cov = vals(cov)
    a = 2 / (span + 1)
    lam = 1 - a
    wts = [lam ** (T - 1)] + [a * lam ** (T - 1 - t) for t in range(1, T)]
    for i in range(N):
        for j in range(N):
            h.check("exponentially weighted second moment, geometric weights, newest heaviest",
                    h.eq(cov[i, j], tot(wts[t] * R[t, i] * R[t, j] for t in range(T))))
    h.check("weights sum to one", h.eq(tot(wts), 1))
    h.check("weights are non-negative", h.all(*[h.ge(x, 0) for x in wts]))


def ewma_default(h):
    M = h.mod("moments")
    R = h.reals("R", (3, 1), -3, 3)
    h.check("default span is 252", h.eq(vals(M.covariance_ewma(R)), vals(M.covariance_ewma(R, span=252))))
    for k in range(1, 6):
        e = raises(lambda: M.covariance_ewma(R, min_periods=k), ValueError)
        h.check("too few observations are rejected", (e is not None) == (k > 3))


def pvar(h, N, M_, container="np"):
    F = h.mod("utils.functions")
    W = h.reals("W", (N, M_), -3, 3)
    cov = h.reals("cov", (N, N), -3, 3)
    names = list("xyz")[:N]
    Wc = pd.DataFrame(W, index=names) if container == "pd" else W
    Cc = pd.DataFrame(cov, index=names, columns=names) if container == "pd" else cov
    out = np.ravel(vals(F.portfolio_variance(Wc, Cc)))
    h.check("one variance per column", out.size == M_)
    for m in range(M_):
        h.check("variance is the quadratic form of its column", h.eq(out[m], quad(W[:, m], cov)))
    one = F.portfolio_variance(pd.Series(W[:, 0], index=names) if container == "pd" else W[:, 0], Cc)
    h.check("vector weights give one number", np.ndim(one) == 0)
    h.check("vector and matrix weights agree", h.eq(one, out[0]))


def pvol(h, N, M_):
    F = h.mod("utils.functions")
    W = h.reals("W", (N, M_), -3, 3)
    cov, A = psd_of(h, "A", N)
    for m in range(M_):
        lemma(h, quad(W[:, m], cov) >= 0)
    out = np.ravel(vals(F.portfolio_volatility(W, cov)))
    h.check("one volatility per column", out.size == M_)
    for m in range(M_):
        h.check("volatility is non-negative", h.ge(out[m], 0))
        h.check("volatility squares to the variance", h.eq(out[m] * out[m], quad(W[:, m], cov)))
    h.check("vector weights agree", h.eq(F.portfolio_volatility(W[:, 0], cov), out[0]))


def cases(tier):
    q = [(1, 1), (2, 2), (3, 2), (4, 2), (3, 3)] + ([(5, 3), (6, 4), (8, 3)] if tier == "thorough" else [])
    cs = [Case(f"sample moments T{T} N{N}", sample, dict(T=T, N=N), f"T={T}, N={N}") for T, N in q]
    cs.append(Case("sample moments column p", sample, dict(T=3, N=2, shape="col"), "T=3, N=2"))
    cs += [Case(f"sample psd T{T} N{N}", sample_psd, dict(T=T, N=N), f"T={T}, N={N}") for T, N in ([(2, 2), (3, 2)] + ([(4, 3)] if tier == "thorough" else []))]
    cs += [Case("labels", labels, {}, "T=2, N=2"), Case("rejection", reject, {}, "T=2")]
    cs += [Case(f"ewma T{T} N{N}", ewma, dict(T=T, N=N), f"T={T}, N={N}, every span") for T, N in ([(1, 2), (2, 2), (3, 2), (4, 1)] + ([(5, 2), (6, 2)] if tier == "thorough" else []))]
    cs += [Case("ewma labels", ewma, dict(T=2, N=2, container="pd"), "T=2, N=2"), Case("ewma defaults", ewma_default, {}, "T=3, N=1")]
    for N, M_ in ((1, 1), (2, 2), (3, 1), (3, 2)) + (((4, 3),) if tier == "thorough" else ()):
        cs.append(Case(f"variance N{N} M{M_}", pvar, dict(N=N, M_=M_), f"N={N}, {M_} portfolios"))
    cs.append(Case("variance labelled", pvar, dict(N=2, M_=2, container="pd"), "N=2"))
    cs += [Case("volatility N2 M1", pvol, dict(N=2, M_=1), "N=2"), Case("volatility N2 M2", pvol, dict(N=2, M_=2), "N=2, 2 portfolios")]
    return cs
