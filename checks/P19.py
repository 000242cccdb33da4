from checks.opt import *

ASSUMPTIONS = ["the chi-square quantile function of SciPy is correct (an arbitrary positive number per level and degrees of freedom)",
               "pseudo-counts are whole numbers"]
LAB = ["a", "b", "c"]


COUNTS = [(1, 0, 1), (1, 0, 3), (3, 7, 25), (60, 45, 300), (2, 1, 2), (9, 2, 1)]


def inputs(h, N, free="both", opaque=False):
    """free: which of the counts and the moments are symbolic (the others are concrete samples)."""
    if free in ("both", "moments"):
        S0, S1 = symm(h, "P", N, -1, 1), symm(h, "S", N, -1, 1)
        m0, m = h.reals("m0", N, -2, 2), h.reals("m", N, -2, 2)
        if not h.symbolic:
            S0, S1 = pd_shift(S0), pd_shift(S1)
    else:
        A = np.array([[1.0, 0.25, -0.125], [0.25, 2.0, 0.5], [-0.125, 0.5, 0.75]])[:N, :N]
        S0, S1 = h.const(A), h.const(A[::-1, ::-1].copy())
        m0, m = h.const(np.array([0.5, -0.25, 1.0])[:N]), h.const(np.array([-1.0, 0.125, 0.75])[:N])
    if free in ("both", "counts"):
        t0, nu0, n = h.int("t0", 1, 60), h.int("nu0", 0, 60), h.int("n", 1, 300)
    else:
        t0, nu0, n = h.choose("counts", COUNTS)
        if h.symbolic:      # exact arithmetic from here on
            c = []
            for nm, k in (("t0", t0), ("nu0", nu0), ("n", n)):
                x = S(sym.z3.ToReal(sym.z3.FreshInt(nm)), True) if opaque else S(Fraction(k), True)
                if opaque:
                    h.assume(x == k)
                c.append(x)
            t0, nu0, n = c
    if h.symbolic:
        h.stub("cholesky", lambda a: a)          # only used as a positive-definiteness test
        h.stub("eigvalsh", lambda a: np.array([S(1)] * len(a), dtype=object))
    return dict(m0=m0, S0=S0, m=m, S=S1, t0=t0, nu0=nu0, n=n)


def h_sym(d):
    return isinstance(d["m0"][0], S)


def posterior(d, N):
    """The conjugate update, first principles."""
    t1, nu1 = d["t0"] + d["n"], d["nu0"] + d["n"]
    if h_sym(d):
        t1, nu1 = S.of(t1), S.of(nu1)
    mu = [(d["t0"] * d["m0"][i] + d["n"] * d["m"][i]) / t1 for i in range(N)]
    k = d["t0"] * d["n"] / t1
    sig = [[(d["nu0"] * d["S0"][i, j] + d["n"] * d["S"][i, j] + k * (d["m0"][i] - d["m"][i]) * (d["m0"][j] - d["m"][j])) / nu1 for j in range(N)] for i in range(N)]
    return t1, nu1, mu, sig


class Chi2:
    """chi2.ppf as an arbitrary positive function of level and degrees of freedom."""

    def __init__(self, h):
        self.h, self.seen = h, []
        if h.symbolic:
            h.stub("chi2.ppf", self._ask)

    def _ask(self, p, dof):
        for q, d, v in self.seen:
            if d == int(dof) and sym._iszero((S.of(p) - q).t):
                return v
        v = sym.fresh("chi2")
        self.h.assume(v > 0)
        self.seen.append((S.of(p), int(dof), v))
        return v

    def q(self, p, dof):
        if self.h.symbolic:
            return self._ask(p, dof)
        from scipy.stats import chi2
        return float(chi2.ppf(p, dof))


def pack(h, d, N, labels, order=None):
    """Constructor and update arguments; labelled sample moments may come in another order."""
    if not labels:
        return (d["m0"], d["S0"]), (d["m"], d["S"])
    nm = LAB[:N]
    o = order or nm
    ix = [nm.index(k) for k in o]
    return ((pd.Series(d["m0"], index=nm), frame(d["S0"], nm, nm)),
            (pd.Series([d["m"][i] for i in ix], index=o, dtype=object if h.symbolic else float), frame(d["S"][np.ix_(ix, ix)], o, o)))


def labelled(h, x, N, labels):
    if not labels:
        return h.check("arrays in, arrays out", isinstance(x, np.ndarray))
    ok = list(x.index) == LAB[:N] and (not isinstance(x, pd.DataFrame) or list(x.columns) == LAB[:N])
    h.check("results carry the asset labels", ok)


def update(h, N, labels, free):
    B_ = h.mod("bayesian")
    d = inputs(h, N, free)
    order = None
    if labels and N > 1:
        order = h.choose("order", [LAB[:N], LAB[:N][::-1]] + ([["b", "c", "a"]] if N == 3 else []))
    a, u = pack(h, d, N, labels, order)
    t1, nu1, mu, sig = posterior(d, N)
    q = B_.NIWPosterior(*a, t0=d["t0"], nu0=d["nu0"])
    h.check("nothing is known before the update", not q.is_updated)
    for f in (q.get_mu_ce, q.get_S_mu, q.get_sigma_ce, lambda: q.cred_radius_mu(0.5), lambda: q.cred_radius_sigma_factor(0.5)):
        h.check("nothing is known before the update", raises(f) is not None)
    p = q.update(*u, n_obs=d["n"])
    h.check("the update is recorded", q.is_updated)
    labelled(h, p.mu1, N, labels)
    labelled(h, p.sigma1, N, labels)
    h.check("mean confidence adds up", h.eq(p.T1, t1))
    h.check("dispersion confidence adds up", h.eq(p.nu1, nu1))
    h.check("the posterior mean is the count-weighted average", h.eq(vals(p.mu1), arr(h, mu)))
    sg = vals(p.sigma1)
    for i in range(N):
        for j in range(N):
            h.check("the posterior scale pools prior, sample and disagreement", h.eq(sg[i, j], sig[i][j]))
            h.check("the posterior scale is symmetric", h.eq(sg[i, j], sg[j, i]))
    h.check("a second update is refused", raises(lambda: q.update(*u, n_obs=d["n"])) is not None)
    h.check("a refused update changes nothing", h.all(h.eq(vals(q.get_mu_ce()), arr(h, mu)), h.eq(q.update.__self__._posterior.T1, t1) if hasattr(q, "_posterior") else True))
    if free != "moments":
        return
    if h.symbolic:          # positive definite inputs
        x = fresh_vec(h, "x", N)
        k = S.of(d["t0"] * d["n"]) / t1
        e = tot(x[i] * (d["m0"][i] - d["m"][i]) for i in range(N))
        # a sum of three squares-like terms, the middle one positive for positive definite inputs
        h.check("the posterior scale is positive definite", h.eq(nu1 * quad(x, sg), d["nu0"] * quad(x, d["S0"]) + d["n"] * quad(x, d["S"]) + k * e * e))
    else:
        h.check("the posterior scale is positive definite", bool(np.linalg.eigvalsh(np.asarray(sg, dtype=float)).min() > 0))


def derived(h, N, labels, what, free):
    B_ = h.mod("bayesian")
    d = inputs(h, N, free)
    a, u = pack(h, d, N, labels)
    t1, nu1, mu, sig = posterior(d, N)
    q = B_.NIWPosterior(*a, t0=d["t0"], nu0=d["nu0"])
    P = q.update(*u, n_obs=d["n"])
    sg = vals(P.sigma1)
    c = Chi2(h)
    small = bool(nu1 <= 2)
    lev = h.real("level", 0.01, 0.99)
    if what == "mean":
        x = q.get_mu_ce()
        labelled(h, x, N, labels)
        return h.check("the location estimate is the posterior mean", h.eq(vals(x), arr(h, mu)))
    if what == "dispersion":
        x = q.get_sigma_ce()
        labelled(h, x, N, labels)
        for i in range(N):
            for j in range(N):
                h.check("the dispersion estimate is nu1/(nu1+N+1) of the scale", h.eq(vals(x)[i, j] * (nu1 + N + 1), nu1 * sg[i, j]))
        return
    if what == "scatter":
        if small:
            return h.check("an undefined scatter is refused", raises(q.get_S_mu, ValueError) is not None)
        x = q.get_S_mu()
        labelled(h, x, N, labels)
        for i in range(N):
            for j in range(N):
                h.check("the location scatter is nu1/(T1(nu1-2)) of the scale", h.eq(vals(x)[i, j] * t1 * (nu1 - 2), nu1 * sg[i, j]))
        return
    if what == "mean radius":
        if small:
            return h.check("an undefined radius is refused", raises(lambda: q.cred_radius_mu(lev), ValueError) is not None)
        r = q.cred_radius_mu(lev)
        h.check("the mean radius is the documented one", h.all(h.ge(r, 0), h.eq(r * r * t1 * (nu1 - 2), c.q(lev, N) * nu1)))
    else:
        C_ = q.cred_radius_sigma_factor(lev)
        m = nu1 + N + 1
        e = C_ - nu1 / (m * (1 if h.symbolic else 1.0))
        h.check("the dispersion factor is the documented one", h.all(h.ge(e, 0), h.eq(e * e * m * m * m, 2 * nu1 * nu1 * c.q(lev, N * (N + 1) // 2))))
    for bad in (0.0, 1.0, -0.5, 1.5):
        h.check("a level outside (0,1) is refused", raises(lambda: (q.cred_radius_mu if what == "mean radius" else q.cred_radius_sigma_factor)(bad)) is not None)


def helpers(h, N, labels, free, which):
    """The one-call forms give the posterior of the same prior and sample."""
    M = h.mod("moments")
    d = inputs(h, N, free, opaque=True)
    a, u = pack(h, d, N, labels)
    t1, nu1, mu, sig = posterior(d, N)
    kw = dict(prior_mu=a[0], prior_sigma=a[1], t0=d["t0"], nu0=d["nu0"], sample_mu=u[0], sample_sigma=u[1], n_obs=d["n"])
    if which and bool(nu1 <= 2):
        return h.check("an undefined scatter is refused", raises(lambda: M.posterior_moments_niw_with_uncertainty(**kw), ValueError) is not None)
    out = M.posterior_moments_niw_with_uncertainty(**kw) if which else M.posterior_moments_niw(**kw)
    h.check("moments, then their uncertainty", len(out) == (3 if which else 2))
    for x in out:
        labelled(h, x, N, labels)
    h.check("the location estimate is the posterior mean", h.eq(vals(out[0]), arr(h, mu)))
    for i in range(N):
        for j in range(N):
            h.check("the dispersion estimate is nu1/(nu1+N+1) of the scale", h.eq(vals(out[1])[i, j] * (nu1 + N + 1), nu1 * sig[i][j]))
            if which:
                h.check("the location scatter is nu1/(T1(nu1-2)) of the scale", h.eq(vals(out[2])[i, j] * t1 * (nu1 - 2), nu1 * sig[i][j]))


def quantile(h, dof):
    B_ = h.mod("bayesian")
    if h.symbolic:
        h.stub("cholesky", lambda a: a)
    c = Chi2(h)
    p = h.real("p", 0.01, 0.99)
    v = B_.chi2_quantile(p, dof)
    h.check("the quantile is SciPy's", h.eq(v, c.q(p, dof)))
    s = B_.chi2_quantile(p, dof, sqrt=True)
    h.check("the root form is its square root", h.all(h.ge(s, 0), h.eq(s * s, c.q(p, dof))))
    b = h.real("bad", -2, 3)
    h.assume(bor(b <= 0, b >= 1))
    h.check("a level outside (0,1) is refused", raises(lambda: B_.chi2_quantile(b, dof), ValueError) is not None)


def refusals(h):
    B_ = h.mod("bayesian")
    d = inputs(h, 2)
    mk = lambda **k: B_.NIWPosterior(**{**dict(prior_mu=d["m0"], prior_sigma=d["S0"], t0=3, nu0=4), **k})
    bad = h.int("bad", -5, 0)
    h.check("a prior without mean confidence is refused", raises(lambda: mk(t0=bad), ValueError) is not None)
    neg = h.int("neg", -5, -1)
    h.check("a negative dispersion confidence is refused", raises(lambda: mk(nu0=neg), ValueError) is not None)
    h.check("a prior of another size is refused", raises(lambda: mk(prior_mu=d["m0"][:1]), ValueError) is not None and raises(lambda: mk(prior_sigma=d["S0"][:1]), ValueError) is not None)
    q = mk()
    for u in ((d["m"][:1], d["S"], 5), (d["m"], d["S"][:1, :1], 5), (d["m"], d["S"], bad)):
        h.check("an inconsistent sample is refused", raises(lambda: q.update(u[0], u[1], n_obs=u[2]), ValueError) is not None)
        h.check("a refused sample leaves no posterior", not q.is_updated)
    n2 = pd.Series(d["m0"], index=["a", "b"])
    h.check("prior labels that disagree are refused", raises(lambda: mk(prior_mu=n2, prior_sigma=frame(d["S0"], ["b", "a"], ["b", "a"])), ValueError) is not None)
    l = mk(prior_mu=n2, prior_sigma=frame(d["S0"], ["a", "b"], ["a", "b"]))
    h.check("sample labels that disagree are refused", raises(lambda: l.update(pd.Series(d["m"], index=["a", "z"]), d["S"], 5), ValueError) is not None)
    h.check("sample labels that disagree are refused", raises(lambda: l.update(d["m"], frame(d["S"], ["a", "z"], ["a", "z"]), 5), (ValueError, KeyError)) is not None)
    h.check("a refused sample leaves no posterior", not l.is_updated)


def cases(tier):
    th = tier == "thorough"
    J = 40
    cs = []
    for N in (1, 2, 3) if not th else (1, 2, 3, 4):
        for lab in (False, True):
            for free in ("both", "moments", "counts"):
                if N == 4 and (lab or free == "counts") or free == "both" and N > (3 if th else 2):
                    continue
                cs.append(Case(f"update N={N}{' labelled' if lab else ''} free={free}", update, dict(N=N, labels=lab, free=free), f"N={N}, counts up to 60/60/300", jitter=J))
    for what in ("mean", "dispersion", "scatter", "mean radius", "dispersion radius"):
        for N in (1, 2, 3):
            for free in ("moments", "counts"):
                for lab in (False, True):
                    if lab and (N != 2 or "radius" in what) or "radius" in what and free == "moments":
                        continue
                    cs.append(Case(f"{what} N={N}{' labelled' if lab else ''} free={free}", derived, dict(N=N, labels=lab, what=what, free=free), f"N={N}", jitter=J))
    for w in (False, True):
        for N, free, lab in ((1, "counts", False), (2, "counts", True), (2, "moments", True), (2, "moments", False)):
            cs.append(Case(f"one call{' with uncertainty' if w else ''} N={N}{' labelled' if lab else ''} free={free}", helpers, dict(N=N, labels=lab, free=free, which=w), f"N={N}", jitter=J))
    for dof in (1, 2, 3, 6, 10):
        cs.append(Case(f"quantile dof={dof}", quantile, dict(dof=dof), "any level", jitter=J))
    cs.append(Case("refusals", refusals, {}, "N=2"))
    return cs
