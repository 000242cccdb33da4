from checks.common import *

ASSUMPTIONS = ["confidence strictly between 0 and 1, positive probabilities summing to one",
               "comparisons at exactly tied cumulative probabilities are read in exact arithmetic"]


def spec_ru(losses, p, alpha):
    """Rockafellar-Uryasev objective at every scenario loss."""
    return [c + tot(pt * ite(l > c, l - c, 0) for pt, l in zip(p, losses)) / alpha for c in losses]


def inputs(h, T, N, unitw=False, uniform=False):
    R = h.reals("R", (T, N), -3, 3)
    w = h.const(np.ones(N)) if unitw else h.reals("w", N, -3, 3)
    p = probs(h, T, uniform=uniform)
    return R, w, p, h.real("conf", 0.01, 0.99)


def cvar(h, T, N, unitw=False, uniform=False):
    F = h.mod("utils.functions")
    R, w, p, conf = inputs(h, T, N, unitw, uniform)
    out = F.portfolio_cvar(w, R, p, confidence=conf)
    ru = spec_ru([-dot(R[t], w) for t in range(T)], p, 1 - conf)
    h.check("CVaR is at most the Rockafellar-Uryasev value at every threshold", h.all(*[h.le(out, v) for v in ru]))
    h.check("CVaR attains the Rockafellar-Uryasev minimum", h.any(*[h.eq(out, v) for v in ru]))


def var(h, T, N, unitw=False, uniform=False):
    F = h.mod("utils.functions")
    R, w, p, conf = inputs(h, T, N, unitw, uniform)
    out = F.portfolio_var(w, R, p, confidence=conf)
    x = [dot(R[t], w) for t in range(T)]
    v = -out
    tol = 0 if h.symbolic else 1e-9
    h.check("VaR is the loss of some scenario", h.any(*[h.eq(v, e) for e in x]))
    below = tot(pt * ite(e < v - tol, 1, 0) for pt, e in zip(p, x))
    upto = tot(pt * ite(e <= v + tol, 1, 0) for pt, e in zip(p, x))
    h.check("mass strictly beyond VaR stays below the tail probability", h.le(below, 1 - conf))
    h.check("mass at or beyond VaR reaches the tail probability", h.ge(upto, 1 - conf))
    if h.symbolic:
        h.check("VaR is the lower quantile", below < 1 - conf)
    c = F.portfolio_cvar(w, R, p, confidence=conf)
    h.check("CVaR is no smaller than VaR", h.ge(c, out))


def columns(h, T, which):
    F = h.mod("utils.functions")
    f = getattr(F, which)
    R = h.reals("R", (T, 2), -3, 3)
    p = probs(h, T)
    conf = h.real("conf", 0.01, 0.99)
    W = h.reals("W", (2, 2), -3, 3)
    W[1, 1] = W[0, 1]
    both = np.ravel(vals(f(W, R, p, confidence=conf)))
    h.check("one number per portfolio", both.size == 2)
    for j in range(2):
        h.check(f"column {j} is treated on its own", h.eq(both[j], f(W[:, j], R, p, confidence=conf)))


def demean(h, T, which):
    F = h.mod("utils.functions")
    f = getattr(F, which)
    R = h.reals("R", (T, 1), -3, 3)
    p = probs(h, T)
    conf = h.real("conf", 0.01, 0.99)
    w = h.const(np.ones(1))
    m = dot(p, R[:, 0])
    D = R - m
    h.check("demeaning subtracts the probability-weighted mean", h.eq(f(w, R, p, confidence=conf, demean=True), f(w, D, p, confidence=conf)))
    h.check("no demeaning by default", h.eq(f(w, R, p, confidence=conf), f(w, R, p, confidence=conf, demean=False)))


def defaults(h, T, which):
    F = h.mod("utils.functions")
    f = getattr(F, which)
    R = h.reals("R", (T, 1), -3, 3)
    w = h.const(np.ones(1))
    u = probs(h, T, uniform=True)
    conf = h.real("conf", 0.01, 0.99)
    h.check("no probabilities means equal ones", h.eq(f(w, R, confidence=conf), f(w, R, u.reshape(-1, 1), confidence=conf)))
    h.check("the default confidence is 95%", h.eq(f(w, R, u), f(w, R, u, confidence=0.95)))


def order(h, T, which):
    F = h.mod("utils.functions")
    f = getattr(F, which)
    R = h.reals("R", (T, 1), -3, 3)
    p = probs(h, T)
    w = h.const(np.ones(1))
    conf = h.real("conf", 0.01, 0.99)
    a = f(w, R, p, confidence=conf)
    idx = [1, 0] + list(range(2, T))
    h.check("scenario order is irrelevant", h.eq(a, f(w, R[idx], p[idx], confidence=conf)))
    idx = list(range(1, T)) + [0]
    h.check("scenario rotation is irrelevant", h.eq(a, f(w, R[idx], p[idx], confidence=conf)))


def fixed_level(h, T, conf, which):
    """Typical levels with equal probabilities and more scenarios."""
    F = h.mod("utils.functions")
    R = h.reals("R", (T, 1), -3, 3)
    w = h.const(np.ones(1))
    p = probs(h, T, uniform=True)
    x = [R[t, 0] for t in range(T)]
    alpha = (1 - S(conf)) if h.symbolic else 1 - conf
    if which == "cvar":
        out = F.portfolio_cvar(w, R, p, confidence=conf)
        ru = spec_ru([-e for e in x], p, alpha)
        h.check("CVaR equals the Rockafellar-Uryasev minimum", h.all(*[h.le(out, v) for v in ru], h.any(*[h.eq(out, v) for v in ru])))
    else:
        v = -F.portfolio_var(w, R, p, confidence=conf)
        s = sorted(x) if not h.symbolic else None
        tol = 0 if h.symbolic else 1e-9
        upto = tot(pt * ite(e <= v + tol, 1, 0) for pt, e in zip(p, x))
        below = tot(pt * ite(e < v - tol, 1, 0) for pt, e in zip(p, x))
        h.check("VaR is the tail quantile of the scenarios", h.all(h.any(*[h.eq(v, e) for e in x]), h.ge(upto, alpha), h.le(below, alpha)))


def domain(h):
    F = h.mod("utils.functions")
    R = h.reals("R", (2, 1), -3, 3)
    w = h.const(np.ones(1))
    conf = h.real("conf", -2, 3)
    for f in (F.portfolio_cvar, F.portfolio_var):
        e = raises(lambda: f(w, R, confidence=conf), ValueError)
        ok = band(conf > 0, conf < 1)
        h.check("a confidence outside (0, 1) is rejected, inside accepted", iff(ok, e is None))


def cases(tier):
    cs = []
    for T, N in ((2, 1), (3, 1), (2, 2)):
        cs.append(Case(f"cvar T{T} N{N}", cvar, dict(T=T, N=N), f"T={T}, N={N}, all symbolic"))
        cs.append(Case(f"var T{T} N{N}", var, dict(T=T, N=N), f"T={T}, N={N}, all symbolic"))
    cs.append(Case("cvar T4 w=1", cvar, dict(T=4, N=1, unitw=True), "T=4, one asset, symbolic probabilities", budget=300))
    cs.append(Case("var T4 w=1", var, dict(T=4, N=1, unitw=True), "T=4, one asset, symbolic probabilities", budget=300))
    for which in ("portfolio_cvar", "portfolio_var"):
        cs.append(Case(which + " columns", columns, dict(T=2, which=which), "T=2, N=2, two portfolios"))
        cs.append(Case(which + " demean", demean, dict(T=3, which=which), "T=3"))
        cs.append(Case(which + " defaults", defaults, dict(T=3, which=which), "T=3"))
        cs.append(Case(which + " order", order, dict(T=3, which=which), "T=3"))
    for T, conf in ((4, 0.6),) + (((5, 0.7),) if tier == "thorough" else ()):
        for which in ("cvar", "var"):
            cs.append(Case(f"{which} uniform T{T} at {conf}", fixed_level, dict(T=T, conf=conf, which=which), f"T={T}, equal probabilities, level {conf}", optional=T > 4))
    cs.append(Case("levels", domain, {}, "every confidence"))
    if tier == "thorough":
        cs.append(Case("cvar T3 N2", cvar, dict(T=3, N=2), "T=3, N=2, all symbolic", optional=True, budget=1200))
        cs.append(Case("cvar T5 w=1", cvar, dict(T=5, N=1, unitw=True), "T=5, one asset", optional=True, budget=1500))
        cs.append(Case("var T5 w=1", var, dict(T=5, N=1, unitw=True), "T=5, one asset", optional=True, budget=1500))
    return cs
