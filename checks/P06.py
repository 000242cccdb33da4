from checks.common import *
from checks.P02 import spec_ru

ASSUMPTIONS = ["the random generator is replaced by arbitrary admissible draws", "exp is any positive increasing function with exp(0)=1 (values at constants to 13 digits)"]


def key(s, prefix):
    ks = [k for k in s.index if str(k).startswith(prefix)]
    return s[ks[0]] if len(ks) == 1 else math.nan


def spec_var(h, pnl, p, conf):
    """Goals: v is the (1-conf) lower quantile of the P&L, reported as a loss."""
    def goal(out):
        v = -out
        tol = 0 if h.symbolic else 1e-9
        below = tot(q * ite(e < v - tol, 1, 0) for q, e in zip(p, pnl))
        upto = tot(q * ite(e <= v + tol, 1, 0) for q, e in zip(p, pnl))
        return h.all(h.any(*[h.eq(v, e) for e in pnl]), h.le(below, 1 - conf), h.ge(upto, 1 - conf))
    return goal


def check_summary(h, s, pnl, p, conf, m=None, what="report"):
    mean = dot(p, pnl)
    var = tot(q * (e - mean) * (e - mean) for q, e in zip(p, pnl))
    sd = key(s, "stdev")
    h.check(f"{what}: mean is the probability-weighted P&L", h.eq(key(s, "mean"), mean))
    h.check(f"{what}: stdev is that of the P&L", h.all(h.ge(sd, 0), h.eq(sd * sd, var)))
    x = pnl if m is None else [e - m for e in pnl]
    h.check(f"{what}: VaR is the loss quantile of the P&L", spec_var(h, x, p, conf)(key(s, "VaR")))
    ru = spec_ru([-e for e in x], p, 1 - conf)
    c = key(s, "CVaR")
    h.check(f"{what}: CVaR is the tail mean of the P&L", h.all(*[h.le(c, v) for v in ru], h.any(*[h.eq(c, v) for v in ru])))


def report(h, T, N, wkind, demean=False, scale=False, unit=False):
    F = h.mod("utils.performance")
    R = h.reals("R", (T, N), -2, 2)
    w = h.const(np.ones(N)) if unit else h.reals("w", N, -2, 2)
    p = probs(h, T)
    conf = h.real("conf", 0.05, 0.95)
    names = ["a", "b", "c"][:N]
    # confidence enters only the tail measures
    pnl = [dot(R[t], w) for t in range(T)]
    W = {"array": w, "col": w.reshape(-1, 1), "list": list(w), "series": pd.Series(list(w), index=names), "frame": pd.DataFrame({"x": list(w)}, index=names)}[wkind]
    sc = frame(R, columns=names) if wkind in ("series", "frame") else R
    f = 1
    if scale:
        f = 4
    s = F.performance_report(W, sc, probabilities=p * f, confidence=_C(h, conf), demean=demean)
    check_summary(h, s, pnl, p, conf, m=dot(p, pnl) if demean else None)
    ens = key(s, "ENS")
    P = h.mod("probabilities")
    h.check("report: effective scenario count is that of the probabilities", h.eq(ens, P.compute_effective_number_scenarios(p)))
    h.check("report has exactly the five documented entries", len(s) == 5)


def _C(h, conf):
    return conf


def report_default(h, T):
    F = h.mod("utils.performance")
    R = h.reals("R", (T, 1), -2, 2)
    w = h.reals("w", 1, -2, 2)
    u = probs(h, T, uniform=True)
    a, b = F.performance_report(w, R), F.performance_report(w, R, probabilities=u, confidence=0.95, demean=False)
    h.check("defaults are equal probabilities, 95% and no demeaning", h.all(list(a.index) == list(b.index), h.eq(vals(a), vals(b))))
    h.check("entries carry the confidence level", list(F.performance_report(w, R, confidence=0.9).index) == ["mean", "stdev", "VaR90", "CVaR90", "ENS"])
    h.check("ENS of equal probabilities is the number of scenarios", h.eq(key(a, "ENS"), T))


def domain(h):
    F = h.mod("utils.performance")
    R = h.reals("R", (2, 2), -1, 1)
    w = h.reals("w", 2, -1, 1)
    conf = h.real("conf", -1, 2)
    e = raises(lambda: F.performance_report(w, R, confidence=conf) if not h.symbolic else _guard(F, w, R, conf), ValueError)
    h.check("a confidence outside (0,1) is rejected", iff(e is None, band(conf > 0, conf < 1)))
    for bad in (lambda: F.performance_report(h.reals("w3", 3, -1, 1), R), lambda: F.performance_report(np.column_stack([w, w]), R),
                lambda: F.performance_report(w, R[:, 0]), lambda: F.performance_report(w, R, probabilities=h.reals("q", 3, 0.1, 1)),
                lambda: F.scenario_pnl(h.reals("w3", 3, -1, 1), R), lambda: F.scenario_pnl(w, R[:, 0])):
        h.check("inconsistent shapes are rejected", raises(bad, ValueError) is not None)


def _guard(F, w, R, conf):
    return F.performance_report(w, R, confidence=conf)


def pnl(h, T, N, M):
    F = h.mod("utils.performance")
    R = h.reals("R", (T, N), -2, 2)
    W = h.reals("W", (N, M), -2, 2)
    names, pf = ["a", "b", "c"][:N], ["x", "y"][:M]
    idx = [f"t{t}" for t in range(T)]
    out = F.scenario_pnl(frame(W, names, pf), frame(R, idx, names))
    h.check("one column per portfolio, one row per scenario", list(out.columns) == pf and list(out.index) == idx)
    want = arr(h, [[dot(R[t], W[:, j]) for j in range(M)] for t in range(T)])
    h.check("P&L is scenarios times weights", h.eq(vals(out), want))
    h.check("P&L of arrays", h.eq(vals(F.scenario_pnl(W, R)), want))
    h.check("P&L of one weight vector", h.eq(vals(F.scenario_pnl(W[:, 0], frame(R, idx, names))), want[:, 0]))


def dd_ref(h, path):
    """Maximum drawdown of wealth path values against the peak, starting from 1."""
    peak, worst = 1, 0
    for v in path:
        peak = smax(peak, v) if h.symbolic else max(peak, v)
        worst = (smax if h.symbolic else max)(worst, (peak - v) / peak)
    return worst


def drawdown(h, T, N, H, paths, rep, draws):
    F = h.mod("utils.performance")
    R = h.reals("R", (T, N), -0.4, 0.4)
    w = h.const(np.ones(1)) if N == 1 else h.const(np.array([0.75, -0.5]))
    p = probs(h, T)
    conf = h.real("conf", 0.5, 0.99)
    log = []
    script = {"fork": None, "diag": lambda k, ix: (ix[0] + ix[1]) % T}[draws]
    h.rng(lambda seed=None: Rng(h, log, script=script))
    kw = {} if rep == "default" else {"reprice": (lambda y: y) if rep == "id" else (lambda y: y * y + y)}
    s = F.drawdown_quantile(w, R, H, confidence=conf, n_paths=paths, p=p, seed=3, **kw)
    f = {"default": lambda y: ex(h, y) - 1, "id": lambda y: y, "sq": lambda y: y * y + y}[rep]
    h.check("one draw per step and path, with the given probabilities", h.all(len(log) == 1, np.shape(log[0][4]) == (paths, H), h.eq(vals(log[0][3]), p)))
    D = log[0][4]
    dd = []
    for i in range(paths):
        path = [1 + tot(w[n] * f(tot(R[D[i, k], n] for k in range(t + 1))) for n in range(N)) for t in range(H)]
        dd.append(dd_ref(h, path))
    m, med, q, mx = s["max_dd_mean"], s["max_dd_median"], [s[k] for k in s.index if k not in ("max_dd_mean", "max_dd_median", "max_dd_worst")][0], s["max_dd_worst"]
    h.check("drawdowns are never negative", h.all(*[h.ge(x, 0) for x in (m, med, q, mx)]))
    h.check("mean drawdown is measured from the running peak including the start", h.eq(m, tot(dd) / paths))
    h.check("worst drawdown is the largest over the paths", h.all(*[h.ge(mx, d) for d in dd], h.any(*[h.eq(mx, d) for d in dd])))
    h.check("summary statistics are ordered", h.all(h.le(m, mx), h.le(med, q), h.le(q, mx)))
    if paths == 2:
        h.check("median of two paths is their midpoint", h.eq(med * 2, tot(dd)))
        lo, hi = (smin(*dd), smax(*dd)) if h.symbolic else (min(dd), max(dd))
        h.check("quantile interpolates the drawdowns", h.eq(q, lo + (hi - lo) * conf))
    if paths == 3:
        h.check("median is the middle path", h.any(*[h.all(h.eq(med, d), h.any(*[h.all(h.le(dd[j], med), h.ge(dd[3 - i - j], med)) for j in range(3) if j != i])) for i, d in enumerate(dd)]))


def horizons(h, N, rep):
    F = h.mod("utils.performance")
    T, ns = 2, 2
    R = h.reals("R", (T, N), -0.5, 0.5)
    w = h.reals("w", N, -1, 1)
    p = probs(h, T)
    calls = []

    def factory(seed=None):
        log = []
        calls.append((seed, log))
        i = len(calls)
        return Rng(h, log, script=lambda k, ix: (ix[0] + (ix[1] if i % 2 else ix[0])) % T)
    h.rng(factory)
    hs = (1, 2, 4)
    kw = {} if rep == "default" else {"reprice": lambda y: y + y * y}
    out = F.horizon_report(w, R, horizons=hs, n_simulations=ns, p=p, confidence=0.7, seed=5, **kw)
    f = (lambda y: ex(h, y) - 1) if rep == "default" else (lambda y: y + y * y)
    h.check("one row per horizon in order", h.all(len(out) == 3, len(calls) == 3, list(out.index) == ["1w", "2w", "1m"]))
    h.check("every horizon has its own random draws", len({c[0] for c in calls}) == 3)
    half = [S(Fraction(1, ns))] * ns if h.symbolic else [1.0 / ns] * ns
    for i, H in enumerate(hs):
        (rec,) = calls[i][1]
        h.check("each horizon draws that many steps with the given probabilities", h.all(np.shape(rec[4]) == (ns, H), h.eq(vals(rec[3]), p)))
        D = rec[4]
        pn = [tot(w[n] * f(tot(R[D[s, k], n] for k in range(H))) for n in range(N)) for s in range(ns)]
        check_summary(h, out.iloc[i], pn, half, S(0.7) if h.symbolic else 0.7, what=f"horizon {H}")


def spans(h):
    """One row per horizon, each with its own length, whatever the horizons are called."""
    F = h.mod("utils.performance")
    R, w = h.reals("R", (1, 1), -0.5, 0.5), h.reals("w", 1, -1, 1)
    h.rng(lambda seed=None: Rng(h, [], script=lambda k, ix: 0))
    hs = (52, 12, 13, 3, 26, 4, 1, 8, 104)
    out = F.horizon_report(w, R, horizons=hs, n_simulations=1, reprice=lambda y: y, seed=0)
    h.check("every horizon has a row of its own", h.all(len(out) == len(hs), len(set(out.index)) == len(hs)))
    h.check("rows are in the order asked", h.eq(vals(out["mean"]), arr(h, [R[0, 0] * w[0] * k for k in hs])))


def seeds(h):
    F = h.mod("utils.performance")
    R = h.reals("R", (2, 1), -0.5, 0.5)
    got = []

    def factory(seed=None):
        got.append(seed)
        return Rng(h, script=lambda k, ix: sum(ix) % 2)
    h.rng(factory)
    w = h.const(np.ones(1))
    F.horizon_report(w, R, horizons=(1, 2), n_simulations=2, reprice=lambda y: y, seed=None)
    h.check("no seed means an unseeded generator", got == [None, None])
    got.clear()
    F.horizon_report(w, R, horizons=(1, 2), n_simulations=2, reprice=lambda y: y, seed=0)
    first = list(got)
    got.clear()
    F.horizon_report(w, R, horizons=(1, 2), n_simulations=2, reprice=lambda y: y, seed=0)
    h.check("the seed determines the draws", h.all(got == first, None not in got, len(set(got)) == 2))
    got.clear()
    F.drawdown_quantile(w, R, 2, n_paths=2, reprice=lambda y: y, seed=0)
    h.check("the drawdown seed is used", got == [0])


def cases(tier):
    th = tier == "thorough"
    cs = [Case("report T2 N2", report, dict(T=2, N=2, wkind="array"), "T=2, N=2, all symbolic"),
          Case("report T3 N1", report, dict(T=3, N=1, wkind="col"), "T=3, N=1, all symbolic"),
          Case("report demeaned", report, dict(T=3, N=1, wkind="list", demean=True, unit=not th), "T=3, N=1"),
          Case("report T2 N2 demeaned", report, dict(T=2, N=2, wkind="frame", demean=True, unit=not th), "T=2, N=2"),
          Case("report labelled, unnormalised p", report, dict(T=2, N=2, wkind="series", scale=True), "T=2, N=2"),
          Case("defaults", report_default, dict(T=3), "T=3"),
          Case("domain", domain, {}, "N=2"),
          Case("pnl", pnl, dict(T=2, N=3, M=2), "T=2, N=3, 2 portfolios"),
          Case("seeds", seeds, {}, ""), Case("horizon rows", spans, {}, "one scenario, nine horizons")]
    for rep in ("default", "other"):
        cs.append(Case(f"horizons {rep}", horizons, dict(N=2 if rep == "other" else 1, rep=rep), "T=2, horizons 1, 2, 4, two simulations"))
    cs += [Case("drawdown one path", drawdown, dict(T=2, N=1, H=2, paths=1, rep="id", draws="fork"), "T=2, horizon 2, every draw"),
           Case("drawdown three steps", drawdown, dict(T=3, N=1, H=3, paths=1, rep="id", draws="diag"), "T=3, horizon 3"),
           Case("drawdown two assets", drawdown, dict(T=2, N=2, H=2, paths=1, rep="id", draws="diag"), "N=2"),
           Case("drawdown default repricing", drawdown, dict(T=2, N=1, H=2, paths=1, rep="default", draws="diag"), "N=1"),
           Case("drawdown two paths", drawdown, dict(T=2, N=1, H=2, paths=2, rep="id", draws="diag"), "two paths")]
    if th:
        cs += [Case("report T3 N2", report, dict(T=3, N=2, wkind="array"), "T=3, N=2", optional=True, budget=900),
               Case("report T4 N1", report, dict(T=4, N=1, wkind="array"), "T=4, N=1", optional=True, budget=900),
               Case("drawdown three paths", drawdown, dict(T=3, N=1, H=2, paths=3, rep="id", draws="diag"), "three paths", optional=True, budget=900),
               Case("drawdown four steps", drawdown, dict(T=4, N=1, H=4, paths=1, rep="id", draws="diag"), "horizon 4", optional=True, budget=900)]
    return cs
