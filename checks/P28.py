from checks.opt import *
from checks.P27 import front

ASSUMPTIONS = ["frontier selections themselves are decided by P14-P16; the blend by P27; the estimators by P25/P26"]
AS = ["a", "b", "c"]


def weights(h, tag, N, M):
    return h.reals(f"{tag}", (N, M), -1, 1)


def some_front(h, tag, N, M, names=True, alt=False, measure="Volatility"):
    W = weights(h, tag + "w", N, M)
    R, K = h.reals(tag + "m", M, -1, 1), h.reals(tag + "k", M, 0.1, 2)
    F = front(h, W, AS[:N] if names else None, K, R)
    if alt:
        P = h.mod("portfolioapi").PortfolioFrontier
        F = P(weights=W, returns=R, risks=K, risk_measure=measure, asset_names=AS[:N] if names else None,
              alternate_risks={"Volatility": h.reals(tag + "v", M, 0.1, 2), "CVaR": h.reals(tag + "c", M, 0.1, 2)})
    return F


def pick(F, key, kw):
    """The documented selection, by the frontier's own methods."""
    lab = kw.get("risk_label")
    if lab is None and "Volatility" in F.alternate_risks and "Estimation Risk" in (F.risk_measure or "") and key in ("risk_target", "risk_match", "risk_percentile"):
        lab = "Volatility"
    return {"tangency": lambda: F.tangency(risk_free_rate=kw.get("risk_free_rate", 0.0))[0],
            "min_risk": lambda: F.min_risk(risk_label=lab)[0],
            "max_return": lambda: F.max_return()[0],
            "risk_target": lambda: F.at_risk(max_risk=kw["max_risk"], risk_label=lab)[0],
            "risk_match": lambda: F.closest_risk(kw["target_risk"], risk_label=lab)[0],
            "risk_percentile": lambda: F.at_percentile(kw["percentile"], risk_label=lab)[0],
            "column": lambda: F.weights[:, kw["index"]]}[key]()


ALIAS = {"tangency": ("tangency", "max_sharpe", "Sharpe"), "min_risk": ("min_risk", "minimum_risk"), "max_return": ("max_return", "MAXIMUM_RETURN"),
         "risk_target": ("risk_target", "max_return_subject_to_risk"), "risk_match": ("risk_match", "risk_nearest"),
         "risk_percentile": ("risk_percentile", "risk_pct", "percentile"), "column": ("column", "index")}


def options(h, key, label):
    kw = {}
    if key == "tangency":
        kw["risk_free_rate"] = h.real("rf", 0, 0.2)
    if key == "risk_target":
        kw["max_risk"] = h.real("limit", 0.1, 3)
    if key == "risk_match":
        kw["target_risk"] = h.real("limit", 0.1, 3)
    if key == "risk_percentile":
        kw["percentile"] = h.choose("pct", [0.0, 0.5, 1.0, 75])
    if key == "column":
        kw["index"] = h.choose("col", [0, 1, 2, -1])
    if label:
        kw["risk_label"] = label
    return kw


def selector(h, key, alias, label=None, measure="Volatility", alt=False, names=True):
    """make_portfolio_spec's selector picks the documented portfolio, again and again."""
    E_ = h.mod("ensembles")
    N, M = 2, 3
    F = some_front(h, "", N, M, names, alt, measure)
    kw = options(h, key, label)
    given = dict(kw)
    spec = E_.make_portfolio_spec("m", distribution=object(), optimiser=lambda w, **k: F, selector=alias, selector_kwargs=given)
    e = None
    try:
        want = pick(F, key, kw)
    except (ValueError, RuntimeError) as x:
        e = x
    h.check("options are left alone", set(given) == set(kw) and all(given[k] is kw[k] for k in kw))
    if e is not None:
        return h.check("what the frontier refuses is refused", raises(lambda: spec.selector(F), type(e)) is not None)
    for again in (1, 2):
        got = spec.selector(F)
        h.check("the selector picks the portfolio it describes", h.eq(vals(got), vals(want)))
        if names:
            h.check("the selection carries the asset names", isinstance(got, pd.Series) and list(got.index) == AS[:N])
    h.check("options are left alone", set(given) == set(kw))


def selector_misc(h):
    E_ = h.mod("ensembles")
    F = some_front(h, "", 2, 2)
    make = lambda s, **k: E_.make_portfolio_spec("m", distribution=object(), optimiser=lambda w, **q: F, selector=s, selector_kwargs=k)
    bad = lambda f: raises(f, ValueError) is not None
    h.check("unknown selectors and missing options are refused", bad(lambda: make("best")) and bad(lambda: make("risk_target")) and bad(lambda: make("risk_match")) and bad(lambda: make("risk_percentile")) and bad(lambda: make("column")))
    seen = []
    spec = make(lambda fr, **k: seen.append((fr, k)) or fr.weights[:, 1], shift=3)
    h.check("a selector of one's own is called with the frontier and its options", h.eq(vals(spec.selector(F)), F.weights[:, 1]))
    h.check("a selector of one's own is called with the frontier and its options", len(seen) == 1 and seen[0][0] is F and seen[0][1] == dict(shift=3))


def blends(h):
    """Stand-ins for the two blends that record what they are given."""
    E_ = h.mod("ensembles")
    seen = []
    reals = (E_.average_exposures, E_.exposure_stacking)

    def avg(s, weights=None):
        seen.append(("average", s, weights, None, None))
        return reals[0](s, weights)

    def stack(s, L=None, *, solver_options=None):
        seen.append(("stack", s, None, L, solver_options))
        return pd.Series([0.0] * len(s), index=s.index if hasattr(s, "index") else None)
    E_.average_exposures, E_.exposure_stacking = avg, stack
    return E_, seen, lambda: (setattr(E_, "average_exposures", reals[0]), setattr(E_, "exposure_stacking", reals[1]))


def assemble(h, K, ensemble, combine, fold, weighted, select, own=False, form="series", M=2, N=2):
    """Each model once, in order, labelled; the requested blends of the requested portfolios."""
    E_, seen, restore = blends(h)
    names = ["m2", "m0", "m1", "m3"][:K]
    Fs = [some_front(h, f"f{k}", N, M) for k in range(K)]
    made = [0] * K
    cols = [h.choose(f"s{k}", [0, 1]) if M == 2 else (k + 2) % M for k in range(K)]

    def factory(k):
        def make():
            made[k] += 1
            return Fs[k]
        return make

    def sel(k):
        c = cols[k]
        return {"series": lambda fr: pd.Series(list(fr.weights[:, c]), index=AS[:N], name="zz"), "array": lambda fr: fr.weights[:, c].copy(),
                "tuple": lambda fr: (pd.Series(list(fr.weights[:, c]), index=AS[:N]), 1.0, 2.0), "list": lambda fr: list(fr.weights[:, c])}[form]
    fsel = [(h.choose(f"t{k}", [0, 1] if M == 2 else [M - 1]),) if select and k != 1 else None for k in range(K)]
    specs = [E_.EnsembleSpec(name=names[k], frontier_factory=factory(k), selector=sel(k), metadata={"k": k}, frontier_selection=fsel[k]) for k in range(K)]
    kw = {}
    if ensemble != "default":
        kw["ensemble"] = ensemble
    if combine:
        kw["combine"] = combine
    if fold is not None:
        kw["stack_folds"] = fold
    w = list(h.reals("ew", K, 0.1, 2)) if weighted else None
    if weighted:
        kw["ensemble_weights"] = list(w)
    if own:
        kw["stack_kwargs"] = {"maxiters": 33}
    try:
        out = E_.assemble_portfolio_ensemble(specs, **kw)
        first = list(seen)
        del seen[:]
        again = E_.assemble_portfolio_ensemble(specs, **kw)
        second = list(seen)
    finally:
        restore()
    h.check("each model is evaluated once", made == [2] * K)
    h.check("models stay in order", list(out.frontiers) == names and list(out.selections.columns) == names and all(out.frontiers[n] is f for n, f in zip(names, Fs)) and [out.metadata[n]["k"] for n in names] == list(range(K)))
    h.check("assets stay in order", list(out.selections.index) == AS[:N])
    S_ = vals(out.selections)
    for k in range(K):
        h.check("the selected portfolio of every model", h.eq(S_[:, k], Fs[k].weights[:, cols[k]]))
    h.check("the same specification gives the same selection", h.eq(vals(again.selections), S_))
    want = {"default": ["stack"], None: [], "none": [], "average": ["average"], "stack": ["stack"], "Average": ["average"]}.get(ensemble if isinstance(ensemble, (str, type(None))) else 0)
    if want is None:
        want = [x.strip().lower() for x in ensemble]
    h.check("the requested blends, no others", sorted(out.ensembles) == sorted(want) and (out.average is not None) == ("average" in want) and (out.stacked is not None) == ("stack" in want))
    h.check("the same specification is blended the same way", [s[0] for s in first] == [s[0] for s in second])
    if not want:
        return
    if combine in (None, "selected"):
        X = S_
    else:
        c = []
        for k in range(K):
            if fsel[k] is not None:
                c.append(fsel[k][0])
            else:
                best = 0
                for j in range(1, M):
                    if bool(Fs[k].risks[j] < Fs[k].risks[best]):
                        best = j
                c.append(best)
        X = arr(h, [[Fs[k].weights[i, c[k]] for k in range(K)] for i in range(N)])
    ws = w if weighted else [1] * K
    if "average" in want:
        a = out.ensembles["average"]
        h.check("blends carry the asset names", list(a.index) == AS[:N])
        for i in range(N):
            h.check("the average blends the requested portfolios", h.eq(vals(a)[i] * tot(ws), dot(ws, X[i])))
    if "stack" in want:
        st = [s for s in first if s[0] == "stack"]
        if len(st) != 1:
            raise sym.Unsupported("another way to the blend")
        _, s, _, L, opt = st[0]
        h.check("the stack blends the requested portfolios", h.eq(vals(s), X))
        h.check("the stack uses the requested folds", L == (min(3, K) if fold is None else max(1, min(fold, K))))
        h.check("the stack uses the requested options", (opt or {}) == ({"maxiters": 33} if own else {}))


def same_name(h):
    """Two models of one name are two models."""
    E_, seen, restore = blends(h)
    Fs = [some_front(h, f"f{k}", 2, 2) for k in range(2)]
    specs = [E_.EnsembleSpec(name="m", frontier_factory=(lambda f=f: f), selector=lambda fr: fr.weights[:, 0], frontier_selection=(1,)) for f in Fs]
    try:
        for comb, c in (("selected", 0), ("frontier", 1)):
            try:
                out = E_.assemble_portfolio_ensemble(specs, ensemble="average", combine=comb)
            except ValueError:
                continue
            h.check("the average blends the requested portfolios", h.eq(2 * vals(out.average), Fs[0].weights[:, c] + Fs[1].weights[:, c]))
    finally:
        restore()


def other_order(h):
    """Selections are blended by asset name."""
    E_, seen, restore = blends(h)
    W = weights(h, "w", 3, 2)
    other = ["c", "a", "b"]
    Fs = [front(h, W[:, :1], AS, h.reals("k", 1, 0.1, 2), h.reals("m", 1, -1, 1)), front(h, W[:, 1:], other, h.reals("k2", 1, 0.1, 2), h.reals("m2", 1, -1, 1))]
    form = h.choose("form", [0, 1])
    specs = [E_.EnsembleSpec(name=f"m{k}", frontier_factory=(lambda f=f: f), selector=(lambda fr: fr.min_risk()) if form else (lambda fr: fr.weights[:, 0])) for k, f in enumerate(Fs)]
    try:
        try:
            out = E_.assemble_portfolio_ensemble(specs, ensemble="average")
        except ValueError:
            return
        for a in AS:
            want = W[AS.index(a), 0] + W[other.index(a), 1]
            h.check("selections are blended by asset name", h.eq(2 * out.average[a], want))
            h.check("selections are listed by asset name", h.eq(out.selections.loc[a].tolist()[0], W[AS.index(a), 0]))
            h.check("selections are listed by asset name", h.eq(out.selections.loc[a].tolist()[1], W[other.index(a), 1]))
        h.check("different asset orders of whole frontiers are refused or aligned", raises(lambda: E_.assemble_portfolio_ensemble(specs, ensemble="average", combine="frontier"), ValueError) is not None)
    finally:
        restore()


def any_callable(h):
    E_ = h.mod("ensembles")
    import functools

    class Build:
        def __call__(self, w, **k):
            return (w.dist, k)
    for f in (Build(), functools.partial(Build(), extra=1)):
        d = object()
        A_ = h.mod("portfolioapi")
        real, A_.PortfolioWrapper = A_.PortfolioWrapper, type("W", (), {"__init__": lambda s, d: setattr(s, "dist", d)})
        try:
            got = E_.make_portfolio_spec("m", distribution=d, optimiser=f, optimiser_kwargs={"n": 2}, selector="min_risk").frontier_factory()
        finally:
            A_.PortfolioWrapper = real
        h.check("any callable can be the optimiser", got[0] is d and got[1].get("n") == 2)


def assemble_refuse(h):
    E_ = h.mod("ensembles")
    F = some_front(h, "f", 2, 2)
    mk = lambda s=None: E_.EnsembleSpec(name="m", frontier_factory=lambda: F, selector=lambda fr: fr.weights[:, 0], frontier_selection=s)
    bad = lambda f: raises(f, ValueError) is not None
    go = E_.assemble_portfolio_ensemble
    h.check("no model, unknown blends or modes are refused", bad(lambda: go([])) and bad(lambda: go([mk()], ensemble="median")) and bad(lambda: go([mk()], ensemble="average", combine="all")))
    h.check("one column per frontier", bad(lambda: go([mk((0, 1))], ensemble="average", combine="frontier")))


def distribution(h, mode, weighted=None):
    """The model is optimised on the distribution its data describe."""
    E_ = h.mod("ensembles")
    M = h.mod("moments")
    if h.symbolic:
        tame(h)
        h.stub("cholesky", lambda a: a)
        V = h.mod("utils.validation")
        V.is_psd = lambda *a, **k: True
    T, N = 3, 2
    X = h.reals("x", (T, N), -1, 1)
    ix = ["t0", "t1", "t2"]
    R = frame(X, ix, AS[:N])
    kw = dict(returns=R)
    p = None
    if weighted:
        p = list(probs(h, T))
        if weighted == "list":
            kw["probabilities"] = list(p)
        if weighted == "series":
            kw["probabilities"] = pd.Series(rot(p), index=rot(ix))
        if weighted == "scaled":
            kw["probabilities"] = [3 * x for x in p]
    Y = X
    if mode == "preprocess":
        kw["preprocess"] = lambda d: 2 * d + 1
        Y = 2 * X + 1
    a = h.real("af", 0.5, 12)
    if mode == "annual":
        kw["projection"] = dict(annualization_factor=a)
    if mode == "order":
        kw["projection"] = dict(transform=lambda m, c: (m + 1, c * 3), annualization_factor=a)
    if mode == "scenarios":
        kw["use_scenarios"] = True
    D = h.mod("portfolioapi").AssetsDistribution
    if mode in ("given", "factory"):
        mine = D(mu=pd.Series(list(X[0]), index=AS[:N]), cov=frame(h.const(np.eye(N)), AS[:N], AS[:N]))
        kw = dict(distribution=mine) if mode == "given" else dict(distribution_factory=lambda: mine)
    seen = []

    def opt(wrapper, **k):
        seen.append((wrapper, k))
        return "frontier"
    okw = {"num_portfolios": 7}
    spec = E_.make_portfolio_spec("m", optimiser=opt, optimiser_kwargs=okw, selector="min_risk", **kw)
    h.check("the model's frontier is the optimiser's", spec.frontier_factory() == "frontier" and spec.frontier_factory() == "frontier")
    h.check("the optimiser gets its options, every time", [s[1] for s in seen] == [{"num_portfolios": 7}] * 2 and okw == {"num_portfolios": 7})
    for wrapper, _ in seen:
        d = wrapper.dist
        if mode in ("given", "factory"):
            h.check("a given distribution is used", d is mine)
            continue
        h.check("assets keep their names", list(d.asset_names) == AS[:N])
        ps = p or [Fraction(1, T) if h.symbolic else 1.0 / T] * T
        m = [dot(ps, Y[:, j]) for j in range(N)]
        c = [[tot(q * (x - m[i]) * (y - m[j]) for q, x, y in zip(ps, Y[:, i], Y[:, j])) for j in range(N)] for i in range(N)]
        if mode == "annual":
            m, c = [a * x for x in m], [[a * x for x in r] for r in c]
        if mode == "order":
            m, c = [a * x + 1 for x in m], [[3 * a * x for x in r] for r in c]
        if mode == "scenarios":
            h.check("the scenarios are used", h.eq(vals(d.scenarios), X) if d.scenarios is not None else False)
            h.check("the probabilities are used", h.eq(vals(d.probabilities), arr(h, ps)))
        h.check("the estimated mean", h.eq(vals(d.mu), arr(h, m)))
        for i in range(N):
            for j in range(N):
                h.check("the estimated covariance", h.all(h.le(d.cov[i, j] - c[i][j], 1e-6), h.ge(d.cov[i, j] - c[i][j], -1e-6)))


def estimators(h):
    """Estimator names and options reach the estimator."""
    E_ = h.mod("ensembles")
    M = h.mod("moments")
    X = h.reals("x", (3, 2), -1, 1)
    seen, real = [], M.estimate_moments

    def spy(R, p=None, **k):
        seen.append((R, p, k))
        return pd.Series([0.5, 0.25], index=AS[:2]), pd.DataFrame(np.eye(2), AS[:2], AS[:2])
    mk, ck = {"target": "grand_mean"}, {"target": "identity"}
    M.estimate_moments = spy
    try:
        spec = E_.make_portfolio_spec("m", returns=frame(X, None, AS[:2]), mean_estimator="james_stein", cov_estimator="lw", mean_kwargs=mk, cov_kwargs=ck, optimiser=lambda w, **k: w, selector="min_risk", metadata={"z": 1})
        mk["target"] = ck["target"] = "changed later"
        spec.frontier_factory()
    finally:
        M.estimate_moments = real
    if len(seen) != 1:
        raise sym.Unsupported("another way to the estimator")
    R, p, k = seen[0]
    h.check("the estimators get data and options", h.eq(vals(R), X))
    h.check("the estimators get data and options", p is None and k.get("mean_estimator") == "james_stein" and k.get("cov_estimator") == "lw" and k.get("mean_kwargs") == {"target": "grand_mean"} and k.get("cov_kwargs") == {"target": "identity"})
    h.check("the model remembers what it is", spec.metadata.get("z") == 1 and spec.metadata.get("mean_estimator") == "james_stein" and spec.metadata.get("cov_estimator") == "lw" and spec.name == "m")


OPT = {"mean_variance": "variance_frontier", "mv": "variance_frontier", "cvar": "cvar_frontier", "mean-cvar": "cvar_frontier", "CVaR": "cvar_frontier", "rrp": "relaxed_risk_parity_frontier", "relaxed_risk_parity": "relaxed_risk_parity_frontier", "robust": "robust_lambda_frontier", None: "variance_frontier"}


def optimiser(h, key, cons):
    """Optimiser names, options and constraints reach the right optimiser, with every rule in place."""
    E_ = h.mod("ensembles")
    A_ = h.mod("portfolioapi")
    N = 2
    dist = A_.AssetsDistribution(mu=pd.Series([0.5, 0.25], index=AS[:N]), cov=pd.DataFrame(np.eye(N), AS[:N], AS[:N]))
    u = h.real("u", 0.5, 1)
    w = h.real("tw", 0.6, 1.5)
    spec_kw = {"long_only": True, "total_weight": w, "bounds": {0: (0.0, u)}} if cons else None
    okw = dict(num_portfolios=4)
    if cons == "dict":
        okw["constraints"] = dict(spec_kw)
    if cons == "object":
        okw["constraints"] = h.mod("utils.constraints").Constraints(**spec_kw)
    seen = []
    W = A_.PortfolioWrapper
    every = sorted(set(OPT.values()))
    real = {n: getattr(W, n) for n in every}

    def spy(n):
        def f(self, *a, **k):
            if n == OPT[key]:
                seen.append((self, a, k))
                return "frontier"
            return n
        return f
    for n in every:
        setattr(W, n, spy(n))
    try:
        kw = {} if key is None else dict(optimiser=key)
        spec = E_.make_portfolio_spec("m", distribution=dist, optimiser_kwargs=okw, **kw)
        out = [spec.frontier_factory(), spec.frontier_factory()]
    finally:
        for n in every:
            setattr(W, n, real[n])
    h.check("the named optimiser builds the frontier", out == ["frontier"] * 2 and len(seen) == 2)
    z = fresh_vec(h, "z", N) if h.symbolic else None
    for wr, a, k in seen:
        h.check("its options arrive, every time", k == {"num_portfolios": 4} and not a)
        h.check("it works on the model's distribution", wr.dist is dist)
        if cons:
            if h.symbolic:
                doc = [(-z[0], 0, "le"), (-z[1], 0, "le"), (z[0], u, "le"), (tot(z), w, "eq")]
                rows = lin_rows(wr.G, wr.h, wr.A, wr.b, z)
                h.check("every stated rule is enforced", h.implies(holds(rows), goal_rows(h, doc)))
                h.check("nothing else is enforced", h.implies(holds(doc), goal_rows(h, rows)))
            else:
                for q in (0.0, 0.2, 0.45, float(u) - 0.01, float(u) + 0.01, float(w)):
                    z2 = np.array([q, w - q])
                    ok = -1e-9 <= q <= u + 1e-9 and q <= w + 1e-9
                    h.check("exactly the stated rules", near_feasible(lin_rows(wr.G, wr.h, wr.A, wr.b, z2), 1e-6) == ok)
                h.check("exactly the stated rules", not near_feasible(lin_rows(wr.G, wr.h, wr.A, wr.b, np.array([w / 4, w / 4])), 1e-6))
    h.check("options are left alone", set(okw) == {"num_portfolios"} | ({"constraints"} if cons else set()))


def through_wrapper(h, scen, key):
    """A wrapper's own specs and assembly equal the free functions on its distribution."""
    E_ = h.mod("ensembles")
    A_ = h.mod("portfolioapi")
    if h.symbolic:
        tame(h)
        h.stub("cholesky", lambda a: a)
        h.mod("utils.validation").is_psd = lambda *a, **k: True
    N, T = 2, 3
    if scen:
        R, p = h.reals("r", (T, N), -1, 1), probs(h, T)
        W = A_.PortfolioWrapper.from_scenarios(frame(R.copy(), None, AS[:N]), probabilities=p.copy())
    else:
        W = A_.PortfolioWrapper.from_moments(pd.Series(list(h.reals("m", N, -1, 1)), index=AS[:N]), frame(h.const(np.array([[1.0, 0.25], [0.25, 0.5]])), AS[:N], AS[:N]))
    F = some_front(h, "f", N, 2)
    seen = []

    def opt(wrapper, **k):
        seen.append((wrapper, k))
        return F
    col = h.choose("col", [0, 1])
    sk = dict(index=col) if key == "column" else {}
    okw = {"n": 2}
    spec = W.make_ensemble_spec("m", optimiser=opt, optimiser_kwargs=okw, selector=key, selector_kwargs=sk, frontier_selection=(1 - col,), metadata={"z": 1})
    out = W.assemble_ensembles([spec, spec.__class__(name="n", frontier_factory=lambda: F, selector=lambda fr: fr.weights[:, 1], frontier_selection=(1,))], ensemble="average", combine="frontier", ensemble_weights=[1.0, 3.0])
    h.check("the model's frontier is built once with its options", len(seen) == 1 and seen[0][1] == {"n": 2} and okw == {"n": 2})
    d, e = seen[0][0].dist, W.dist
    h.check("assets keep their names", list(d.asset_names) == AS[:N])
    h.check("the wrapper's moments are used", h.all(h.eq(vals(d.mu), vals(e.mu)), h.eq(vals(d.cov), vals(e.cov))))
    h.check("the wrapper's scenarios are used", h.all(h.eq(vals(d.scenarios), R), h.eq(np.asarray(vals(d.probabilities)), p)) if scen else d.scenarios is None)
    want = pick(F, key, sk)
    h.check("the selected portfolio of every model", h.eq(vals(out.selections)[:, 0], vals(want)))
    h.check("the selected portfolio of every model", h.eq(vals(out.selections)[:, 1], F.weights[:, 1]))
    h.check("models stay in order", list(out.selections.columns) == ["m", "n"] and spec.metadata.get("z") == 1)
    for i in range(N):
        h.check("the average blends the requested portfolios", h.eq(4 * vals(out.average)[i], F.weights[i, 1 - col] + 3 * F.weights[i, 1]))


def refusals(h):
    E_ = h.mod("ensembles")
    if h.symbolic:
        tame(h)
    X = h.reals("x", (3, 2), -1, 1)
    R = frame(X, ["t0", "t1", "t2"], AS[:2])
    run = lambda **k: E_.make_portfolio_spec("m", selector="min_risk", **{**dict(returns=R, optimiser=lambda w, **q: w), **k}).frontier_factory()
    bad = lambda f: raises(f, ValueError) is not None
    h.check("missing data and unknown names are refused", bad(lambda: run(returns=None)) and bad(lambda: run(optimiser="best")) and bad(lambda: run(mean_estimator="zz")))
    h.check("missing scenario labels are refused", bad(lambda: run(probabilities=pd.Series([0.5, 0.25, 0.25], index=["t0", "t1", "zz"]))))
    h.check("unknown projection options are refused", bad(lambda: run(projection={"annualisation": 12})))


def percentile_columns(h, K, M, lab):
    E_ = h.mod("ensembles")
    Fs = [some_front(h, f"f{k}", 2, M, alt=True) for k in range(K)]
    q = h.choose("pct", [0.0, 0.3, 0.5, 1.0, 60])
    for lab in (lab,):
        got = E_.risk_percentile_selections(Fs, q, risk_label=lab)
        h.check("one column per frontier at the risk percentile", [list(g) for g in got] == [[F.index_at_risk_percentile(q, risk_label=lab)] for F in Fs])


def cases(tier):
    th = tier == "thorough"
    cs, J = [], 30
    for key, al in ALIAS.items():
        for a in al:
            cs.append(Case(f"selector {a}", selector, dict(key=key, alias=a), "3 columns, 2 assets", jitter=J))
        if key in ("min_risk", "risk_target", "risk_match", "risk_percentile"):
            cs.append(Case(f"selector {key} labelled", selector, dict(key=key, alias=key, label="CVaR", alt=True), "3 columns", jitter=J))
            cs.append(Case(f"selector {key} estimation", selector, dict(key=key, alias=key, measure="Estimation Risk (zeta)", alt=True), "3 columns", jitter=J))
            cs.append(Case(f"selector {key} primary", selector, dict(key=key, alias=key, measure="CVaR (alpha=0.05)", alt=True), "3 columns", jitter=J))
    cs.append(Case("selector column unnamed", selector, dict(key="column", alias="column", names=False), "3 columns", jitter=J))
    cs.append(Case("selector of one's own", selector_misc, {}, "2 columns", jitter=J))
    for K in (1, 2, 3) + ((4,) if th else ()):
        for e in ("default", None, "none", "average", "Average", "stack", ("average", "stack"), ["stack", " Average "]):
            cs.append(Case(f"assemble {K} {e}", assemble, dict(K=K, ensemble=e, combine=None, fold=None, weighted=K == 2, select=False, own=e == "stack"), f"{K} models", jitter=J))
    for K in (2, 3):
        for sel in (False, True):
            cs.append(Case(f"assemble {K} frontier {sel}", assemble, dict(K=K, ensemble=("average", "stack"), combine="frontier" if sel else "Frontier", fold=None, weighted=sel, select=sel), f"{K} models", jitter=J))
        for M, N in ((3, 2), (5, 3)):
            if K * M < 12:
                cs.append(Case(f"assemble {K} frontiers of {M}", assemble, dict(K=K, ensemble=("average", "stack"), combine="frontier", fold=None, weighted=True, select=K == 3, M=M, N=N), f"{K} models, {M} columns", jitter=J))
        for fold in (1, 2, 3, 9):
            cs.append(Case(f"assemble {K} folds {fold}", assemble, dict(K=K, ensemble="stack", combine="selected", fold=fold, weighted=False, select=True), f"{K} models", jitter=J))
    for f in ("array", "tuple", "list"):
        cs.append(Case(f"assemble from {f}", assemble, dict(K=2, ensemble="average", combine=None, fold=None, weighted=False, select=False, form=f), "2 models", jitter=J))
    cs.append(Case("same name", same_name, {}, "2 models", jitter=J))
    cs.append(Case("other asset order", other_order, {}, "2 models, 3 assets", jitter=J))
    cs.append(Case("any callable", any_callable, {}, "", jitter=J))
    cs.append(Case("assemble refusals", assemble_refuse, {}, "1 model"))
    for m in ("plain", "preprocess", "annual", "order", "scenarios", "given", "factory"):
        for w in (None, "list", "series", "scaled"):
            if w and m not in ("plain", "scenarios", "preprocess") or (m == "preprocess" and w in ("scaled", "list")):
                continue
            cs.append(Case(f"distribution {m} {w}", distribution, dict(mode=m, weighted=w), "T=3, N=2", jitter=J))
    cs.append(Case("estimators", estimators, {}, "T=3, N=2", jitter=J))
    for k in OPT:
        for c in (None, "dict", "object"):
            if c and k not in ("mv", "cvar", "rrp", "robust"):
                continue
            cs.append(Case(f"optimiser {k} {c}", optimiser, dict(key=k, cons=c), "N=2", jitter=J))
    for sc in (False, True):
        for key in ("column", "max_return"):
            cs.append(Case(f"through the wrapper {sc} {key}", through_wrapper, dict(scen=sc, key=key), "N=2, T=3, 2 columns", jitter=J))
    cs.append(Case("refusals", refusals, {}, "T=3, N=2"))
    for K, M in ((1, 3), (2, 2)):
        for lab in (None, "CVaR"):
            cs.append(Case(f"percentile columns {K} {M} {lab}", percentile_columns, dict(K=K, M=M, lab=lab), f"{K} frontiers, {M} columns", jitter=J))
    return cs
