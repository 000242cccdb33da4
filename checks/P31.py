from checks.opt import *
from checks.P26 import calm

ASSUMPTIONS = ["simulation, repricing, shrinkage and log/simple moment conversion themselves are decided by their own properties; here the distribution must hold exactly their results",
               "covariance repair returns positive semidefinite matrices unchanged (decided by P26)"]
AS = ["a", "b", "c"]


def quiet(h):
    if h.symbolic:
        calm(h)
        V = h.mod("utils.validation")
        V.is_psd = lambda *a, **k: True


def moments_of(R, p):
    N = R.shape[1]
    m = [dot(p, R[:, j]) for j in range(N)]
    return m, [[tot(q * (x - m[i]) * (y - m[j]) for q, x, y in zip(p, R[:, i], R[:, j])) for j in range(N)] for i in range(N)]


def uniform(h, T):
    return [S(Fraction(1, T)) if h.symbolic else 1 / T] * T


def wrap_p(h, p, form, ix):
    return {"array": lambda: p.copy(), "list": lambda: list(p), "column": lambda: p.reshape(-1, 1).copy(), "series": lambda: pd.Series(list(p), index=ix) if ix is not None else pd.Series(list(p)),
            "permuted": lambda: pd.Series(rot(p), index=rot(ix)), "positional": lambda: pd.Series(list(p))}[form]()


def scenarios(h, T, N, frame_, pform, scaled=False, mu=None, cov=None, names=False):
    """Moments, probabilities and names of a scenario distribution."""
    quiet(h)
    D = h.mod("portfolioapi").AssetsDistribution
    R = h.reals("r", (T, N), -1, 1)
    ix = ["t%d" % t for t in range(T)]
    kw = dict(scenarios=frame(R.copy(), ix, AS[:N]) if frame_ else R.copy())
    p = uniform(h, T)
    if pform:
        p = probs(h, T, positive=False)
        c = h.real("mass", 0.2, 5) if scaled else 1
        kw["probabilities"] = wrap_p(h, p * c, pform, ix)
    if names:
        kw["asset_names"] = tuple(AS[:N])
    m, c = moments_of(R, p)
    if mu:
        m = list(h.reals("m", N, -1, 1))
        kw["mu"] = pd.Series(m, index=AS[:N]) if mu == "series" else arr(h, m) if mu == "array" else arr(h, m).reshape(-1, 1)
    if cov:
        C, _ = pd_matrix(h, "L", N)
        c = [list(r) for r in C]
        kw["cov"] = frame(C.copy(), AS[:N], AS[:N]) if cov == "frame" else C.copy()
    d = D(**kw)
    h.check("scenarios are kept", h.eq(vals(d.scenarios), R))
    h.check("probabilities are kept, as shares", h.eq(np.asarray(vals(d.probabilities)), arr(h, list(p))))
    h.check("expected returns are those of the scenarios" if not mu else "given expected returns are kept", h.eq(np.asarray(vals(d.mu)), arr(h, m)))
    h.check("covariances are those of the scenarios" if not cov else "given covariances are kept", h.eq(vals(d.cov), arr(h, c)))
    h.check("sizes", d.N == N and d.T == T)
    named = frame_ or names or mu == "series" or cov == "frame"
    h.check("asset names are kept", (list(d.asset_names) == AS[:N]) if named else d.asset_names is None)


def parametric(h, N, mform, cform, names=False):
    quiet(h)
    D = h.mod("portfolioapi").AssetsDistribution
    m = h.reals("m", N, -1, 1)
    C, _ = pd_matrix(h, "L", N)
    kw = {}
    if mform:
        kw["mu"] = {"series": lambda: pd.Series(list(m), index=AS[:N]), "array": lambda: m.copy(), "list": lambda: list(m), "column": lambda: m.reshape(-1, 1).copy()}[mform]()
    if cform:
        kw["cov"] = frame(C.copy(), AS[:N], AS[:N]) if cform == "frame" else C.copy()
    if names:
        kw["asset_names"] = AS[:N]
    d = D(**kw)
    h.check("given expected returns are kept", h.eq(np.asarray(vals(d.mu)), m) if mform else d.mu is None)
    h.check("given covariances are kept", h.eq(vals(d.cov), C) if cform else d.cov is None)
    h.check("no scenarios appear", d.scenarios is None and d.T is None and d.N == N)
    h.check("asset names are kept", (list(d.asset_names) == AS[:N]) if (names or mform == "series" or cform == "frame") else d.asset_names is None)


def permuted(h, mu, cov, scen, names):
    """Labels in another order are matched or refused, never mixed up."""
    quiet(h)
    D = h.mod("portfolioapi").AssetsDistribution
    N = 2
    m = h.reals("m", N, -1, 1)
    C, _ = pd_matrix(h, "L", N)
    R = h.reals("r", (2, N), -1, 1)
    lab, rev = AS[:N], rot(AS[:N])
    kw = {}
    if mu:
        kw["mu"] = pd.Series(list(m) if mu == 1 else rot(m), index=lab if mu == 1 else rev)
    if cov:
        ri, ci = {1: (lab, lab), 2: (rev, rev), 3: (lab, rev), 4: (rev, lab)}[cov]
        kw["cov"] = frame(arr(h, [[C[lab.index(a), lab.index(b)] for b in ci] for a in ri]), ri, ci)
    if scen:
        o = [0, 1] if scen == 1 else [1, 0]
        kw["scenarios"] = frame(R[:, o], None, [lab[i] for i in o])
    if names:
        kw["asset_names"] = lab if names == 1 else rev
    box = []
    if raises(lambda: box.append(D(**kw)), ValueError) is not None:
        return h.check("labels in another order are matched or refused", True)
    d = box[0]
    o = [lab.index(n) for n in d.asset_names]
    if mu:
        h.check("labels in another order are matched or refused", h.eq(vals(d.mu), m[o]))
    if cov:
        h.check("labels in another order are matched or refused", h.eq(vals(d.cov), C[np.ix_(o, o)]))
    if scen:
        h.check("labels in another order are matched or refused", h.eq(vals(d.scenarios), R[:, o]))


def refuse(h):
    quiet(h)
    D = h.mod("portfolioapi").AssetsDistribution
    m, C = h.reals("m", 2, -1, 1), h.const(np.array([[1.0, 0.25], [0.25, 1.0]]))
    m3, C3 = h.reals("n", 3, -1, 1), h.const(np.eye(3))
    R = h.reals("r", (2, 2), -1, 1)
    bad = lambda **k: raises(lambda: D(**k), ValueError) is not None
    nan, inf = float("nan"), float("inf")
    sr = lambda v, ix: pd.Series(list(v), index=ix)
    h.check("an empty distribution is refused", bad() and bad(probabilities=h.const(np.array([0.5, 0.5]))) and bad(asset_names=["a"]))
    h.check("shapes that disagree are refused", bad(mu=m3, cov=C) and bad(mu=m, cov=C3) and bad(scenarios=R, mu=m3) and bad(scenarios=R, cov=C3) and bad(scenarios=R, mu=m3, cov=C3) and bad(scenarios=R, mu=m, cov=C3))
    h.check("shapes that disagree are refused", bad(scenarios=R[0]) and bad(mu=m, cov=C[:1]) and bad(mu=m, cov=C[0]) and bad(scenarios=R.reshape(1, 2, 2)))
    h.check("probabilities of another length are refused", bad(scenarios=R, probabilities=h.const(np.ones(3) / 3)) and bad(scenarios=R, probabilities=h.const(np.ones(1))) and bad(scenarios=R, probabilities=pd.Series([0.25] * 4)))
    h.check("impossible probabilities are refused", bad(scenarios=R, probabilities=np.array([-0.5, 1.5])) and bad(scenarios=R, probabilities=np.array([0.0, 0.0])) and bad(scenarios=R, probabilities=np.array([nan, 1.0])) and bad(scenarios=R, probabilities=np.array([inf, 1.0])))
    h.check("names that disagree are refused", bad(mu=sr(m, ["a", "b"]), cov=frame(C, ["a", "z"], ["a", "z"])) and bad(mu=sr(m, ["a", "z"]), scenarios=frame(R, None, ["a", "b"])) and bad(cov=frame(C, ["a", "b"], ["a", "z"]), mu=m) and bad(scenarios=frame(R, None, ["a", "b"]), asset_names=["a", "z"]) and bad(mu=sr(m, ["a", "b"]), asset_names=["x", "y"]))
    h.check("names of another length are refused", bad(mu=m, cov=C, asset_names=["a"]) and bad(scenarios=R, asset_names=AS) and bad(mu=sr(m, ["a", "b"]), cov=C, asset_names=AS))
    h.check("values that are not numbers are refused", bad(mu=np.array([nan, 0.0]), cov=np.eye(2)) and bad(mu=np.array([0.0, inf]), cov=np.eye(2)) and bad(mu=np.zeros(2), cov=np.array([[1.0, nan], [nan, 1.0]])) and bad(scenarios=np.array([[0.0, nan], [0.0, 0.0]])) and bad(scenarios=np.array([[0.0, inf], [0.0, 0.0]]), mu=np.zeros(2), cov=np.eye(2)))


def negative(h, T):
    """Exactly the weights with no negative entry and positive mass are accepted."""
    quiet(h)
    D = h.mod("portfolioapi").AssetsDistribution
    R = h.const(np.arange(2.0 * T).reshape(T, 2) / 8)
    q = h.reals("q", T, -1, 2)
    good = band(*[x >= 0 for x in q], tot(q) > 0)
    h.assume(bor(tot(q) >= 0.01, tot(q) <= 0))
    e = raises(lambda: D(scenarios=R, probabilities=q.copy(), mu=h.const(np.zeros(2)), cov=h.const(np.eye(2))), ValueError)
    h.check("exactly the possible probabilities are accepted", iff(good, e is None))


def rules(h, N, w, kind, build, dist_names=True):
    """The wrapper enforces the rules its factory was given."""
    u, s = h.real("u", 0.5, 0.9), h.real("s", 0.6, 1.2)
    z = fresh_vec(h, "z", N) if h.symbolic else None
    kw = {"default": {}, "short": dict(long_only=False, total_weight=s), "bounds": dict(bounds=(0.0, u), total_weight=s), "dict": dict(constraints={"long_only": True, "total_weight": s, "bounds": {0: (0.0, u)}}, total_weight=0.1, long_only=False)}[kind]
    wr = build(kw)
    if kind == "default":
        doc = lambda z: [(-z[i], 0, "le") for i in range(N)] + [(tot(z), 1, "eq")]
    if kind == "short":
        doc = lambda z: [(tot(z), s, "eq")]
    if kind == "bounds":
        doc = lambda z: [(-z[i], 0, "le") for i in range(N)] + [(z[i], u, "le") for i in range(N)] + [(tot(z), s, "eq")]
    if kind == "dict":
        doc = lambda z: [(-z[i], 0, "le") for i in range(N)] + [(z[0], u, "le"), (tot(z), s, "eq")]
    if h.symbolic:
        rows, d = lin_rows(wr.G, wr.h, wr.A, wr.b, z), doc(z)
        h.check("the wrapper enforces the stated rules", h.implies(holds(rows), goal_rows(h, d)))
        h.check("the wrapper enforces nothing else", h.implies(holds(d), goal_rows(h, rows)))
    else:
        rng = np.random.RandomState(0)
        for t in range(60):
            z2 = rng.uniform(-0.4 if t % 3 == 0 else 0, 1, N)
            z2 = z2 / (z2.sum() if abs(z2.sum()) > 0.1 else 1) * (1.0 if kind == "default" else float(s)) * (1 if t % 5 else 0.9)
            if min(abs(float(np.ravel(a)[0]) - b) for a, b, k in doc(z2) if k == "le") < 1e-4 if any(k == "le" for *_, k in doc(z2)) else False:
                continue
            h.check("the wrapper enforces exactly the stated rules", near_feasible(lin_rows(wr.G, wr.h, wr.A, wr.b, z2), 1e-6) == near_feasible(doc(z2), 1e-6))
    return wr


def same(h, d, R, p, names, what="scenarios"):
    h.check(f"the {what} are used", h.eq(vals(d.scenarios), R))
    h.check("the probabilities are used", h.eq(np.asarray(vals(d.probabilities)), arr(h, list(p))))
    m, c = moments_of(R, p)
    h.check("expected returns are those of the scenarios", h.eq(np.asarray(vals(d.mu)), arr(h, m)))
    h.check("covariances are those of the scenarios", h.eq(vals(d.cov), arr(h, c)))
    h.check("asset names are kept", (list(d.asset_names) == names) if names else d.asset_names is None)


def factory(h, which, kind="default", frame_=True, log=False, pform=None, p_given=False, costs=False, T=2, N=2):
    quiet(h)
    A = h.mod("portfolioapi")
    W = A.PortfolioWrapper
    lab = AS[:N]
    iw = h.reals("iw", N, 0, 1)
    tc = {}
    if costs:
        pc = h.reals("pc", N, 0, 1)
        tc = dict(costs=A.TransactionCosts(initial_weights=pd.Series(rot(iw), index=rot(lab)) if frame_ else iw.copy(), proportional_costs=pd.Series(rot(pc), index=rot(lab)) if frame_ else pc.copy()))
    nm = lab if frame_ else None
    if which == "moments":
        m = h.reals("m", N, -1, 1)
        C, _ = pd_matrix(h, "L", N)
        mu, cov = (pd.Series(list(m), index=lab), frame(C.copy(), lab, lab)) if frame_ else (m.copy(), C.copy())
        wr = rules(h, N, None, kind, lambda kw: W.from_moments(mu, cov, **kw, **tc, **({"return_type": "log"} if log else {})))
        d = wr.dist
        if log:
            e = [ex(h, m[i] + C[i, i] / 2) for i in range(N)]
            h.check("log moments are converted", h.eq(np.asarray(vals(d.mu)), arr(h, [x - 1 for x in e])))
            for i in range(N):
                for j in range(N):
                    h.check("log moments are converted", h.eq(d.cov[i, j], ex(h, m[i] + m[j] + (C[i, i] + C[j, j] + 2 * C[i, j]) / 2) - e[i] * e[j]))
        else:
            h.check("given expected returns are kept", h.eq(np.asarray(vals(d.mu)), m))
            h.check("given covariances are kept", h.eq(vals(d.cov), C))
        h.check("asset names are kept", (list(d.asset_names) == lab) if frame_ else d.asset_names is None)
        h.check("no scenarios appear", d.scenarios is None)
    if which == "scenarios":
        R = h.reals("r", (T, N), -1, 1)
        ix = ["t%d" % t for t in range(T)]
        kw0, p = {}, uniform(h, T)
        if pform:
            p = probs(h, T)
            kw0["probabilities"] = wrap_p(h, p, pform, ix)
        if log:
            kw0["return_type"] = "log"
        wr = rules(h, N, None, kind, lambda kw: W.from_scenarios(frame(R.copy(), ix, lab) if frame_ else R.copy(), **kw0, **kw, **tc))
        X = arr(h, [[ex(h, R[t, j]) - 1 for j in range(N)] for t in range(T)]) if log else R
        same(h, wr.dist, X, p, nm)
    if which == "prices":
        P = h.reals("p", (T + 1, N), 0.5, 2)
        wr = rules(h, N, None, kind, lambda kw: W.from_prices(frame(P.copy(), None, lab) if frame_ else P.copy(), **kw, **tc))
        X = vals(wr.dist.scenarios)
        h.check("one return per price step", X.shape == (T, N))
        for t in range(T):
            for j in range(N):
                h.check("returns are price changes", h.eq((X[t, j] + 1) * P[t, j], P[t + 1, j]))
        same(h, wr.dist, X, uniform(h, T), nm)
    if which == "invariants":
        Pr = h.mod("utils.projection")
        K, Sn = 2, 2
        X = h.reals("x", (T, K), -1, 1)
        Y = h.reals("y", (Sn, N), -1, 1)
        drv = ["x", "y"]
        seen, comp = [], []
        real = Pr.project_scenarios, Pr.compose_repricers
        fn = lambda M: M

        def project(R, *a, **k):
            seen.append((R, a, k))
            return frame(Y.copy(), None, R.columns) if isinstance(R, pd.DataFrame) else Y.copy()

        def compose(r, names):
            comp.append((r, list(names)))
            return fn, list(lab)
        kw0 = dict(reprice={n: fn for n in lab}) if pform == "dict" else {} if pform == "none" else dict(reprice=fn)
        p = None
        if p_given:
            p = probs(h, T)
            kw0["p"] = p.copy()
        Pr.project_scenarios, Pr.compose_repricers = project, compose
        try:
            wr = rules(h, N, None, kind, lambda kw: W.from_invariants(frame(X.copy(), None, drv) if frame_ else X.copy(), horizon=3, n_simulations=Sn, seed=5, **kw0, **kw, **tc))
        finally:
            Pr.project_scenarios, Pr.compose_repricers = real
        if len(seen) != 1 or (pform == "dict") != (len(comp) == 1):
            raise sym.Unsupported("another way to the simulations")
        R, a, k = seen[0]
        h.check("the invariants are simulated", h.eq(vals(R), X))
        h.check("the invariants are simulated", k.get("investment_horizon") == 3 and k.get("n_simulations") == Sn and k.get("seed") == 5)
        h.check("the invariants' probabilities are used", (k.get("p") is None) if p is None else h.eq(np.ravel(vals(k["p"])), p))
        f = k.get("reprice")
        h.check("the invariants are repriced as asked", f is (Pr.reprice_exp if pform == "none" else fn))
        if comp:
            h.check("the invariants are repriced as asked", comp[0][0] is kw0["reprice"] and comp[0][1] == drv)
        same(h, wr.dist, Y, uniform(h, Sn), lab if pform == "dict" else (drv if frame_ else None))
    if which == "posterior":
        B = h.mod("bayesian").RobustBayesPosterior
        m = h.reals("m", N, -1, 1)
        C, _ = pd_matrix(h, "L", N)
        U, _ = pd_matrix(h, "U", N)
        fr = lambda M: frame(M.copy(), lab, lab) if frame_ else M.copy()
        post = B(mu=pd.Series(list(m), index=lab) if frame_ else m.copy(), sigma=fr(C), s_mu=fr(U))
        a = h.real("h", 0.25, 60) if log else None
        wr = rules(h, N, None, kind, lambda kw: W.from_robust_posterior(post, **({"annualization_factor": a} if log else {}), **kw, **tc))
        a = a if log else 1
        d = wr.dist
        h.check("posterior mean at the horizon", h.eq(np.asarray(vals(d.mu)), m * a))
        h.check("posterior covariance at the horizon", h.eq(vals(d.cov), C * a))
        h.check("mean uncertainty at the horizon", h.eq(vals(wr._uncertainty_cov), U * a * a))
        h.check("asset names are kept", (list(d.asset_names) == lab) if frame_ else d.asset_names is None)
        h.check("posterior is left alone", h.all(h.eq(vals(post.mu), m), h.eq(vals(post.sigma), C), h.eq(vals(post.s_mu), U)))
    if costs:
        h.check("costs are matched by name", h.eq(np.ravel(vals(wr.initial_weights)), iw))
        h.check("costs are matched by name", h.eq(np.ravel(vals(wr.proportional_costs)), pc))


def prices_refuse(h):
    quiet(h)
    W = h.mod("portfolioapi").PortfolioWrapper
    bad = lambda x: raises(lambda: W.from_prices(x), ValueError) is not None
    for M in (np.array([[1.0, 2.0]]), np.array([[1.0, 2.0], [0.0, 1.0]]), np.array([[1.0, 2.0], [-1.0, 1.0]]), np.array([[1.0, float("nan")], [1.0, 1.0]]), np.array([[1.0, float("inf")], [1.0, 1.0]])):
        h.check("impossible prices are refused", bad(M) and bad(pd.DataFrame(M, columns=["a", "b"])))
    h.check("impossible prices are refused", bad(np.array([1.0, 2.0, 3.0])))
    p = h.real("p", -1, 1)
    h.assume(bor(p >= 0.01, p <= 0))
    for f in (lambda M: M, lambda M: frame(M, None, ["a"])):
        M = arr(h, [[1.0], [p], [1.0]]) if not h.symbolic else np.array([[S(1)], [p], [S(1)]], dtype=object)
        h.check("exactly positive prices are accepted", iff(p > 0, raises(lambda: W.from_prices(f(M)), ValueError) is None))


def cases(tier):
    th = tier == "thorough"
    cs, J = [], 20
    for T, N in ((2, 2), (3, 2), (3, 1)) + (((4, 2), (3, 3)) if th else ()):
        for f in (False, True):
            for pf in (None, "array", "list", "column", "series", "permuted", "positional"):
                if pf == "permuted" and not f:
                    continue
                if (T, N) != (3, 2) and pf not in (None, "array", "series"):
                    continue
                cs.append(Case(f"scenarios {T}x{N} {f} {pf}", scenarios, dict(T=T, N=N, frame_=f, pform=pf), f"T={T}, N={N}", jitter=J))
    for f in (False, True):
        cs.append(Case(f"scenarios scaled {f}", scenarios, dict(T=2, N=2, frame_=f, pform="array", scaled=True), "T=2, N=2", jitter=J))
        cs.append(Case(f"scenarios scaled series {f}", scenarios, dict(T=2, N=2, frame_=f, pform="permuted" if f else "series", scaled=True), "T=2, N=2", jitter=J))
        for mu, cov in (("array", None), (None, "array"), ("series", "frame"), ("column", "array"), ("series", None), (None, "frame")):
            cs.append(Case(f"scenarios with {mu} {cov} {f}", scenarios, dict(T=2, N=2, frame_=f, pform="array", mu=mu, cov=cov), "T=2, N=2", jitter=J))
        cs.append(Case(f"scenarios named {f}", scenarios, dict(T=2, N=2, frame_=f, pform=None, names=True), "T=2, N=2", jitter=J))
    for N in (1, 2, 3):
        for mf in ("series", "array", "list", "column"):
            for cf in ("frame", "array"):
                cs.append(Case(f"moments {N} {mf} {cf}", parametric, dict(N=N, mform=mf, cform=cf, names=N == 2 and mf == "array"), f"N={N}", jitter=J))
    cs.append(Case("moments mean only", parametric, dict(N=2, mform="array", cform=None), "N=2", jitter=J))
    cs.append(Case("moments covariance only", parametric, dict(N=2, mform=None, cform="frame"), "N=2", jitter=J))
    for mu in (0, 1, 2):
        for cov in (0, 1, 2, 3, 4):
            for sc in (0, 1, 2):
                for nm in (0, 1, 2):
                    if (mu, cov, sc) == (0, 0, 0) or len({x for x in (mu, cov, sc, nm) if x}) < 2 and cov < 3:
                        continue
                    cs.append(Case(f"permuted {mu}{cov}{sc}{nm}", permuted, dict(mu=mu, cov=cov, scen=sc, names=nm), "N=2", jitter=J))
    cs.append(Case("refusals", refuse, {}, "N=2, T=2"))
    for T in (1, 2, 3):
        cs.append(Case(f"probability domain {T}", negative, dict(T=T), f"T={T}", jitter=J))
    for wh in ("moments", "scenarios", "prices", "invariants", "posterior"):
        for k in ("default", "short", "bounds", "dict"):
            cs.append(Case(f"from {wh} {k}", factory, dict(which=wh, kind=k, frame_=k != "short"), "N=2", jitter=J))
        cs.append(Case(f"from {wh} array", factory, dict(which=wh, frame_=False), "N=2", jitter=J))
        cs.append(Case(f"from {wh} costs", factory, dict(which=wh, costs=True, pform="dict" if wh == "invariants" else None), "N=2", jitter=J))
        cs.append(Case(f"from {wh} array costs", factory, dict(which=wh, costs=True, frame_=False), "N=2", jitter=J))
    for f in (False, True):
        for wh in ("moments", "scenarios", "posterior"):
            cs.append(Case(f"from {wh} log {f}", factory, dict(which=wh, log=True, frame_=f), "N=2", jitter=J))
        for pf in ("array", "series") + (("permuted",) if f else ()):
            cs.append(Case(f"from scenarios {pf} {f}", factory, dict(which="scenarios", pform=pf, frame_=f, log=pf != "array"), "N=2", jitter=J))
        for pf in ("none", "fn") + (("dict",) if f else ()):
            for pg in (False, True):
                cs.append(Case(f"from invariants {pf} {pg} {f}", factory, dict(which="invariants", pform=pf, frame_=f, p_given=pg), "N=2", jitter=J))
    for T in (2, 3):
        for pg in (False, True):
            cs.append(Case(f"from invariants more instruments {T} {pg}", factory, dict(which="invariants", pform="dict", p_given=pg, T=T, N=3), f"T={T}, 3 instruments on 2 drivers", jitter=J))
    cs.append(Case("from prices longer", factory, dict(which="prices", T=3, N=3), "T=3, N=3", jitter=J))
    cs.append(Case("price domain", prices_refuse, {}, "3 prices"))
    return cs
