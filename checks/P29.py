from checks.opt import *

ASSUMPTIONS = ["VaR/CVaR, effective number of scenarios, decay and kernel weights, pooling and simulation themselves are decided by P01-P09 and P18-P20; here each report column must be that quantity of the right world",
               "symmetric-root and logarithm: any functions with their algebraic laws"]
AS = ["a", "b", "c"]


def metrics(h, W, R, p, conf, demean):
    """The documented quantities of one world, one column per portfolio."""
    F, P = h.mod("utils.functions"), h.mod("probabilities")
    T, N = len(R), len(R[0])
    mu = [dot(p, R[:, j]) for j in range(N)]
    c = np.empty((N, N), dtype=object)
    for i in range(N):
        for j in range(N):
            c[i, j] = tot(q * (x - mu[i]) * (y - mu[j]) for q, x, y in zip(p, R[:, i], R[:, j]))
    out = []
    for k in range(W.shape[1]):
        w = W[:, k]
        out.append(dict(ret=dot(w, mu), var=quad(w, c),
                        VaR=np.ravel(vals(F.portfolio_var(w.copy(), R.copy(), p.copy(), confidence=conf, demean=demean)))[0],
                        CVaR=np.ravel(vals(F.portfolio_cvar(w.copy(), R.copy(), p.copy(), confidence=conf, demean=demean)))[0],
                        ENS=P.compute_effective_number_scenarios(p.copy())))
    return out


def compare(h, df, k, m, side, ci, what):
    g = lambda c: vals(df[c])[k]
    h.check(f"{what} return", h.eq(g("return_" + side), m["ret"]))
    h.check(f"{what} volatility", h.all(h.ge(g("stdev_" + side), 0), h.eq(g("stdev_" + side) * g("stdev_" + side), m["var"])))
    h.check(f"{what} VaR", h.eq(g(f"VaR{ci}_{side}"), m["VaR"]))
    h.check(f"{what} CVaR", h.eq(g(f"CVaR{ci}_{side}"), m["CVaR"]))
    h.check(f"{what} effective scenarios", h.eq(g("ENS_" + side), m["ENS"]))


def kl(h, q, p):
    return tot(a * lg(h, a / b) if h.symbolic or a > 0 else 0.0 for a, b in zip(q, p))


def stress(h, T=2, N=2, wform="array", frame_=False, pn=False, ps=False, tr=None, conf=0.95, demean=False, helper=None):
    St = h.mod("stress")
    R = h.reals("r", (T, N), -1, 1)
    M = 2 if wform in ("matrix", "frame") else 1
    W = h.reals("w", (N, M), -1, 1)
    names = {"frame": ["pf1", "pf0"], "series": ["mine"], "matrix": ["portfolio_0", "portfolio_1"]}.get(wform, ["portfolio_0"])
    order = rot(range(N)) if frame_ and wform in ("frame", "series", "mapping") else list(range(N))
    lab = [AS[i] for i in order]
    Wg = {"array": lambda: W[:, 0].copy(), "matrix": lambda: W.copy(), "list": lambda: list(W[:, 0]),
          "series": lambda: pd.Series(list(W[order, 0]), index=lab, name="mine"),
          "frame": lambda: frame(W[order, :], lab, names), "mapping": lambda: {l: W[i, 0] for l, i in zip(lab, order)}}[wform]()
    Rg = frame(R.copy(), None, AS[:N]) if frame_ else R.copy()
    p = np.array([Fraction(1, T) if h.symbolic else 1 / T] * T, dtype=object if h.symbolic else float)
    if h.symbolic:
        p = np.array([S(x) for x in p], dtype=object)
    kw = {}
    if pn:
        p = probs(h, T, "p")
        kw["probabilities"] = p.copy()
    q = p
    if ps:
        q = probs(h, T, "q")
        kw["stressed_probabilities"] = q.copy()
    for x in list(p) + list(q):
        h.assume(x >= 0.001)
    R2 = R
    if tr:
        c = h.real("scale", 0.5, 3) if tr != "any" else None
        s = h.reals("shift", N, -1, 1)
        if tr == "identity":
            kw["transform"] = St.linear_map()
        if tr == "scale":
            kw["transform"] = St.linear_map(scale=c)
            R2 = R * c
        if tr == "shift":
            kw["transform"] = St.linear_map(mean_shift=s.copy())
            R2 = R + s
        if tr == "any":
            R2 = h.reals("r2", (T, N), -1, 1)
            kw["transform"] = lambda X, R2=R2: R2.copy()
        if tr == "inplace":
            def f(X):
                X = X.copy()
                X[0, 0] = X[0, 0] * 2
                return X
            kw["transform"] = f
            R2 = R.copy()
            R2[0, 0] = 2 * R[0, 0]
    df = St.stress_test(Wg, Rg, confidence=conf, demean=demean, **kw)
    ci = int(round(conf * 100))
    h.check("one row per portfolio, under its name", list(df.index) == names and len(df) == M)
    nom, st = metrics(h, W, R, p, conf, demean), (metrics(h, W, R2, q, conf, demean) if tr or ps else None)
    for k in range(M):
        compare(h, df, k, nom[k], "nom", ci, "nominal")
        if st is not None:
            compare(h, df, k, st[k], "stress", ci, "stressed")
    h.check("stressed columns only when something is stressed", any("stress" in c for c in df.columns) == bool(tr or ps))
    h.check("divergence when probabilities are stressed", ("KL_q_p" in df.columns) == ps)
    if ps:
        for k in range(M):
            h.check("relative entropy of stressed versus nominal", h.eq(vals(df["KL_q_p"])[k], kl(h, q, p)))
    if tr == "identity" and not ps:
        for a in ("return", "stdev", f"VaR{ci}", f"CVaR{ci}", "ENS"):
            h.check("an identity stress changes nothing", h.eq(vals(df[a + "_nom"]), vals(df[a + "_stress"])))
    h.check("inputs are left alone", h.eq(vals(Rg), R))
    h.check("inputs are left alone", (list(Wg) == lab and all(Wg[l] is W[i, 0] or Wg[l] == W[i, 0] for l, i in zip(lab, order))) if wform == "mapping" else h.eq(np.asarray(vals(Wg) if wform != "list" else arr(h, Wg)).reshape(N, M), W[order, :M]))


def divergence(h, T):
    """Entries of the stressed vector may vanish."""
    St = h.mod("stress")
    R = h.const(np.arange(2.0 * T).reshape(T, 2) / 10)
    p = h.const(np.array([[0.25, 0.75], [0.25, 0.25, 0.5]][T - 2]))
    dead = h.choose("dead", list(range(T)))
    live = list(probs(h, T - 1, "q")) if T > 2 else [h.const(1.0)]
    for x in live:
        h.assume(x >= 0.001)
    q = arr(h, live[:dead] + [h.const(0.0)] + live[dead:])
    df = St.stress_test(h.const(np.array([0.5, 0.5])), R, probabilities=p.copy(), stressed_probabilities=q.copy())
    got = vals(df["KL_q_p"])[0]
    rest = [(a, b) for k, (a, b) in enumerate(zip(q, p)) if k != dead]
    want = tot(a * lg(h, a / b) for a, b in rest)
    h.check("scenarios without stressed mass add nothing", h.all(h.le(got - want, 1e-9), h.ge(got - want, -1e-9)) if not h.symbolic else h.all(h.le(got - want, 1e-6), h.ge(got - want, -1e-6)))


def linear(h, T, N, K, matrix, scale, shift):
    St = h.mod("stress")
    R = h.reals("r", (T, N), -2, 2)
    B = h.reals("B", (K, N), -2, 2) if matrix else None
    c = h.real("c", -3, 3) if scale else None
    s = h.reals("s", K, -2, 2) if shift else None
    kw = {}
    if matrix:
        kw["matrix"] = B.copy() if matrix == "array" else [list(r) for r in B]
    if scale:
        kw["scale"] = c
    if shift:
        kw["mean_shift"] = {"array": lambda: s.copy(), "list": lambda: list(s), "series": lambda: pd.Series(list(s), index=AS[:K])}[shift]()
    f = St.linear_map(**kw)
    for again in (1, 2):
        X = R.copy()
        Y = vals(f(X))
        h.check("one stressed row per scenario", Y.shape == (T, K))
        h.check("scenarios are left alone", h.eq(X, R))
        for t in range(T):
            for k in range(K):
                v = dot(B[k], R[t]) if matrix else R[t, k]
                if scale:
                    v = v * c
                if shift:
                    v = v + s[k]
                h.check("matrix, then scale, then shift", h.eq(Y[t, k], v))
        Y[...] = 0
        h.check("the stressed scenarios are a copy", h.eq(X, R))


def linear_refuse(h):
    St = h.mod("stress")
    R = h.reals("r", (2, 2), -1, 1)
    bad = lambda f: raises(f, ValueError) is not None
    W = h.const(np.array([0.5, 0.5]))
    for s in (np.zeros(3), np.zeros(1), np.zeros((2, 2)), np.zeros((1, 2))):
        h.check("shifts of another shape are refused", bad(lambda: St.linear_map(mean_shift=h.const(s))(R)))
    h.check("stresses of another shape are refused", bad(lambda: St.stress_test(W, R, transform=lambda X: X[:, :1])) and bad(lambda: St.stress_test(W, R, transform=lambda X: X[:1])))
    h.check("stresses without finite values are refused", bad(lambda: St.stress_test(W, R, transform=lambda X: np.array([[float("nan"), 0.0], [0.0, 0.0]]))))
    for c in (0.0, 1.0, -0.1, 1.5):
        h.check("confidence levels are checked", bad(lambda: St.stress_test(W, R, confidence=c)))
    D = frame(R, None, AS[:2])
    for w in (pd.Series([0.5, 0.5], index=["a", "z"]), pd.Series([0.5, 0.3, 0.2], index=AS), {"a": 1.0}, np.array([0.5, 0.25, 0.25]), np.array([1.0])):
        h.check("weights of other assets are refused", bad(lambda: St.stress_test(w, D)))
    for q in (np.array([0.5, 0.25, 0.25]), np.array([-0.5, 1.5]), np.array([0.0, 0.0])):
        h.check("probabilities are checked", bad(lambda: St.stress_test(W, R, stressed_probabilities=q)) and bad(lambda: St.stress_test(W, R, probabilities=q)))


def helper(h, which, pn, T=3, conf=0.95, demean=False):
    """The ready-made stresses are the general one with their own probabilities."""
    St, P = h.mod("stress"), h.mod("probabilities")
    N = 2
    R = h.reals("r", (T, N), -1, 1)
    w = h.reals("w", N, -1, 1)
    seen, real = [], St.stress_test

    def spy(weights, scenarios, **k):
        seen.append((weights, scenarios, k))
        return "report"
    kw = dict(confidence=conf, demean=demean)
    p = None
    if pn:
        p = probs(h, T, "p")
        kw["probabilities"] = p
    if which == "decay":
        hl = h.choose("hl", [1, 2, 60]) if pn else None
        if hl:
            kw["half_life"] = hl
        want = P.generate_exp_decay_probabilities(T, hl or 60)
        call = lambda: St.exp_decay_stress(w, R, **kw)
    if which == "kernel":
        v = h.reals("v", T, -1, 1)
        bw = h.real("bw", 0.1, 2)
        x0 = h.real("x0", -1, 1) if pn else None
        want = P.generate_gaussian_kernel_probabilities(v.copy(), h=bw, x_T=x0)
        call = lambda: St.kernel_focus_stress(w, R, focus_series=v.reshape(-1, 1) if pn else list(v), bandwidth=bw, target=x0, **kw)
    if which == "pooling":
        want = probs(h, T, "q")
        call = lambda: St.entropy_pooling_stress(w, R, posterior_probabilities=want, **kw)
    St.stress_test = spy
    try:
        got = call()
    finally:
        St.stress_test = real
    if len(seen) != 1 or got != "report":
        raise sym.Unsupported("another way to the report")
    a, b, k = seen[0]
    h.check("the same portfolio and scenarios", h.all(h.eq(vals(a), w), h.eq(vals(b), R)))
    h.check("the nominal world", (k.get("probabilities") is None) if p is None else h.eq(vals(k["probabilities"]), p))
    h.check("the stressed probabilities", h.eq(np.ravel(vals(k["stressed_probabilities"])), np.ravel(vals(want))))
    h.check("scenarios stay", k.get("transform") is None)
    h.check("risk settings", k.get("confidence") == conf and k.get("demean") == demean)


def kernel_refuse(h):
    St = h.mod("stress")
    R = h.reals("r", (2, 2), -1, 1)
    h.check("one state per scenario", raises(lambda: St.kernel_focus_stress([0.5, 0.5], R, focus_series=[0.1, 0.2, 0.3]), ValueError) is not None)


def invariants(h, N, K, views, dict_=False, frame_=True, wform="series", conf=0.95, demean=False, horizon=1):
    """Nominal metrics from nominal simulations, stressed ones from simulations under the posterior."""
    St = h.mod("stress")
    Pr, V = h.mod("utils.projection"), h.mod("views")
    T, Sn = 2, 2
    drv = ["x", "y", "z"][:K]
    X = h.reals("x", (T, K), -1, 1)
    A, B = h.reals("pn", (Sn, N), -1, 1), h.reals("ps", (Sn, N), -1, 1)
    post = probs(h, T, "q")
    W = h.reals("w", N, -1, 1)
    sims, posts = [], []
    real = Pr.project_scenarios, V.FlexibleViewsProcessor

    def project(R, *a, **k):
        nom = k.get("p") is None or (not h.symbolic and np.size(k["p"]) == T and np.allclose(np.ravel(k["p"]).astype(float), 1 / T) and not len(sims))
        sims.append((R, a, k))
        return A.copy() if len(sims) == 1 else B.copy()

    class Fake:
        def __init__(self, *a, **k):
            posts.append((a, k))

        def get_posterior_probabilities(self):
            return post.reshape(-1, 1).copy()
    inv = frame(X.copy(), None, drv) if frame_ else X.copy()
    inst = ["i2", "i0", "i1"][:N] if dict_ else drv
    fn = lambda M: M
    rep = {n: (drv[0], fn) for n in inst} if dict_ else fn
    if dict_:
        rep = {n: fn for n in inst}
    vw = {"x": 0.25} if views else None
    Wg = {"series": lambda: pd.Series(rot(W), index=rot(inst)), "array": lambda: W.copy(), "mapping": lambda: {n: W[i] for i, n in rot(enumerate(inst))}}[wform]()
    comp = Pr.compose_repricers
    cargs = []

    def compose(r, names):
        cargs.append((r, names))
        return fn, list(inst)
    Pr.project_scenarios, V.FlexibleViewsProcessor, Pr.compose_repricers = project, Fake, compose
    try:
        df = St.stress_invariants(inv, Wg, rep, stress_views=vw, horizon=horizon, n_simulations=Sn, seed=7, confidence=conf, demean=demean)
    finally:
        (Pr.project_scenarios, V.FlexibleViewsProcessor), Pr.compose_repricers = real, comp
    if len(sims) != (2 if views else 1) or len(posts) != (1 if views else 0) or (dict_ and len(cargs) != 1):
        raise sym.Unsupported("another way to the simulations")
    ci = int(round(conf * 100))
    u = np.array([S(Fraction(1, Sn)) if h.symbolic else 1 / Sn] * Sn, dtype=object if h.symbolic else float)
    Wm = W.reshape(-1, 1)
    compare(h, df, 0, metrics(h, Wm, A, u, conf, demean)[0], "nom", ci, "nominal")
    if views:
        compare(h, df, 0, metrics(h, Wm, B, u, conf, demean)[0], "stressed", ci, "stressed")
        a, k = posts[0]
        pr = k.get("prior_risk_drivers", a[0] if a else None)
        h.check("views act on the given drivers", h.eq(vals(pr), X))
        h.check("views act on the given drivers", (list(pr.columns) == drv if frame_ else True) and k.get("mean_views") == vw)
        s = sims[1][2]
        h.check("the stressed simulation uses the posterior", h.eq(np.ravel(vals(s["p"])), post) if s.get("p") is not None else False)
    else:
        h.check("without views nothing is stressed", not any("stress" in c for c in df.columns))
    for n, (R, a, k) in enumerate(sims):
        h.check("drivers are simulated at the horizon", h.eq(vals(R), X))
        h.check("drivers are simulated at the horizon", k.get("investment_horizon") == horizon and k.get("n_simulations") == Sn and k.get("reprice") is fn and k.get("seed") is not None)
    k = sims[0][2]
    h.check("the nominal simulation uses the nominal world", k.get("p") is None or h.eq(np.ravel(vals(k["p"])), np.ravel(vals(h.const(np.full(T, 1 / T))))))
    if dict_:
        h.check("instruments are repriced as given", cargs[0][0] is rep and list(cargs[0][1]) == drv)


def cases(tier):
    th = tier == "thorough"
    cs, J = [], 20
    A = lambda n, **k: cs.append(Case(n, stress, k, f"T={k.get('T', 2)}, N={k.get('N', 2)}", jitter=J))
    A("plain")
    A("nominal probabilities", pn=True)
    for w in ("matrix", "list", "series", "frame", "mapping"):
        for f in (False, True):
            A(f"weights {w} {f}", wform=w, frame_=f, tr="any" if f else None)
    A("stressed probabilities", ps=True)
    A("both probabilities", pn=True, ps=True)
    A("both probabilities, frame", pn=True, ps=True, wform="frame", frame_=True)
    for t in ("identity", "scale", "shift", "any", "inplace"):
        A(f"stress {t}", tr=t)
        A(f"stress {t} p", tr=t, pn=True)
    A("stress any p q", tr="any", pn=True, ps=True)
    A("stress any q", tr="any", ps=True, conf=0.5)
    A("demeaned", tr="any", ps=True, pn=True, demean=True)
    A("confidence", tr="any", ps=True, conf=0.6)
    A("three assets of a frame", N=3, wform="frame", frame_=True, tr="scale")
    A("three assets of a mapping", N=3, wform="mapping", frame_=True)
    A("three scenarios", T=3, tr="any", wform="array", conf=0.5)
    if th:
        A("three assets", N=3, tr="any", ps=True, pn=True, wform="series", frame_=True)
        A("three scenarios p", T=3, tr="scale", ps=True, pn=True, conf=0.5)
        A("three scenarios demeaned", T=3, tr="any", pn=True, demean=True)
    for T in (2, 3):
        cs.append(Case(f"vanishing {T}", divergence, dict(T=T), f"T={T}", jitter=J))
    for m in (None, "array", "list"):
        for s in (False, True):
            for f in (None, "array", "list", "series"):
                if m == "list" and f in ("list", "series"):
                    continue
                cs.append(Case(f"linear {m} {s} {f}", linear, dict(T=2, N=2, K=2, matrix=m, scale=s, shift=f), "T=2, N=2", jitter=J))
    cs.append(Case("linear 3 to 2", linear, dict(T=2, N=3, K=2, matrix="array", scale=True, shift="array"), "T=2, 3 -> 2", jitter=J))
    cs.append(Case("linear 2 to 3", linear, dict(T=3, N=2, K=3, matrix="array", scale=True, shift="array"), "T=3, 2 -> 3", jitter=J))
    cs.append(Case("refusals", linear_refuse, {}, "T=2, N=2"))
    for w in ("decay", "kernel", "pooling"):
        for pn in (False, True):
            cs.append(Case(f"helper {w} {pn}", helper, dict(which=w, pn=pn, conf=0.9 if pn else 0.95, demean=pn), "T=3, N=2", jitter=J))
    cs.append(Case("kernel refusals", kernel_refuse, {}, "T=2"))
    for v in (False, True):
        cs.append(Case(f"invariants {v}", invariants, dict(N=2, K=2, views=v), "2 simulations, N=2", jitter=J))
        cs.append(Case(f"invariants instruments {v}", invariants, dict(N=2, K=2, views=v, dict_=True, wform="mapping", demean=v, horizon=5), "2 simulations, N=2", jitter=J))
        cs.append(Case(f"invariants array {v}", invariants, dict(N=2, K=2, views=v, frame_=False, wform="array", conf=0.5), "2 simulations, N=2", jitter=J))
    return cs
