from checks.common import *

ASSUMPTIONS = ["view uncertainty plus tau P Sigma P' is invertible"]
LAB = ["a", "b", "c"]


def setup(h, N, src, labels, fixed=False):
    """Prior in one of its accepted spellings: keyword arguments, pi, sigma, tau."""
    s = np.empty((N, N), dtype=object if h.symbolic else float)
    for i in range(N):
        for j in range(i, N):
            s[i, j] = s[j, i] = h.real(f"S_{i}_{j}", 0.5, 2) if i == j else h.real(f"S_{i}_{j}", -0.2, 0.2)
    tau = h.real("tau", 0.05, 1)
    if fixed:
        s, tau = h.const(np.array([[1, -.125, .25], [-.125, .5, .0625], [.25, .0625, .75]])[:N, :N] * (2.0 ** -13 if fixed == "small" else 1)), h.const(0.25)
    kw = dict(prior_cov=frame(s, LAB[:N], LAB[:N]) if labels else s, tau=tau)
    m = h.reals("prior", N, -1, 1)

    def vec(v):
        if labels == "shuffled":
            o = rot(range(N))
            return pd.Series([v[i] for i in o], index=[LAB[i] for i in o])
        return pd.Series(list(v), index=LAB[:N]) if labels == "series" else v
    if src == "market":
        h.assume(tot(m) > 0.2)
        d = h.real("delta", 0.5, 5)
        kw.update(market_weights=vec(m), risk_aversion=d)
        W = tot(m)
        pi = np.array([d * tot(s[i, j] * m[j] for j in range(N)) / W for i in range(N)], dtype=object if h.symbolic else float)
    elif src == "market default":
        h.assume(tot(m) > 0.2)
        kw.update(market_weights=vec(m))
        pi = np.array([tot(s[i, j] * m[j] for j in range(N)) / tot(m) for i in range(N)], dtype=object if h.symbolic else float)
    else:
        kw[src] = vec(m)
        pi = m
    return kw, pi, s, tau


def rows(P, N):
    return [[1.0 * (j == r[0]) - (1.0 * (j == r[1]) if len(r) > 1 else 0.0) for j in range(N)] for r in P]


def views(h, P, names, spelling="dict"):
    """Views on the picks P (absolute (i,) or relative (i, j)), with their targets."""
    Q = h.reals("Q", len(P), -1, 1)
    f = (lambda v: [v]) if spelling == "list" else (lambda v: (v,)) if spelling == "tuple" else (lambda v: v)
    return {(names[r[0]] if len(r) == 1 else (names[r[0]], names[r[1]])): f(q) for r, q in zip(P, Q)}, Q


def matmul(A, B):
    return [[tot(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]


def adjugate(M):
    n = len(M)
    if n == 1:
        return [[1]], M[0][0]
    if n == 2:
        return [[M[1][1], -M[0][1]], [-M[1][0], M[0][0]]], M[0][0] * M[1][1] - M[0][1] * M[1][0]
    c = lambda i, j: [[M[a][b] for b in range(3) if b != j] for a in range(3) if a != i]
    d2 = lambda m: m[0][0] * m[1][1] - m[0][1] * m[1][0]
    adj = [[(1 if (i + j) % 2 == 0 else -1) * d2(c(j, i)) for j in range(3)] for i in range(3)]
    return adj, tot(M[0][j] * adj[j][0] for j in range(3))


def bayes(h, got, pi, s, tau, P, Q, omega, labels, N):
    """The posterior moments solve the normal update."""
    mu, cov = got
    if labels:
        h.check("the posterior carries the asset labels", list(mu.index) == LAB[:N] and list(cov.index) == LAB[:N] and list(cov.columns) == LAB[:N])
    mu, cov = vals(mu), vals(cov)
    h.check("one posterior mean per asset", mu.shape == (N,) and cov.shape == (N, N))
    K = len(P)
    R = [[h.const(v) for v in r] for r in rows(P, N)]
    SP = [[tau * tot(s[i, j] * R[k][j] for j in range(N)) for k in range(K)] for i in range(N)]        # tau Sigma P'
    A = [[tot(R[k][i] * SP[i][l] for i in range(N)) + omega[k][l] for l in range(K)] for k in range(K)]
    adj, D = adjugate(A)
    e = [Q[k] - tot(R[k][j] * pi[j] for j in range(N)) for k in range(K)]
    for i in range(N):
        h.check("the posterior mean is the Bayesian update", h.eq((mu[i] - pi[i]) * D, tot(SP[i][k] * adj[k][l] * e[l] for k in range(K) for l in range(K))))
    for i in range(N):
        for j in range(i, N):
            mid = tot(SP[i][k] * (adj[k][l] + adj[l][k]) * SP[j][l] for k in range(K) for l in range(K)) / 2
            h.check("the posterior covariance is the Bayesian update", h.eq((s[i, j] + tau * s[i, j] - cov[i, j]) * D, mid))
            h.check("the posterior covariance is symmetric", h.eq(cov[i, j], cov[j, i]))


def uncertainty(h, kind, P, s, tau, keys):
    """View uncertainty in one of its spellings: keyword arguments and the matrix they stand for."""
    K, N = len(P), s.shape[0]
    R = rows(P, N)
    q = [tot(h.const(R[k][i] * R[k][j]) * s[i, j] for i in range(N) for j in range(N)) for k in range(K)]
    diag = lambda d: [[d[k] if k == l else 0 for l in range(K)] for k in range(K)]
    if kind == "default":
        return {}, diag([tau * v for v in q])
    if kind == "vector":
        w = h.reals("omega", K, 0.1, 2)
        return dict(omega=w), diag(w)
    if kind == "list":
        w = h.reals("omega", K, 0.1, 2)
        return dict(omega=list(w)), diag(w)
    if kind == "matrix":
        w = np.empty((K, K), dtype=object if h.symbolic else float)
        for i in range(K):
            for j in range(i, K):
                w[i, j] = w[j, i] = h.real(f"omega_{i}_{j}", 0.3, 2) if i == j else h.real(f"omega_{i}_{j}", -0.1, 0.1)
        return dict(omega=w), w.tolist()
    parts = kind.split()
    c = h.reals("conf", K, 0.05, 0.95)
    base = 1 if "plain" in parts else tau
    kw = dict(omega="idzorek")
    if "plain" in parts:
        kw["idzorek_use_tau"] = False
    if "upper" in parts:
        kw["omega"] = "Idzorek"
    if "scalar" in parts:
        kw["view_confidences"] = c[0]
        if h.symbolic:
            raise sym.Unsupported("symbolic scalar confidence")
        c = np.array([c[0]] * K)
    elif "one" in parts:                            # a concrete confidence for all views
        kw["view_confidences"] = 0.25
        c = [Fraction(1, 4) if h.symbolic else 0.25] * K
    elif "dict" in parts:
        kw["view_confidences"] = {k: v for k, v in list(zip(keys, c))[::-1]}
    elif "joined" in parts:
        kw["view_confidences"] = {(",".join(map(str, k)) if isinstance(k, tuple) else k): v for k, v in zip(keys, c)}
    else:
        kw["view_confidences"] = c if "array" in parts else list(c)
    return kw, diag([base * q[k] * (1 - c[k]) / c[k] for k in range(K)])


def update(h, N, src, labels, P, unc, spelling="dict", fixed=None, call=False):
    V = h.mod("views")
    kw, pi, s, tau = setup(h, N, src, labels, fixed=fixed or "idzorek" in unc and len(P) > 1)
    v, Q = views(h, P, LAB if labels else list(range(N)), spelling)
    k, om = uncertainty(h, unc, P, s, tau, list(v))
    if call:                # the one-call form
        k.setdefault("omega", None)
        return bayes(h, h.mod("moments").posterior_moments_black_litterman(**kw, mean_views=v, **k), pi, s, tau, P, Q, om, labels, N)
    r = V.BlackLittermanProcessor(**kw, mean_views=v, **k)
    bayes(h, r.get_posterior(), pi, s, tau, P, Q, om, labels, N)


def vector_views(h, N, labels, how):
    """Views given as one number per asset."""
    V = h.mod("views")
    kw, pi, s, tau = setup(h, N, "pi", labels)
    Q = h.reals("Q", N, -1, 1)
    o = rot(range(N))
    v = Q if how == "array" else list(Q) if how == "list" else pd.Series([Q[i] for i in o], index=[LAB[i] for i in o])
    P = [(i,) for i in range(N)]
    w = h.reals("omega", N, 0.1, 2)
    r = V.BlackLittermanProcessor(**kw, mean_views=v, omega=w)
    bayes(h, r.get_posterior(), pi, s, tau, P, Q, [[w[k] if k == l else 0 for l in range(N)] for k in range(N)], labels, N)


def numeric_labels(h, N):
    """Array inputs name assets by position, also as text."""
    V = h.mod("views")
    kw, pi, s, tau = setup(h, N, "pi", None)
    q = h.real("Q0", -1, 1)
    for key, P in (("1", (1,)), (("1", 0), (1, 0)), (np.int64(1), (1,)), ((1, "0"), (1, 0))):
        r = V.BlackLittermanProcessor(**kw, mean_views={key: q})
        R = rows([P], N)[0]
        t = tau * tot(h.const(R[i] * R[j]) * s[i, j] for i in range(N) for j in range(N))
        bayes(h, r.get_posterior(), pi, s, tau, [P], [q], [[t]], None, N)


def nothing(h, N, src, labels):
    """Without views the prior comes back."""
    V = h.mod("views")
    kw, pi, s, tau = setup(h, N, src, labels)
    for v in (None, {}):
        for k in ({}, dict(view_confidences=0.5, omega="idzorek")):
            mu, cov = V.BlackLittermanProcessor(**kw, mean_views=v, **k).get_posterior()
            if labels:
                h.check("the posterior carries the asset labels", list(mu.index) == LAB[:N] and list(cov.index) == LAB[:N] and list(cov.columns) == LAB[:N])
            h.check("without views the prior is returned", h.all(h.eq(vals(mu), pi), h.eq(vals(cov), s)))


def same(h, a, b, label):
    h.check(label, h.all(h.eq(vals(a[0]), vals(b[0])), h.eq(vals(a[1]), vals(b[1]))))


def turned(h, N, unc, labels=True):
    """Turning a relative view round with its target, or reordering views with their uncertainty, changes nothing."""
    V = h.mod("views")
    kw, pi, s, tau = setup(h, N, "pi", labels)
    P = [(0, 1), (N - 1,)]
    v, Q = views(h, P, LAB)
    k, om = uncertainty(h, unc, P, s, tau, list(v))
    get = lambda v, k: V.BlackLittermanProcessor(**kw, mean_views=v, **k).get_posterior()
    one = {("a", "b"): Q[0]}
    if unc != "matrix":
        k1, _ = uncertainty(h, unc, P[:1], s, tau, [("a", "b")])
        k2, _ = uncertainty(h, unc, [(1, 0)], s, tau, [("b", "a")])
        same(h, get(one, k1), get({("b", "a"): -Q[0]}, k2), "a relative view read the other way round is the same view")
    a = get(v, k)
    items = list(v.items())[::-1]
    k = dict(k)
    if unc in ("vector", "matrix"):
        k["omega"] = k["omega"][::-1] if unc == "vector" else k["omega"][::-1, ::-1]
    elif "view_confidences" in k and not isinstance(k["view_confidences"], dict):
        k["view_confidences"] = k["view_confidences"][::-1]
    b = get(dict(items), k)
    same(h, a, b, "the order of the views does not matter")


def confidence(h, N, P, plain):
    """More confidence: closer to the view, never past it, and less uncertainty; the extremes are the prior and the view."""
    V = h.mod("views")
    kw, pi, s, tau = setup(h, N, "pi", None)
    v, Q = views(h, [P], list(range(N)))
    R = rows([P], N)[0]
    lo, hi = h.reals("c", 2, 0.01, 0.99)
    h.assume(lo < hi)
    get = lambda c: V.BlackLittermanProcessor(**kw, mean_views=v, omega="idzorek", view_confidences=[c], **(dict(idzorek_use_tau=False) if plain else {})).get_posterior()
    at = lambda m: tot(h.const(R[i]) * m[i] for i in range(N))
    p0 = at(pi)
    ms, vs = [], []
    for c in (lo, hi):
        mu, cov = get(c)
        ms.append(at(vals(mu)))
        vs.append(tot(h.const(R[i] * R[j]) * cov[i, j] for i in range(N) for j in range(N)))
    d = Q[0] - p0
    if not plain:
        for m, c in zip(ms, (lo, hi)):
            h.check("confidence is the share of the way to the view", h.eq(m - p0, c * d))
    sv = tot(h.const(R[i] * R[j]) * s[i, j] for i in range(N) for j in range(N))
    t = tau * sv
    for m, x, c in zip(ms, vs, (lo, hi)):
        om = (sv if plain else t) * (1 - c) / c
        h.check("the view mean is the weighted mean of prior and view", h.eq((m - p0) * (t + om), t * d))
        h.check("the view variance falls by the documented share", h.eq((sv + t - x) * (t + om), t * t))
    for edge, want in ((1.0, Q[0]), (0.0, p0)):
        mu, _ = get(edge)
        h.check("full confidence reaches the view, none stays at the prior", h.all(h.le(at(vals(mu)) - want, 1e-4), h.ge(at(vals(mu)) - want, -1e-4)))


def missing_confidence(h):
    """A view without a stated confidence counts as certain; each view takes its own confidence."""
    V = h.mod("views")
    N = 2
    kw, pi, s, tau = setup(h, N, "pi", True, fixed=True)
    v, Q = views(h, [(0,), (1,)], LAB)
    c = h.real("c0", 0.05, 0.95)
    r = V.BlackLittermanProcessor(**kw, mean_views=v, omega="idzorek", view_confidences={"b": c})
    e = h.const((1.0 - (1.0 - 1e-6)) / (1.0 - 1e-6))
    om = [[tau * s[0, 0] * e, 0], [0, tau * s[1, 1] * (1 - c) / c]]
    bayes(h, r.get_posterior(), pi, s, tau, [(0,), (1,)], Q, om, True, N)


def missing_mixed(h, keys):
    """A relative view takes no confidence from the views on its assets, nor the other way round."""
    V = h.mod("views")
    kw, pi, s, tau = setup(h, 2, "pi", True, fixed=True)
    P = [(0,), (0, 1)]
    v, Q = views(h, P, LAB)
    c = h.real("c0", 0.05, 0.95)
    r = V.BlackLittermanProcessor(**kw, mean_views=v, omega="idzorek", view_confidences={k: c for k in keys})
    e = h.const((1.0 - (1.0 - 1e-6)) / (1.0 - 1e-6))
    q = [s[0, 0], s[0, 0] + s[1, 1] - 2 * s[0, 1]]
    d = [tau * q[k] * ((1 - c) / c if n in keys else e) for k, n in enumerate(["a", ("a", "b")])]
    bayes(h, r.get_posterior(), pi, s, tau, P, Q, [[d[0], 0], [0, d[1]]], True, 2)


def skewed(h):
    """A covariance that is not symmetric is symmetrised; a frame is read by its labels."""
    V = h.mod("views")
    s = h.reals("S", (2, 2), 0.1, 0.4)
    for i in range(2):
        h.assume(s[i, i] >= 0.3)
    h.assume(s[0, 1] - s[1, 0] > 0.05)
    pi = h.reals("prior", 2, -1, 1)
    tau = h.real("tau", 0.05, 1)
    sy = np.array([[s[0, 0], (s[0, 1] + s[1, 0]) / 2], [(s[0, 1] + s[1, 0]) / 2, s[1, 1]]], dtype=object if h.symbolic else float)
    mu, cov = V.BlackLittermanProcessor(prior_cov=s, pi=pi, tau=tau).get_posterior()
    h.check("an unsymmetric covariance is symmetrised", h.all(h.eq(mu, pi), h.eq(cov, sy)))


def crossed(h):
    V = h.mod("views")
    kw, pi, s, tau = setup(h, 2, "pi", True)
    q = h.real("Q0", -1, 1)
    f = pd.DataFrame([[s[0, 1], s[0, 0]], [s[1, 1], s[1, 0]]], index=["a", "b"], columns=["b", "a"])
    r = V.BlackLittermanProcessor(prior_cov=f, pi=kw["pi"], tau=tau, mean_views={"a": q})
    bayes(h, r.get_posterior(), pi, s, tau, [(0,)], [q], [[tau * s[0, 0]]], True, 2)


def refusals(h):
    V = h.mod("views")
    kw, pi, s, tau = setup(h, 2, "pi", True)
    q = h.real("Q0", -1, 1)
    B_ = lambda **k: raises(lambda: V.BlackLittermanProcessor(**{**kw, **k}), (ValueError, TypeError)) is not None
    bad = [dict(mean_views={"zz": q}), dict(mean_views={("a", "zz"): q}), dict(mean_views={"a": ("<=", q)}), dict(mean_views=[q]), dict(mean_views=[q, q, q]),
           dict(mean_views={"a": q}, omega="idzorek"), dict(mean_views={"a": q}, omega=[0.1, 0.2]), dict(mean_views={"a": q}, omega=np.eye(2)), dict(mean_views={"a": q}, omega="other"),
           dict(mean_views={"a": q, "b": q}, omega="idzorek", view_confidences=[0.5]), dict(mean_views={"a": q, "b": q}, omega=[0.5]), dict(pi=None)]
    for b in bad:
        h.check("refused: " + str(sorted(b)) + str(len(str(b)) % 97), B_(**b))
    d = h.real("delta", -2, 0)
    h.check("risk aversion must be positive", B_(pi=None, market_weights=pd.Series([0.5, 0.5], index=LAB[:2]), risk_aversion=d))


def cases(tier):
    th = tier == "thorough"
    cs, J = [], 100
    U = ["default", "vector", "matrix", "list", "idzorek", "idzorek array", "idzorek dict", "idzorek joined", "idzorek plain", "idzorek upper", "idzorek one"]
    for u in U:
        for P in ([(0,)], [(0, 1)], [(1, 0)]):
            if u not in ("default", "vector", "idzorek dict", "idzorek joined", "idzorek plain") and P != [(1, 0)]:
                continue
            cs.append(Case(f"{u} {P}", update, dict(N=2, src="pi", labels=True, P=P, unc=u), "N=2, K=1", jitter=J))
        cs.append(Case(f"{u} two views", update, dict(N=2, src="pi", labels=True, P=[(1,), (0, 1)], unc=u), "N=2, K=2", jitter=J))
    for src in ("pi", "market", "market default", "prior_mean"):
        for lb in (None, True, "series", "shuffled"):
            cs.append(Case(f"prior {src} {lb}", update, dict(N=2, src=src, labels=lb, P=[(1,)], unc="default"), "N=2, K=1", jitter=J))
            cs.append(Case(f"no views {src} {lb}", nothing, dict(N=2, src=src, labels=lb), "N=2", jitter=J))
    for src, u in (("prior_mean", "default"), ("market", "vector"), ("market default", "default"), ("pi", "idzorek"), ("pi", "idzorek plain"), ("prior_mean", "matrix")):
        cs.append(Case(f"one call {src} {u}", update, dict(N=2, src=src, labels=True, P=[(1, 0)], unc=u, call=True), "N=2, K=1", jitter=J))
    for P in ([(2,)], [(2, 0)], [(0, 2)]):
        cs.append(Case(f"three assets {P}", update, dict(N=3, src="pi", labels=True, P=P, unc="vector"), "N=3, K=1", jitter=J))
    if th:
        for u in ("default", "vector", "idzorek dict"):
            for P in ([(2,), (0, 1)], [(1, 2), (0, 2)]):
                cs.append(Case(f"three assets {u} {P}", update, dict(N=3, src="pi", labels=True, P=P, unc=u), "N=3, K=2", jitter=J))
        cs.append(Case("one asset", update, dict(N=1, src="market", labels=None, P=[(0,)], unc="idzorek"), "N=1, K=1", jitter=J))
    for u in ("default", "idzorek dict", "idzorek plain"):
        cs.append(Case(f"daily scale {u}", update, dict(N=2, src="pi", labels=True, P=[(0, 1)], unc=u, fixed="small"), "N=2, K=1", jitter=J))
    for sp in ("list", "tuple"):
        cs.append(Case(f"target as {sp}", update, dict(N=2, src="pi", labels=True, P=[(0, 1)], unc="default", spelling=sp), "N=2, K=1", jitter=J))
    for lb, how in ((None, "array"), (None, "list"), (True, "array"), (True, "series")):
        cs.append(Case(f"vector of views {how} {lb}", vector_views, dict(N=2, labels=lb, how=how), "N=2, K=2", jitter=J))
    cs.append(Case("positions as labels", numeric_labels, dict(N=2), "N=2", jitter=J))
    for u in ("default", "vector", "matrix", "idzorek dict"):
        cs.append(Case(f"turned {u}", turned, dict(N=2, unc=u), "N=2, K<=2", jitter=J))
    for P in ((0,), (0, 1)):
        for plain in (False, True):
            cs.append(Case(f"confidence {P}{' plain' if plain else ''}", confidence, dict(N=2, P=P, plain=plain), "N=2, K=1", jitter=J))
    cs.append(Case("missing confidence", missing_confidence, {}, "N=2, K=2", jitter=J))
    for k in (["a"], ["a", "b"], ["b"], [("a", "b")], [("a", "b"), "b"]):
        cs.append(Case(f"missing confidence {k}", missing_mixed, dict(keys=k), "N=2, K=2", jitter=J))
    cs.append(Case("unsymmetric", skewed, {}, "N=2", jitter=J))
    cs.append(Case("crossed labels", crossed, {}, "N=2", jitter=J))
    cs.append(Case("refusals", refusals, {}, "N=2"))
    return cs
