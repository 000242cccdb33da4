from checks.common import *

ASSUMPTIONS = ["exp/log are any functions with exp>0, exp(0)=1, strict monotonicity, exp(a+b)=exp(a)exp(b) and log its inverse on the arguments that occur",
               "the random generator is replaced by arbitrary admissible draws"]


def mk(h, x, kind, index=None):
    if kind == "pandas":
        return pd.Series(list(x), index=index, name="mu") if np.ndim(x) == 1 else frame(x, index, index)
    return x


def moments(h, N, kind):
    P = h.mod("utils.projection")
    mu, c, f = h.reals("mu", N, -2, 2), symm(h, "c", N, -2, 2), h.real("f", 0, 60)
    names = ["b", "a", "c"][:N]
    m, s = P.project_mean_covariance(mk(h, mu, kind, names), mk(h, c, kind, names), f)
    h.check("the mean scales with the horizon", h.eq(vals(m), mu * f))
    h.check("the covariance scales with the horizon", h.eq(vals(s), c * f))
    if kind == "pandas":
        h.check("labels survive", h.all(list(m.index) == names, list(s.index) == names, list(s.columns) == names))


def forward(h, N, kind):
    P = h.mod("utils.projection")
    mu, c = h.reals("mu", N, -0.5, 0.5), symm(h, "c", N, -0.5, 0.5)
    for i in range(N):
        h.assume(c[i, i] >= 0)
    names = ["b", "c", "a"][:N]
    a = [mu[i] + c[i, i] / 2 for i in range(N)]
    E = [ex(h, x) for x in a]
    for i in range(N):
        for j in range(i, N):
            ex(h, a[i] + a[j])
    Q = [[ex(h, c[i, j]) for j in range(N)] for i in range(N)]
    m, s = P.log2simple(mk(h, mu, kind, names), mk(h, c, kind, names))
    if kind == "pandas":
        h.check("labels survive", h.all(list(m.index) == names, list(s.index) == names, list(s.columns) == names))
    m, s = vals(m), vals(s)
    h.check("simple mean is exp(mu + var/2) - 1", h.eq(m, arr(h, [e - 1 for e in E])))
    h.check("simple covariance is E_i E_j (exp(cov) - 1)", h.all(*[h.eq(s[i, j], E[i] * E[j] * (Q[i][j] - 1)) for i in range(N) for j in range(N)]))
    h.check("simple covariance is symmetric", h.all(*[h.eq(s[i, j], s[j, i]) for i in range(N) for j in range(i)]))
    m2, s2 = P.simple2log(mk(h, m, kind, names), mk(h, s, kind, names))
    h.check("converting back recovers the log mean", h.eq(vals(m2), mu))
    h.check("converting back recovers the log covariance", h.eq(vals(s2), c))


def backward(h, N, kind):
    P = h.mod("utils.projection")
    mu, c = h.reals("mu", N, -0.9, 1.5), symm(h, "c", N, -0.5, 0.5)
    names = ["b", "c", "a"][:N]
    M = [1 + x for x in mu]
    for i in range(N):
        h.assume(c[i, i] >= 0)
        for j in range(i, N):
            h.assume(c[i, j] + M[i] * M[j] > (0 if h.symbolic else 1e-3))
    L = [lg(h, x) for x in M]
    for i in range(N):
        for j in range(i, N):
            ex(h, L[i] + L[j])
    m, s = P.simple2log(mk(h, mu, kind, names), mk(h, c, kind, names))
    if kind == "pandas":
        h.check("labels survive", h.all(list(m.index) == names, list(s.index) == names, list(s.columns) == names))
    m, s = vals(m), vals(s)
    V = [[lg(h, 1 + c[i, j] / (M[i] * M[j])) for j in range(N)] for i in range(N)]
    h.check("log covariance is log(1 + cov / (M_i M_j))", h.all(*[h.eq(s[i, j], V[i][j]) for i in range(N) for j in range(N)]))
    h.check("log mean is log(1 + mean) minus half the log variance", h.all(*[h.eq(m[i], L[i] - V[i][i] / 2) for i in range(N)]))
    m2, s2 = P.log2simple(mk(h, m, kind, names), mk(h, s, kind, names))
    h.check("converting back recovers the simple mean", h.eq(vals(m2), mu))
    h.check("converting back recovers the simple covariance", h.eq(vals(s2), c))


def domain(h):
    P = h.mod("utils.projection")
    mu = h.reals("mu", 2, -2, 1)
    box = []
    c0 = h.const(np.zeros((2, 2)))
    e = raises(lambda: box.append(P.simple2log(mu, c0)), ValueError)
    h.check("a gross mean is required to be positive", iff(e is None, band(mu[0] > -1, mu[1] > -1)))
    e = raises(lambda: box.append(P.convert_scenarios_simple_to_compound(mu)), ValueError)
    h.check("simple returns of -100% or less have no log return", iff(e is None, band(mu[0] > -1, mu[1] > -1)))


def scen_conv(h, T, N):
    P = h.mod("utils.projection")
    R = h.reals("R", (T, N), -0.9, 2)
    g = vals(P.convert_scenarios_simple_to_compound(R))
    h.check("compound return is log(1 + r)", h.all(*[h.eq(g[t, n], lg(h, 1 + R[t, n])) for t in range(T) for n in range(N)]))
    h.check("simple -> compound -> simple is the identity", h.eq(vals(P.convert_scenarios_compound_to_simple(g)), R))
    y = h.reals("y", (T, N), -2, 2)
    s = vals(P.convert_scenarios_compound_to_simple(y))
    h.check("simple return is exp(y) - 1", h.all(*[h.eq(s[t, n], ex(h, y[t, n]) - 1) for t in range(T) for n in range(N)]))
    h.check("compound -> simple -> compound is the identity", h.eq(vals(P.convert_scenarios_simple_to_compound(s)), y))


def draws_ok(h, log, T, ns, H, p):
    recs = [r for r in log if r[0] == "choice"]
    h.check("one draw per step and simulation", h.all(len(recs) == 1, tuple(np.shape(recs[0][4])) == (ns, H), recs[0][1] == T))
    q = recs[0][3]
    u = [S(Fraction(1, T))] * T if h.symbolic else [1.0 / T] * T
    h.check("draws use the given probabilities", h.eq(np.array(u if q is None else list(np.ravel(q)), dtype=object), np.array(u if p is None else list(p), dtype=object)))
    h.check("draws are independent (with replacement)", recs[0][5])
    return recs[0][4]


def boot(h, T, N, H, ns, kind, draws, rep=None, pk="vec"):
    P = h.mod("utils.projection")
    R = h.reals("R", (T, N), -2, 2)
    p = probs(h, T) if pk != "none" else None
    log = []
    h.rng(lambda seed=None: Rng(h, log, script=None if draws == "fork" else (lambda k, ix: (2 * ix[0] + ix[1]) % T)))
    names = ["b", "a", "c"][:N]
    X = {"array": R, "frame": frame(R, columns=names), "series": None, "flat": None}[kind]
    if kind == "series":
        X = pd.Series(list(R[:, 0]), name="nm")
    if kind == "flat":
        X = R[:, 0].copy()
    pin = {"vec": lambda: p, "none": lambda: None, "scaled": lambda: p * 4, "col": lambda: p.reshape(-1, 1), "list": lambda: list(p)}[pk]()
    f = {None: lambda y: y, "sq": lambda y: y * y - y}[rep]
    out = P.project_scenarios(X, investment_horizon=H, p=pin, n_simulations=ns, seed=1, **({"reprice": f} if rep else {}))
    D = draws_ok(h, log, T, ns, H, p)
    want = arr(h, [[f(tot(R[D[s, k], n] for k in range(H))) for n in range(N)] for s in range(ns)])
    if kind == "frame":
        h.check("columns keep their asset", h.all(list(out.columns) == names, len(out) == ns))
    if kind == "series":
        h.check("the name survives", isinstance(out, pd.Series) and out.name == "nm")
    h.check("every scenario sums exactly horizon drawn rows", h.eq(vals(out).reshape(ns, N), want))


def paths(h, T, N, H, ns, kind, draws, rep=None, pk="vec"):
    P = h.mod("utils.projection")
    R = h.reals("R", (T, N), -2, 2)
    p = probs(h, T) if pk != "none" else None
    log = []
    h.rng(lambda seed=None: Rng(h, log, script=None if draws == "fork" else (lambda k, ix: (2 * ix[0] + ix[1]) % T)))
    names = ["b", "a", "c"][:N]
    X = {"array": R, "frame": frame(R, columns=names), "flat": R[:, 0].copy(), "series": pd.Series(list(R[:, 0]))}[kind]
    pin = {"vec": lambda: p, "none": lambda: None, "scaled": lambda: p * 4, "col": lambda: p.reshape(-1, 1)}[pk]()
    f, K = {None: (lambda y: y, N), "sq": (lambda y: y * y - y, N), "narrow": (lambda y: y[:, :1] * 2, 1),
            "wide": (lambda y: np.column_stack([y, y[:, 0] * y[:, 0]]), N + 1), "flat": (lambda y: y[:, 0] * 3, 1)}[rep]
    out = P.simulate_paths(X, horizon=H, n_paths=ns, p=pin, seed=1, **({"reprice": f} if rep else {}))
    D = draws_ok(h, log, T, ns, H, p)
    h.check("one value per path, step and instrument", np.shape(out) == (ns, H, K))
    out = vals(out)
    for t in range(H):
        y = arr(h, [[tot(R[D[s, k], n] for k in range(t + 1)) for n in range(N)] for s in range(ns)])
        h.check("each step adds exactly one drawn row", h.eq(out[:, t, :].reshape(ns, K), np.asarray(f(y)).reshape(ns, K)))


def integer_history(h):
    """Integer-valued invariants are not truncated by repricing."""
    P = h.mod("utils.projection")
    a = h.real("a", 0.1, 0.9)
    h.rng(lambda seed=None: Rng(h, script=lambda k, ix: (ix[0] + ix[1]) % 2))
    out = P.simulate_paths(np.array([[0], [1]]), horizon=2, n_paths=1, reprice=lambda y: y * a, seed=1)
    h.check("integer invariants keep fractional values", h.eq(vals(out).ravel(), arr(h, [0 * a, a])))
    out = P.project_scenarios(np.array([[0], [1]]), investment_horizon=2, n_simulations=1, reprice=lambda y: y * a, seed=1)
    h.check("integer invariants keep fractional values", h.eq(vals(out).ravel(), arr(h, [a])))


def reject(h):
    P = h.mod("utils.projection")
    R = h.reals("R", (2, 1), -1, 1)
    x = h.reals("x", 2, -1, 2)
    h.rng(lambda seed=None: Rng(h, script=lambda k, ix: sum(ix) % 2))
    e = raises(lambda: P.project_scenarios(R, 1, p=x, n_simulations=1), ValueError)
    h.check("exactly the valid probability vectors are accepted", iff(e is None, band(x[0] >= 0, x[1] >= 0, x[0] + x[1] > 0)))
    for k in (dict(investment_horizon=0), dict(investment_horizon=-1), dict(n_simulations=0), dict(n_simulations=-2), dict(p=np.array([0.5, 0.25, 0.25]))):
        h.check("impossible requests are rejected", raises(lambda: P.project_scenarios(R, **k), ValueError) is not None)
    got = []

    def fac(seed=None):
        got.append(seed)
        return Rng(h, script=lambda k, ix: sum(ix) % 2)
    h.rng(fac)
    P.project_scenarios(R, 1, n_simulations=1, seed=0)
    P.simulate_paths(R, 1, 1, seed=7)
    P.project_scenarios(R, 1, n_simulations=1)
    h.check("the seed given is the seed used", got == [0, 7, None])


def cases(tier):
    th = tier == "thorough"
    cs = []
    for k in ("array", "pandas"):
        cs.append(Case(f"moment projection {k}", moments, dict(N=3, kind=k), "N=3"))
        cs.append(Case(f"log to simple {k}", forward, dict(N=2 if k == "array" else 1, kind=k), "N=2"))
        cs.append(Case(f"simple to log {k}", backward, dict(N=2 if k == "array" else 1, kind=k), "N=2"))
    cs += [Case("log to simple N3", forward, dict(N=3, kind="pandas"), "N=3", optional=True, budget=300), Case("simple to log N3", backward, dict(N=3, kind="pandas"), "N=3", optional=True, budget=300)]
    cs.append(Case("conversion domain", domain, {}, "N=2"))
    cs.append(Case("scenario conversion", scen_conv, dict(T=2 if th else 1, N=2), "T=1 (2), N=2"))
    for kind, T, N, H, ns, d, rep, pk in (("array", 2, 2, 2, 2, "fork", None, "vec"), ("frame", 3, 2, 2, 1, "fork", None, "scaled"), ("series", 2, 1, 3, 1, "fork", None, "col"),
                                          ("flat", 3, 1, 2, 1, "fork", "sq", "list"), ("frame", 3, 2, 3, 2, "diag", "sq", "none"), ("array", 3, 1, 1, 1, "fork", None, "none")):
        cs.append(Case(f"bootstrap {kind} {pk} {rep}", boot, dict(T=T, N=N, H=H, ns=ns, kind=kind, draws=d, rep=rep, pk=pk), f"T={T}, N={N}, horizon {H}, {ns} simulations, {'every draw' if d == 'fork' else 'one draw pattern'}"))
    for kind, T, N, H, ns, d, rep, pk in (("array", 2, 2, 2, 2, "fork", None, "vec"), ("frame", 3, 2, 2, 1, "fork", "sq", "scaled"), ("flat", 2, 1, 3, 1, "fork", None, "col"), ("series", 3, 1, 2, 2, "diag", "flat", "none"),
                                          ("frame", 3, 2, 3, 2, "diag", "narrow", "none"), ("array", 2, 2, 2, 2, "diag", "wide", "vec")):
        cs.append(Case(f"paths {kind} {pk} {rep}", paths, dict(T=T, N=N, H=H, ns=ns, kind=kind, draws=d, rep=rep, pk=pk), f"T={T}, N={N}, horizon {H}, {ns} paths, {'every draw' if d == 'fork' else 'one draw pattern'}"))
    cs += [Case("integer invariants", integer_history, {}, "two rows"), Case("requests", reject, {}, "T=2")]
    if th:
        cs += [Case("bootstrap deep", boot, dict(T=3, N=2, H=4, ns=2, kind="array", draws="fork"), "T=3, horizon 4, two simulations, every draw", optional=True, budget=600, max_paths=8000),
               Case("paths deep", paths, dict(T=3, N=2, H=4, ns=2, kind="array", draws="fork"), "T=3, horizon 4, two paths, every draw", optional=True, budget=600, max_paths=8000)]
    return cs
