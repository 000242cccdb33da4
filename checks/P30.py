import dataclasses
import types

from checks.opt import *
from checks.P26 import calm

ASSUMPTIONS = ["external solvers, eigen-solvers and searches answer the same program with the same answer, any answer; their own effect on their inputs is not the library's",
               "callbacks supplied by the caller have no side effects", "covariance repair takes its no-change branch (decided by P26)"]
AS = ["a", "b", "c"]
IX = ["t0", "t1", "t2", "t3"]


# ------------------------------------------------------------------ snapshots

def snap(x, depth=0):
    """A deep, independent description of a value."""
    if depth > 8:
        return ("deep",)
    if isinstance(x, np.ndarray):
        return ("array", x.shape, list(x.reshape(-1)))
    if isinstance(x, pd.Series):
        return ("series", list(x.index), x.name, list(x.to_numpy().reshape(-1)))
    if isinstance(x, pd.DataFrame):
        return ("frame", list(x.index), list(x.columns), list(np.asarray(x).reshape(-1)))
    if isinstance(x, pd.Index):
        return ("index", list(x))
    if isinstance(x, dict):
        return ("dict", [(k, snap(v, depth + 1)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v, depth + 1) for v in x])
    if isinstance(x, (S, B, str, bytes, bool, int, float, complex, type(None), np.generic, Fraction)) or callable(x):
        return ("value", x)
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(map(str, x)))
    d = {}
    if dataclasses.is_dataclass(x):
        d.update({f.name: getattr(x, f.name, None) for f in dataclasses.fields(x)})
    d.update(getattr(x, "__dict__", {}))
    return (type(x).__name__, [(k, snap(v, depth + 1)) for k, v in sorted(d.items())])


def agree(a, b, out):
    """Collect the pairs of numbers that must be equal; False when the structure differs."""
    if isinstance(a, (tuple, list)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        return all([agree(x, y, out) for x, y in zip(a, b)])
    if a is b:
        return True
    num = (S, B, int, float, np.generic, Fraction)
    if isinstance(a, num) and isinstance(b, num) and not isinstance(a, (bool, np.bool_)):
        if isinstance(a, float) and isinstance(b, float) and (a == b or (a != a and b != b)):
            return True
        if isinstance(a, B) or isinstance(b, B):
            return bool(iff(a, b))
        out.append((a, b))
        return True
    if callable(a) and callable(b):
        return True
    try:
        return bool(a == b)
    except Exception:
        return False


def unchanged(h, label, before, after):
    out = []
    ok = agree(before, after, out)
    h.check(label, ok)
    if ok and out:
        h.check(label, h.all(*[h.eq(x, y) for x, y in out]))


# ------------------------------------------------------------------ deterministic externals

class World:
    """Externals answer arbitrarily, but the same question always gets the same answer."""

    def __init__(self, h, N=2):
        self.h, self.N, self.book, self.i, self.phase = h, N, [], 0, "first"
        for k in ("qp", "lp", "conelp"):
            h.intercept(k, lambda _k=k, **kw: self._solver(_k, **kw))
        h.intercept("minimize", self._search)
        h.intercept("milp", self._milp)
        if h.symbolic:
            calm(h)
            h.mod("utils.validation").is_psd = lambda *a, **k: True
            h.stub("eigh", lambda a: self._ask(("eigh", snap(np.asarray(a))), lambda: self._eigh(a)))
            h.stub("pinv", lambda a: self._ask(("pinv", snap(np.asarray(a))), lambda: self._sym("pinv", np.asarray(a).shape[0])))

    def enter(self, phase):
        self.phase, self.i = phase, 0

    def _sym(self, tag, n):
        return symm(self.h, f"{tag}{len(self.book)}", n, -2, 2)

    def _eigh(self, a):
        n = np.asarray(a).shape[0]
        k = len(self.book)
        return self.h.reals(f"ev{k}", n, 0.1, 2), self.h.reals(f"eV{k}", (n, n), -1, 1)

    def _ask(self, question, answer):
        h = self.h
        if self.phase == "first":
            a = answer()
            self.book.append((question, a))
            self.i += 1
            return self._copy(a)
        if self.phase == "other":
            return self._copy(answer())
        h.check("the same call puts the same programs to its solvers", self.i < len(self.book))
        q, a = self.book[self.i]
        self.i += 1
        unchanged(h, "the same call puts the same programs to its solvers", q, question)
        return self._copy(a)

    def _copy(self, a):
        if isinstance(a, np.ndarray):
            return a.copy()
        if isinstance(a, tuple):
            return tuple(self._copy(x) for x in a)
        return a

    def _fresh(self, tag, n, lo, hi):
        self.k = getattr(self, "k", 0) + 1
        return self.h.reals(f"{tag}{self.k}", n, lo, hi)

    def _solver(self, kind, **k):
        c = np.ravel(vals(k["q"] if kind == "qp" else k["c"]))
        frozen = (kind, [(n, snap(np.asarray(vals(v)) if v is not None and not isinstance(v, (dict, str)) else v)) for n, v in sorted(k.items()) if n not in ("initvals", "primalstart", "dualstart")])
        x = self._ask(frozen, lambda: self._fresh("x", len(c), Fraction(1, 10), 1))
        o = dot(c, x)
        return {"status": "optimal", "x": x.reshape(-1, 1) if self.h.symbolic else x, "primal objective": o, "dual objective": o, "gap": 0.0, "iterations": 1}

    def _search(self, fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, **k):
        args = args if isinstance(args, tuple) else (args,)
        q = ("minimize", snap(np.ravel(vals(x0))), snap([np.asarray(vals(a)) if hasattr(a, "shape") else a for a in args]), method)
        x = self._ask(q, lambda: self._fresh("lam", len(np.ravel(vals(x0))), -1, 1))
        return types.SimpleNamespace(x=x, success=True, status=0, message="stand-in", fun=0.0, nit=1)

    def _milp(self, c, **k):
        x = self._ask(("milp", snap(np.ravel(vals(c)))), lambda: self._fresh("m", len(np.ravel(vals(c))), 0, 0))
        raise sym.Unsupported("integer programs are decided by P11")


def thrice(h, world, inputs, run, other=None):
    """A call, another call, the first again: same answer, inputs intact."""
    before = snap(inputs)
    world.enter("first")
    a = snap(run())
    unchanged(h, "the caller's data are left alone", before, snap(inputs))
    if other is not None:
        world.enter("other")
        other()
        unchanged(h, "the caller's data are left alone", before, snap(inputs))
    world.enter("again")
    b = snap(run())
    unchanged(h, "the caller's data are left alone", before, snap(inputs))
    unchanged(h, "repeating a call gives the same answer", a, b)


# ------------------------------------------------------------------ inputs

def vec(h, tag, n, form, lo=-1, hi=1, ix=None):
    v = h.reals(tag, n, lo, hi)
    return pd.Series(list(v), index=(ix or AS)[:n], name=tag) if form == "frame" else v


def tab(h, tag, T, N, form, lo=-1, hi=1):
    M = h.reals(tag, (T, N), lo, hi)
    return frame(M, IX[:T], AS[:N]) if form == "frame" else M


def covm(h, tag, N, form, fixed=False):
    M = h.const(np.array([[1.0, 0.25, 0.125], [0.25, 2.0, 0.5], [0.125, 0.5, 1.5]])[:N, :N]) if fixed else pd_matrix(h, tag, N, -1, 1)[0]
    return frame(M, AS[:N], AS[:N]) if form == "frame" else M


def prb(h, tag, T, form):
    p = probs(h, T, tag)
    return pd.Series(list(p), index=IX[:T]) if form == "frame" else p


def moments(h, what, form):
    M, w = h.mod("moments"), World(h)
    T, N = 3, 2
    small = what in ("huber", "mom", "poet", "tyler", "lw", "lwc", "oas")
    mk = lambda tag: tab(h, tag, T, N, form)
    if what == "tyler" and h.symbolic:
        P = h.const(np.array([[1, -.25], [-.25, 2]]))
        h.stub("pinv", lambda a: P.copy())
    if small:       # concrete data with one free entry keep the branches few
        def mk(tag):
            X = h.const(np.array([[1.0, -0.5], [-0.75, 0.5], [0.5, 1.0]]))
            if what != "tyler":
                X[0, 0] = h.real(tag, 0.75, 1)
            return frame(X, IX[:T], AS[:N]) if form == "frame" else X
    R, R2 = mk("r"), mk("s")
    p, p2 = prb(h, "p", T, form), prb(h, "q", T, form)
    mu, C = vec(h, "mu", 3, form), covm(h, "C", 3, form, fixed=True)
    mu2 = vec(h, "nu", 3, form)
    C2 = covm(h, "D", N, form, fixed=True)
    if what == "tyler":
        D = h.const(np.array([[1.0, 0.25], [0.25, 2.0]]))
        D[0, 0] = h.real("d00", 0.5, 1)
        C2 = frame(D, AS[:N], AS[:N]) if form == "frame" else D
    tgt = vec(h, "tg", 3, form)
    kw = {"target": tgt}
    f = {"sample": lambda R, p, m: M.estimate_sample_moments(R, p), "jorion": lambda R, p, m: M.shrink_mean_jorion(m, C, 10),
         "js": lambda R, p, m: M.shrink_mean_james_stein(m, C, 10, target=tgt), "lw": lambda R, p, m: M.shrink_covariance_ledoit_wolf(R, C2), "lwc": lambda R, p, m: M.shrink_covariance_ledoit_wolf(R, C2, target="constant_correlation"),
         "oas": lambda R, p, m: M.shrink_covariance_oas(R, assume_centered=False), "ewma": lambda R, p, m: M.covariance_ewma(R, span=5),
         "huber": lambda R, p, m: M.robust_mean_huber(R, max_iter=1), "mom": lambda R, p, m: M.robust_mean_median_of_means(R, n_blocks=3, random_state=0), "tyler": lambda R, p, m: M.robust_covariance_tyler(R, shrinkage=0.5, max_iter=1, target=C2),
         "poet": lambda R, p, m: M.factor_covariance_poet(R, k=1, thresh=0.1),
         "moments": lambda R, p, m: M.estimate_moments(R, p), "dispatch": lambda R, p, m: M.estimate_moments(R, p, mean_estimator="james_stein", mean_kwargs=kwm, cov_kwargs=kwc)}[what]
    kwm, kwc = ({"target": vec(h, "tt", N, form)} if what == "dispatch" else {}), {}
    if what == "mom" and h.symbolic:
        from checks.common import Rng
        h.stub("rng", lambda *a, **k: Rng(h, script=lambda k, ix: int(ix[0]) if ix else 0))
    thrice(h, w, dict(R=R, p=p, mu=mu, C=C, C2=C2, tgt=tgt, kw=kw, kwm=kwm, kwc=kwc, R2=R2, p2=p2), lambda: f(R, p, mu), lambda: f(R2, p2, mu2))


def weights_(h, what, form):
    P, w = h.mod("probabilities"), World(h)
    x, y = h.reals("x", 3, 0.1, 1), h.reals("y", 3, 0.1, 1)
    f = {"normalise": lambda x: P.normalize_probability_vector(x), "resolve": lambda x: P.resolve_probabilities(x, 3, strictly_positive=True), "kernel": lambda x: P.generate_gaussian_kernel_probabilities(x, h=0.5, x_T=0.25),
         "kernel last": lambda x: P.generate_gaussian_kernel_probabilities(x, h=0.5), "entropy": lambda x: P.compute_effective_number_scenarios(x / tot(x)), "hhi": lambda x: P.compute_effective_number_scenarios_hhi(x),
         "decay": lambda x: P.generate_exp_decay_probabilities(3, 2)}[what]
    if what == "hhi":
        x = probs(h, 3, "xx")
    thrice(h, w, dict(x=x, y=y), lambda: f(x), lambda: f(y))


def functions(h, what, form):
    F, U, w = h.mod("utils.functions"), h.mod("utils.projection"), World(h)
    T, N = 2, 2
    W, R, p, C = vec(h, "w", N, form), tab(h, "r", T, N, form), prb(h, "p", T, form), covm(h, "C", N, form)
    R2, W2 = tab(h, "s", T, N, form), vec(h, "v", N, form)
    pos = tab(h, "g", T, N, form, -0.5, 1)
    B = h.reals("B", N, -1, 1)
    f = {"variance": lambda W, R: F.portfolio_variance(W, C), "volatility": lambda W, R: F.portfolio_volatility(W, C), "var": lambda W, R: F.portfolio_var(W, R, p, confidence=0.6), "cvar": lambda W, R: F.portfolio_cvar(W, R, p, confidence=0.6),
         "demeaned": lambda W, R: (F.portfolio_cvar(W, R, p, confidence=0.6, demean=True), F.portfolio_var(W, R, p, confidence=0.6, demean=True)),
         "horizon": lambda W, R: U.project_mean_covariance(W, C, 12.0), "to simple": lambda W, R: U.convert_scenarios_compound_to_simple(vals(R)), "to log": lambda W, R: U.convert_scenarios_simple_to_compound(vals(pos)),
         "log2simple": lambda W, R: U.log2simple(W, C), "simple2log": lambda W, R: U.simple2log(W + 2, C), "exp": lambda W, R: U.reprice_exp(vals(R)), "taylor": lambda W, R: U.reprice_taylor(vals(R), theta=0.5, delta=B, gamma=B, tau=0.25)}[what]
    thrice(h, w, dict(W=W, R=R, p=p, C=C, pos=pos, B=B, R2=R2, W2=W2), lambda: f(W, R), lambda: f(W2, R2))


def simulate(h, what, form):
    """Seeded draws are scripted: the same seed draws the same rows."""
    U, F, w = h.mod("utils.projection"), h.mod("utils.performance"), World(h)
    T, N = 2, 2
    R, p, R2 = tab(h, "r", T, N, form), prb(h, "p", T, form), tab(h, "s", T, N, form)
    W = vec(h, "w", N, form)
    if what == "drawdown":
        W = h.const(np.array([0.5, 0.5])) if form == "array" else pd.Series(h.const(np.array([0.5, 0.5])), index=AS[:2])
        mk = lambda x: h.const(np.array([[0.25, -0.5], [-0.75, 0.5]])) + np.array([[x, 0 * x], [0 * x, 0 * x]])
        R, R2 = mk(h.real("ra", 0, 1)), mk(h.real("rb", 0, 1))
        if form == "frame":
            R, R2 = frame(R, IX[:T], AS[:N]), frame(R2, IX[:T], AS[:N])
    h.rng(lambda *a, **k: Rng(h, script=lambda k, ix: (sum(ix) + k) % T if ix else 0))
    f = {"scenarios": lambda R: U.project_scenarios(R, investment_horizon=2, p=p, n_simulations=2, seed=3), "paths": lambda R: U.simulate_paths(R, horizon=2, n_paths=2, p=p, seed=3),
         "repriced": lambda R: U.project_scenarios(R, investment_horizon=2, p=p, n_simulations=2, reprice=U.reprice_exp, seed=3),
         "horizons": lambda R: F.horizon_report(W, R, horizons=hz, n_simulations=2, p=p, seed=3, confidence=0.6), "drawdown": lambda R: F.drawdown_quantile(W, R, 2, n_paths=2, p=p, seed=3, confidence=0.5)}[what]
    hz = [1, 2]
    try:
        thrice(h, w, dict(R=R, p=p, R2=R2, W=W, hz=hz), lambda: f(R), lambda: f(R2))
    finally:
        if not h.symbolic:
            pass


def reports(h, what, form):
    F, w, St = h.mod("utils.performance"), World(h), h.mod("stress")
    T, N = 2, 2
    R, p, q = tab(h, "r", T, N, form), prb(h, "p", T, form), prb(h, "q", T, form)
    W = vec(h, "w", N, form) if what != "mapping" else dict(zip(AS, h.reals("w", N, -1, 1)))
    if what.startswith("stress"):      # one free entry keeps the branches few
        X = h.const(np.array([[0.25, -0.5], [-0.75, 0.5]]))
        X[0, 0] = h.real("r00", 0.1, 1)
        R = frame(X, IX[:T], AS[:N]) if form == "frame" else X
    if what == "mapping":
        R = frame(vals(R), IX[:T], AS[:N])
    B, s = h.const(np.array([[1.0, 0.5], [-0.25, 2.0]])), h.const(np.array([0.125, -0.25]))
    g = St.linear_map(matrix=B, mean_shift=s, scale=2.0)
    f = {"pnl": lambda p: F.scenario_pnl(W, R), "mapping": lambda p: F.scenario_pnl(W, R), "report": lambda p: F.performance_report(W, R, probabilities=p, confidence=0.6), "demeaned": lambda p: F.performance_report(W, R, probabilities=p, confidence=0.6, demean=True),
         "stress": lambda p: St.stress_test(W, R, probabilities=p, transform=g, confidence=0.6), "stress q": lambda p: St.stress_test(W, R, probabilities=p, stressed_probabilities=q, confidence=0.6, demean=True)}[what]
    thrice(h, w, dict(R=R, p=p, q=q, W=W, B=B, s=s), lambda: f(p), lambda: f(q))


def optimise(h, what, form):
    O, w = h.mod("optimization"), World(h)
    N, T = 2, 2
    mu, (C, L) = h.reals("mu", N, -1, 1), pd_matrix(h, "L", N, -1, 1)
    if h.symbolic:
        h.stub("cholesky", lambda a: factor(h, a, C, L))
    R, p = h.reals("r", (T, N), -1, 1), probs(h, T)
    s = system(h, N, "box")
    w0, lam, pc = h.reals("w0", N, 0, 1), h.reals("lam", N, 0, 2), h.reals("pc", N, 0, 1)
    tgt = h.real("t", -1, 1)
    init, inputs = None, dict(mu=mu, C=C, R=R, p=p, s=s.args(), w0=w0, lam=lam, pc=pc)
    new = {"mv": lambda: O.MeanVariance(mu, C, *s.args()), "mv cost": lambda: O.MeanVariance(mu, C, *s.args(), initial_weights=w0, market_impact_costs=lam),
           "cvar": lambda: O.MeanCVaR(R, p, 0.4, *s.args()), "cvar cost": lambda: O.MeanCVaR(R, p, 0.4, *s.args(), initial_weights=w0, proportional_costs=pc),
           "robust": lambda: O.RobustOptimizer(mu, C, *s.args()), "robust cost": lambda: O.RobustOptimizer(mu, C, *s.args(), initial_weights=w0, proportional_costs=pc),
           "rrp": lambda: O.RelaxedRiskParity(mu, C, *s.args())}[what]
    o = new()
    pen = h.real("pen", 0.1, 2)
    run = {"mv": lambda x: x.efficient_portfolio(tgt), "cvar": lambda x: x.efficient_portfolio(tgt), "robust": lambda x: x.solve_lambda_variant(pen), "rrp": lambda x: x.solve(lambda_reg=0.25, return_target=None)}[what.split()[0]]
    alt = {"mv": lambda x: x.efficient_portfolio(), "cvar": lambda x: x.efficient_portfolio(), "robust": lambda x: x.solve_gamma_variant(0.5, 0.5), "rrp": lambda x: x.solve(lambda_reg=0.0, return_target=None)}[what.split()[0]]
    thrice(h, w, inputs, lambda: run(o), lambda: alt(o))
    w.book = []
    thrice(h, w, inputs, lambda: run(new()), lambda: alt(o))


def wrapped(h, what, form):
    """Wrapper calls, with per-call constraint overrides in between."""
    A, w = h.mod("portfolioapi"), World(h)
    N, T = 2, 2
    mu, (C, L) = h.reals("mu", N, -1, 1), pd_matrix(h, "L", N, -1, 1)
    if h.symbolic:
        h.stub("cholesky", lambda a: factor(h, a, C, L))
    lab = AS[:N]
    mus, Cs = (pd.Series(list(mu), index=lab), frame(C, lab, lab)) if form == "frame" else (mu, C)
    R, p = tab(h, "r", T, N, form), prb(h, "p", T, form)
    u = h.real("u", 0.5, 1)
    rules = {"long_only": True, "total_weight": 1.0, "bounds": {0: (0.0, u)}}
    w0, pc = vec(h, "w0", N, form, 0, 1), vec(h, "pc", N, form, 0, 1)
    cost = A.TransactionCosts(initial_weights=w0, proportional_costs=pc)
    src = dict(constraints=rules)
    if "cost" in what:
        src["costs"] = cost
    scen = what.startswith("cvar")
    W = A.PortfolioWrapper.from_scenarios(R, probabilities=p, **src) if scen else A.PortfolioWrapper.from_moments(mus, Cs, **src)
    if h.symbolic and scen:
        h.stub("cholesky", lambda a: a)
    over = {"long_only": False, "total_weight": 0.75}
    k = what.split()[0]
    run = {"mv": lambda: W.min_variance_at_return(0.125), "front": lambda: W.variance_frontier(2), "cvar": lambda: W.min_cvar_at_return(0.125, alpha=0.4), "rrp": lambda: W.relaxed_risk_parity_portfolio(lambda_reg=0.25)}[k]
    alt = {"mv": lambda: W.min_variance_at_return(0.25, constraints=over), "front": lambda: W.variance_frontier(2, constraints=over), "cvar": lambda: W.min_cvar_at_return(0.125, alpha=0.4, constraints=over), "rrp": lambda: W.relaxed_risk_parity_portfolio(lambda_reg=0.5, constraints=over)}[k]
    state = lambda: [getattr(W, a) for a in ("G", "h", "A", "b", "initial_weights", "proportional_costs")]
    b0 = snap(state())
    if h.symbolic and k in ("front",):
        raise sym.Unsupported("covered by P18")
    thrice(h, w, dict(mu=mus, C=Cs, R=R, p=p, rules=rules, over=over, w0=w0, pc=pc, cost=cost), run, alt)
    unchanged(h, "rules given for one call stay with that call", b0, snap(state()))


def limits(h, form):
    """Rules written down once build the same rows again and again."""
    K, w = h.mod("utils.constraints"), World(h)
    u, v = h.real("u", 0.5, 1), h.real("v", 0.1, 0.4)
    bounds = {0: (v, u)} if form == "dict" else [(0.0, u), (v, 1.0)]
    rel = [(0, 1, u)]
    G, hh, A, b = h.reals("G", (1, 2), -1, 1), h.reals("h", 1, -1, 1), h.reals("A", (1, 2), -1, 1), h.reals("b", 1, -1, 1)
    d = dict(long_only=False, total_weight=1.0, bounds=bounds, relative_bounds=rel, additional_G_h=[(list(G[0]), hh[0])], additional_A_b=[(list(A[0]), b[0])])
    import inspect
    names = set(inspect.signature(K.build_G_h_A_b).parameters)
    d = {k: x for k, x in d.items() if k in names}
    run = lambda: (K.build_G_h_A_b(2, **d), K.Constraints.from_dict({k: x for k, x in d.items() if k in {f.name for f in dataclasses.fields(K.Constraints)}}).to_matrices(2))
    thrice(h, w, dict(d=d), run, lambda: K.build_G_h_A_b(3, long_only=True))


def allocate(h, what, form):
    D, w = h.mod("discrete_allocation"), World(h)
    W = {"a": h.const(0.5), "b": h.const(0.5)} if form == "dict" else pd.Series([h.const(0.5), h.const(0.5)], index=["a", "b"])
    pr = {"b": h.const(2.0), "a": h.real("pa", 0.75, 1.25)} if form == "dict" else pd.Series([h.const(2.0), h.real("pa", 0.75, 1.25)], index=["b", "a"])
    lots = {"a": 1, "b": 2} if form == "dict" else pd.Series([1, 2], index=["a", "b"])
    if what == "input":
        i = D.DiscreteAllocationInput(weights=W, latest_prices=pr, total_value=5.0, lot_sizes=lots)
        return thrice(h, w, dict(W=W, pr=pr, lots=lots, i=i), lambda: D.allocate_greedy(i, fallback_mode="none"), lambda: D.discretize_weights(W, pr, 9.0, fallback_mode="none"))
    fk = {"cash_penalty": 0.5}
    thrice(h, w, dict(W=W, pr=pr, lots=lots, fk=fk), lambda: D.discretize_weights(W, pr, 5.0, lot_sizes=lots, fallback_mode="none", fallback_kwargs=fk), lambda: D.discretize_weights(W, pr, 9.0, fallback_mode="none"))


def bayes(h, what, form):
    Bm, V, w = h.mod("bayesian"), h.mod("views"), World(h)
    N = 2
    m, C, m2, C2 = vec(h, "m", N, form), covm(h, "C", N, form, fixed=True), vec(h, "n", N, form), covm(h, "D", N, form, fixed=True)
    mk = vec(h, "mk", N, form, 0.1, 1)
    if what == "niw":
        def run():
            n = Bm.NIWPosterior(prior_mu=m, prior_sigma=C, t0=10, nu0=12)
            n.update(sample_mu=m2, sample_sigma=C2, n_obs=20)
            return n.get_mu_ce(), n.get_S_mu(), n.get_sigma_ce()
        return thrice(h, w, dict(m=m, C=C, m2=m2, C2=C2), run, lambda: Bm.NIWPosterior(prior_mu=m2, prior_sigma=C, t0=10, nu0=12).update(sample_mu=m, sample_sigma=C2, n_obs=5))
    if what == "bundle":
        b = Bm.RobustBayesPosterior.from_niw(prior_mu=m, prior_sigma=C, t0=10, nu0=12, sample_mu=m2, sample_sigma=C2, n_obs=20)
        return thrice(h, w, dict(m=m, C=C, m2=m2, C2=C2, b=b), lambda: (b.mean_uncertainty_cov_log(annualization_factor=4.0), b.mu, b.sigma, b.s_mu), lambda: b.mean_uncertainty_cov_log(annualization_factor=2.0))
    names = AS[:N] if form == "frame" else [0, 1]
    q = h.real("q", -1, 1)
    views = {names[0]: q, (names[0], names[1]): h.real("q2", -1, 1)}
    conf = [0.5, 0.25]
    om = h.reals("om", 2, 0.1, 1)
    kw = {"bl": dict(pi=m, omega=om), "bl market": dict(market_weights=mk, omega=om), "bl idzorek": dict(pi=m, view_confidences=conf, omega="idzorek"), "bl mean": dict(prior_mean=m, omega=om)}[what]
    thrice(h, w, dict(m=m, C=C, mk=mk, views=views, conf=conf, om=om, kw=kw), lambda: V.BlackLittermanProcessor(prior_cov=C, mean_views=views, **kw).get_posterior(), lambda: V.BlackLittermanProcessor(prior_cov=C2, pi=m2, mean_views={names[1]: 0.5}, omega=om[:1]).get_posterior())
    p = V.BlackLittermanProcessor(prior_cov=C, mean_views=views, **kw)
    w.book = []
    b0 = snap(p)
    thrice(h, w, dict(m=m, C=C, mk=mk, views=views, om=om), p.get_posterior)


def pooling(h, what, form):
    V, w = h.mod("views"), World(h, 2)
    T, N = 3, 2
    R, p = tab(h, "r", T, N, form), prb(h, "p", T, form)
    if what == "pool":
        pv = vals(p).reshape(-1, 1)
        A, b = h.reals("A", (2, T), -1, 1), h.reals("b", (2, 1), -1, 1)
        A[0] = 1
        b[0, 0] = 1
        G, g = h.reals("G", (1, T), -1, 1), h.reals("g", (1, 1), -1, 1)
        return thrice(h, w, dict(p=pv, A=A, b=b, G=G, g=g), lambda: V.entropy_pooling(pv, A, b, G, g), lambda: V.entropy_pooling(pv, A, b))
    n = AS[:N] if form == "frame" else [0, 1]
    q = h.real("q", -1, 1)
    kw = {"mean": dict(mean_views={n[0]: q, n[1]: V.at_least(0.125)}), "vol": dict(vol_views={n[0]: 0.5}), "corr": dict(corr_views={(n[0], n[1]): 0.25}), "rank": dict(rank_mean=[n[1], n[0]]),
          "ranked": dict(mean_views={n[0]: q}, rank_mean=[n[1], n[0]]), "seq": dict(mean_views={n[0]: q}, vol_views={n[1]: 0.5}, sequential=True)}[what]

    if form == "array":
        kw = dict(mean_views=h.reals("mv", N, -1, 1))
    n = list(n)

    def run():
        f = V.FlexibleViewsProcessor(prior_risk_drivers=R, prior_probabilities=p, **kw)
        return f.get_posterior_probabilities(), f.get_posterior(), f.get_scenarios()
    if what == "mean":
        f = V.FlexibleViewsProcessor(prior_risk_drivers=R, prior_probabilities=p, **kw)
        keep, out = snap(f.get_scenarios()), f.get_scenarios()
        if form == "frame":
            out.iloc[:, :] = 9.0
        else:
            out[...] = 9
        unchanged(h, "answers handed out are copies", keep, snap(f.get_scenarios()))
        unchanged(h, "the caller's data are left alone", snap(vals(R)), keep if form == "array" else snap(vals(f.get_scenarios())))
        w.book = []
    thrice(h, w, dict(R=R, p=p, kw=kw), run, lambda: V.FlexibleViewsProcessor(prior_risk_drivers=R, prior_probabilities=p, **(dict(mean_views={n[1]: 0.25}) if form == 'frame' else dict(mean_views=h.const(np.array([0.25, 0.125]))))))


def ensemble(h, what, form):
    E_, w = h.mod("ensembles"), World(h)
    X = tab(h, "x", 3, 2, form)
    v = h.reals("v", 2, 0.1, 1)
    v = pd.Series(list(v), index=AS[:2]) if form == "frame" else v
    opt = {"maxiters": 50}
    inputs = dict(X=X, v=v, opt=opt)
    if what == "average":
        return thrice(h, w, inputs, lambda: E_.average_exposures(X, weights=v), lambda: E_.average_exposures(X))
    before = snap(dict(E_.solvers.options))
    thrice(h, w, inputs, lambda: E_.exposure_stacking(X, 2, solver_options=opt), lambda: E_.exposure_stacking(X, 2))
    unchanged(h, "solver settings are put back", before, snap(dict(E_.solvers.options)))


def specification(h, form):
    """A model description can be run again and again."""
    from checks.P28 import some_front
    E_, w = h.mod("ensembles"), World(h)
    F = some_front(h, "f", 2, 3, True, True)
    X = tab(h, "x", 3, 2, form)
    lots = dict(mk={"target": "grand_mean"} if form == "frame" else {"target": vec(h, "t", 2, "array")}, ck={}, ok={"constraints": {"long_only": True, "bounds": {0: (0.0, h.real("u", 0.5, 1))}}, "n": 2}, sk={"max_risk": h.real("lim", 2, 3), "risk_label": "CVaR"},
                meta={"z": 1}, proj={"annualization_factor": 12.0, "log_to_simple": False})
    got = []

    def opt(W, **k):
        got.append(snap([W.dist.mu, W.dist.cov, W.G, W.h, W.A, W.b, k]))
        return F
    keep = snap(lots)
    spec = E_.make_portfolio_spec("m", returns=X, mean_estimator="james_stein", mean_kwargs=lots["mk"], cov_kwargs=lots["ck"], optimiser=opt, optimiser_kwargs=lots["ok"], selector="risk_target", selector_kwargs=lots["sk"], metadata=lots["meta"], projection=lots["proj"])
    unchanged(h, "the caller's data are left alone", keep, snap(lots))

    def run():
        G = spec.frontier_factory()
        return got[-1], spec.selector(G), dict(spec.metadata)
    thrice(h, w, dict(lots=lots, X=X, F=F), run, run)
    other = E_.make_portfolio_spec("n", distribution=some_dist(h), optimiser=lambda W, **k: F, selector="min_risk")
    kw = {"L": 2}
    thrice(h, w, dict(lots=lots, F=F, kw=kw), lambda: [(e.selections, e.average, e.metadata) for e in [E_.assemble_portfolio_ensemble([other, other2(h, E_, F)], ensemble="average", stack_kwargs=kw)]])


def some_dist(h):
    return h.mod("portfolioapi").AssetsDistribution(mu=h.const(np.array([0.5, 0.25])), cov=h.const(np.eye(2)))


def other2(h, E_, F):
    return E_.make_portfolio_spec("o", distribution=some_dist(h), optimiser=lambda W, **k: F, selector="max_return")


def container(h, what, form):
    A, w = h.mod("portfolioapi"), World(h)
    T, N = 2, 2
    mu, C, R = vec(h, "mu", N, form), covm(h, "C", N, form), tab(h, "r", T, N, form)
    p = vec(h, "p", T, form, 0.1, 1, ix=IX)
    P = tab(h, "P", 3, N, form, 0.5, 2)
    names = AS[:N]
    f = {"moments": lambda: A.AssetsDistribution(mu=mu, cov=C, asset_names=names), "scenarios": lambda: A.AssetsDistribution(scenarios=R, probabilities=p, asset_names=names), "prices": lambda: A.PortfolioWrapper.from_prices(P).dist, "log": lambda: A.PortfolioWrapper.from_scenarios(R, return_type="log").dist,
         "log moments": lambda: A.PortfolioWrapper.from_moments(mu, C, return_type="log").dist}[what]
    thrice(h, w, dict(mu=mu, C=C, R=R, p=p, P=P, names=names), f, lambda: A.AssetsDistribution(scenarios=vals(R)))


def selections(h, form):
    from checks.P28 import some_front
    F, w = some_front(h, "f", 2, 3, form == "frame", True), World(h)
    q = h.choose("q", [0.0, 0.5, 1.0])
    lab = h.choose("lab", [0, 1])
    lab = [None, "CVaR"][lab]
    run = {0.0: lambda: (F.min_risk(risk_label=lab), F.max_return(), F.to_frame(), F.to_samples(columns=[1])), 0.5: lambda: (F.at_percentile(0.5, risk_label=lab),), 1.0: lambda: (F.tangency(0.05), F.to_frame())}[q]
    thrice(h, w, dict(F=F), run, lambda: F.min_risk())
    if q == 0.0:
        got = F.min_risk()[0]
        keep = snap(F)
        got.iloc[0] = h.const(9.0)
        s = F.to_samples(columns=[0], as_frame=False)[0]
        s[...] = 9
        t = F.to_frame()
        t.iloc[:, :] = 9.0
        unchanged(h, "answers handed out are copies", keep, snap(F))


def cases(tier):
    cs, J = [], 20
    A = lambda n, fn, forms=("array", "frame"), **k: [cs.append(Case(f"{n} {f}", fn, dict(form=f, **k), "N=2..3, T=2..3", jitter=J)) for f in forms]
    for x in ("sample", "jorion", "js", "lw", "lwc", "oas", "huber", "mom", "tyler", "poet", "moments", "dispatch", "ewma"):
        A(f"moments {x}", moments, what=x)
    for x in ("normalise", "resolve", "kernel", "kernel last", "entropy", "hhi", "decay"):
        A(f"probabilities {x}", weights_, ("array",), what=x)
    for x in ("variance", "volatility", "var", "cvar", "demeaned", "horizon", "to simple", "to log", "log2simple", "simple2log", "exp", "taylor"):
        A(f"functions {x}", functions, what=x)
    for x in ("scenarios", "paths", "repriced", "horizons", "drawdown"):
        A(f"simulation {x}", simulate, what=x)
    for x in ("pnl", "mapping", "report", "demeaned", "stress", "stress q"):
        A(f"report {x}", reports, what=x)
    for x in ("mv", "mv cost", "cvar", "cvar cost", "robust", "robust cost", "rrp"):
        A(f"optimiser {x}", optimise, ("array",), what=x)
    for x in ("mv", "mv cost", "cvar", "cvar cost", "rrp"):
        A(f"wrapper {x}", wrapped, what=x)
    A("rules", limits, ("dict", "list"))
    for x in ("input", "weights"):
        A(f"allocation {x}", allocate, ("dict", "series"), what=x)
    for x in ("niw", "bundle", "bl", "bl market", "bl idzorek", "bl mean"):
        A(f"beliefs {x}", bayes, what=x)
    for x in ("pool", "mean", "vol", "corr", "rank", "ranked", "seq"):
        A(f"views {x}", pooling, ("array", "frame") if x in ("pool", "mean") else ("frame",), what=x)
    for x in ("average", "stack"):
        A(f"ensemble {x}", ensemble, what=x)
    for x in ("moments", "scenarios", "prices", "log", "log moments"):
        A(f"distribution {x}", container, what=x)
    A("frontier", selections)
    A("specification", specification)
    return cs
