import itertools

from checks.common import *

ASSUMPTIONS = ["pricing rules are elementwise functions chosen to be pairwise distinguishable", "exp is any positive increasing function with exp(0)=1"]
K3 = ["eq", "rate", "vol"]


def compose(h, ns, order, insts):
    """Every column order of the drivers, every listed order of the instruments."""
    P = h.mod("utils.projection")
    cols = list(h.choose("cols", list(itertools.permutations(K3))))
    Y = {k: h.reals("y_" + k, ns, -2, 2) for k in K3}
    X = np.empty((ns, 3), dtype=object if h.symbolic else float)
    for j, k in enumerate(cols):
        X[:, j] = Y[k]
    a = h.real("a", -2, 2)
    specs = {"rate": lambda y: a * y + y * y, "Call": (["eq", "vol"], lambda c: c[:, 0] + 2 * c[:, 0] * c[:, 1]), "Bond": ("rate", lambda y: -3 * y),
             "Put": (["vol", "eq"], lambda c: 5 * c[:, 0] - c[:, 1]), "eq": lambda y: y + 1 - 1, "Fut": (["eq"], lambda y: 4 * y), "vol": (["vol", "rate", "eq"], lambda c: c[:, 0] + 7 * c[:, 1] + 11 * c[:, 2]),
             "same": (("rate", "rate"), lambda c: c[:, 0] * 2 + c[:, 1])}
    if "swap" in insts:                    # instruments named like another driver
        insts = [k for k in insts if k != "swap"]
        specs.update({"eq": ("rate", lambda y: 6 * y), "rate": (["vol"], lambda y: y * y), "vol": (("eq", "rate", "vol", "eq"), lambda c: c[:, 0] + 2 * c[:, 1] + 3 * c[:, 2] - 5 * c[:, 3])})
    e, r, v = Y["eq"], Y["rate"], Y["vol"]
    want = {"rate": a * r + r * r, "Call": e + 2 * e * v, "Bond": -3 * r, "Put": 5 * v - e, "eq": e, "Fut": 4 * e, "vol": v + 7 * r + 11 * e, "same": 3 * r}
    if specs["rate"].__class__ is tuple:
        want.update({"eq": 6 * r, "rate": v * v, "vol": -4 * e + 2 * r + 3 * v})
    fn, names = P.compose_repricers({k: specs[k] for k in insts}, invariant_columns=pd.Index(cols) if order == "index" else cols)
    h.check("instruments come in declaration order", list(names) == list(insts))
    out = fn(X)
    h.check("one row per scenario, one column per instrument", np.shape(out) == (ns, len(insts)))
    for j, k in enumerate(insts):
        h.check("each instrument is priced from its own drivers", h.eq(vals(out)[:, j], want[k]))
    h.check("repeating the call repeats the answer", h.eq(vals(fn(X)), vals(out)))


def compose_flat(h):
    P = h.mod("utils.projection")
    y = h.reals("y", 3, -2, 2)
    fn, names = P.compose_repricers({"x": (["d"], lambda c: c * c), "d": lambda c: 2 * c}, ["d"])
    for X in (y, y.reshape(-1, 1)):
        out = vals(fn(X))
        h.check("a single driver feeds every instrument", h.all(np.shape(out) == (3, 2), h.eq(out[:, 0], y * y), h.eq(out[:, 1], 2 * y)))


def reject(h):
    P = h.mod("utils.projection")
    f = lambda y: y
    for spec in ({"zz": f}, {"a": (["a", "zz"], f)}, {"x": ("zz", f)}):
        h.check("an unknown driver is rejected", raises(lambda: P.compose_repricers(spec, ["a", "b"]), KeyError) is not None)
    for spec in ({"a": 3.0}, {"a": ("a", 3.0)}, {"a": ("a", f, f)}, {"a": "a"}):
        h.check("an unusable pricing rule is rejected", raises(lambda: P.compose_repricers(spec, ["a", "b"]), TypeError) is not None)


def pipeline(h, order):
    """From invariants to a labelled wrapper."""
    tame(h)
    P = h.mod("portfolioapi")
    cols = list(h.choose("cols", list(itertools.permutations(["eq", "rate"]))))
    Y = {k: h.reals("y_" + k, 2, -0.5, 0.5) for k in ("eq", "rate")}
    R = frame(np.column_stack([Y[k] for k in cols]), columns=cols)
    log = []
    h.rng(lambda seed=None: Rng(h, log, script=lambda k, ix: (ix[0] + ix[1]) % 2))
    spec = {"Bond": (["rate"], lambda y: -3 * y + y * y), "eq": lambda y: 2 * y, "Mix": (["eq", "rate"], lambda c: c[:, 0] * c[:, 1])}
    spec = {k: spec[k] for k in order}
    D = lambda i: [(i + k) % 2 for k in range(3)]
    W = P.PortfolioWrapper.from_invariants(R, reprice=spec, horizon=3, n_simulations=2, seed=1)
    sc = W.dist.scenarios
    h.check("wrapper assets are the instruments in declaration order", list(W.dist.asset_names) == list(order))
    S_ = vals(sc)
    for i in range(2):
        e, r = (tot(Y[k][d] for d in D(i)) for k in ("eq", "rate"))
        want = {"Bond": -3 * r + r * r, "eq": 2 * e, "Mix": e * r}
        h.check("projected drivers feed the right instrument", h.all(*[h.eq(S_[i, j], want[k]) for j, k in enumerate(order)]))


def pipeline_plain(h):
    tame(h)
    P = h.mod("portfolioapi")
    R = h.reals("R", (2, 2), -0.5, 0.5)
    h.rng(lambda seed=None: Rng(h, script=lambda k, ix: (ix[0] + ix[1]) % 2))
    for rep in (None, lambda y: y * y):
        W = P.PortfolioWrapper.from_invariants(frame(R, columns=["b", "a"]), horizon=1, n_simulations=2, seed=1, **({"reprice": rep} if rep else {}))
        f = rep or (lambda y: ex(h, y) - 1)
        h.check("columns keep their asset", list(W.dist.asset_names) == ["b", "a"])
        h.check("every driver is repriced by the rule, exponential by default", h.eq(vals(W.dist.scenarios), arr(h, [[f(R[t, n]) for n in range(2)] for t in range(2)])))


def taylor(h, ns, N, vec):
    P = h.mod("utils.projection")
    y = h.reals("y", (ns, N), -2, 2)
    mk = lambda nm: h.reals(nm, N, -3, 3) if vec else h.real(nm, -3, 3)
    th, de, ga, tau = mk("theta"), mk("delta"), mk("gamma"), h.real("tau", 0, 2)
    at = lambda x, n: x[n] if vec else x
    for has in itertools.product((0, 1), repeat=3):
        kw = {k: v for k, v, u in (("theta", th, has[0]), ("delta", de, has[1]), ("gamma", ga, has[2])) if u}
        for t in (None, tau):
            out = vals(P.reprice_taylor(y, **kw, **({} if t is None else {"tau": t})))
            want = arr(h, [[has[0] * at(th, n) * (0 if t is None else t) + has[1] * at(de, n) * y[s, n] + has[2] * at(ga, n) * y[s, n] * y[s, n] / 2 for n in range(N)] for s in range(ns)])
            h.check("Taylor value change is theta tau + delta dy + gamma dy^2 / 2", h.all(np.shape(out) == (ns, N), h.eq(out, want)))
    z = vals(P.reprice_taylor(h.const(np.zeros((ns, N))), theta=th, delta=de, gamma=ga))
    h.check("no driver change and no time decay means no value change", h.eq(z, np.zeros((ns, N))))
    flat = vals(P.reprice_taylor(y[:, 0], delta=at(de, 0), gamma=at(ga, 0)))
    h.check("one driver as a vector", h.all(np.shape(flat) == (ns,), h.eq(flat, at(de, 0) * y[:, 0] + at(ga, 0) * y[:, 0] * y[:, 0] / 2)))
    if not vec:
        i = vals(P.reprice_taylor(np.array([[1, 2]]), delta=de))
        h.check("integer driver changes keep fractional values", h.eq(i.ravel(), arr(h, [de, 2 * de])))


def exponential(h):
    P = h.mod("utils.projection")
    y = h.reals("y", (2, 2), -2, 2)
    out = vals(P.reprice_exp(y))
    h.check("exponential value change is exp(dy) - 1", h.all(*[h.eq(out[i, j], ex(h, y[i, j]) - 1) for i in range(2) for j in range(2)]))
    h.check("no driver change means no value change", h.eq(vals(P.reprice_exp(h.const(np.zeros(2)))), np.zeros(2)))


def full(h, ns):
    P = h.mod("utils.projection")
    y0, d = h.reals("y0", 2, -2, 2), h.reals("d", (ns, 2), -2, 2)
    two = lambda Y: np.stack([Y[..., 0] * Y[..., 0] + Y[..., 1], Y[..., 0] * Y[..., 1], 3 * Y[..., 1]], axis=-1)
    f = P.make_repricing_fn(two, y0)
    want = arr(h, [list(two(y0 + d[s]) - two(y0)) for s in range(ns)])
    for _ in range(2):
        h.check("full repricing is the price change from the current drivers", h.eq(vals(f(d)), want))
    h.check("no driver change means no value change", h.eq(vals(f(h.const(np.zeros((ns, 2))))), np.zeros((ns, 3))))
    y1 = y0.copy()
    g = P.make_repricing_fn(lambda Y: Y * Y, list(y1))
    h.check("elementwise pricing", h.eq(vals(g(d)), arr(h, [list((y0 + d[s]) ** 2 - y0 ** 2) for s in range(ns)])))


def cases(tier):
    ns = 2 if tier == "quick" else 3
    sets = [["rate", "Call", "Bond"], ["Put", "eq", "Fut", "vol"], ["vol", "rate", "eq"], ["same", "Bond", "Call", "rate", "Put"], ["Fut"], ["swap", "eq", "rate", "vol"], ["swap", "vol", "Bond", "rate", "Call", "eq"]]
    cs = [Case(f"compose {'-'.join(s)}", compose, dict(ns=ns, order="index" if i % 2 else "list", insts=s), f"{ns} scenarios, 3 drivers in every column order") for i, s in enumerate(sets)]
    cs += [Case("compose one driver", compose_flat, {}, "3 scenarios"), Case("rejections", reject_wrap, {}, "")]
    for o in (["Bond", "eq", "Mix"], ["Mix", "eq"], ["eq"]):
        cs.append(Case("pipeline " + "-".join(o), pipeline, dict(order=o), "2 drivers, horizon 3, 2 simulations"))
    cs += [Case("pipeline plain", pipeline_plain, {}, "2 drivers"), Case("taylor scalar", taylor, dict(ns=2, N=2, vec=False), "2x2"), Case("taylor vector", taylor, dict(ns=ns, N=2, vec=True), "2x2"),
           Case("exponential", exponential, {}, "2x2"), Case("full", full, dict(ns=ns), f"{ns} scenarios, 2 drivers, 3 instruments")]
    return cs


def reject_wrap(h):
    reject(h)
