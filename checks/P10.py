from checks.common import *

ASSUMPTIONS = ["prices positive, portfolio value positive and small enough for a bounded number of lots",
               "the integer solver behind the fallback either fails or returns any point of the program it was given"]

SLACK = Fraction(1, 10**8)


def milp_stub(h, mode, prices, lots):
    """The fallback solver: refuses, or returns any affordable whole-lot point of the program given."""
    def milp(c=None, integrality=None, bounds=None, constraints=None, options=None, **k):
        if mode == "fail":
            return type("R", (), dict(success=False, status=4, message="no", x=None))()
        n = (len(c) - 1) // 2
        x = np.empty(2 * n + 1, dtype=object)
        for i in range(n):
            x[i] = h.int(f"lot{i}", -6, 12)
            h.assume(x[i] >= bounds.lb[i], x[i] <= bounds.ub[i])
        for i in range(n, 2 * n + 1):
            x[i] = h.real(f"slack{i}")
            h.assume(x[i] >= bounds.lb[i])
            if not (isinstance(bounds.ub[i], float) and math.isinf(bounds.ub[i])):
                h.assume(x[i] <= bounds.ub[i])
        for con in constraints:
            A, lo, hi = vals(con.A), np.ravel(vals(con.lb)), np.ravel(vals(con.ub))
            for r in range(A.shape[0]):
                v = dot(A[r], x)
                for b, s in ((lo[min(r, len(lo) - 1)], 1), (hi[min(r, len(hi) - 1)], -1)):
                    if not (isinstance(b, float) and math.isinf(b)):
                        h.assume((v - b) * s >= 0)
        return type("R", (), dict(success=True, status=0, message="", x=x))()
    h.stub("milp", milp)


def audit(h, res, names, target, prices, lots, V, tol=1e-7):
    """Everything the statement promises about one result."""
    shares = dict(res.shares)
    h.check("only assets with a target are bought", set(shares) <= {n for n in names if n in target})
    live = [n for n in names if n in target]
    sh = {n: shares.get(n, 0) for n in live}
    whole = []
    for n in live:
        s = sh[n]
        if h.symbolic:
            q = S.of(s) / lots[n]
            whole.append(h.eq(q, q.floor()))
        else:
            h.check("share counts are integers", isinstance(s, (int, np.integer)))
            whole.append(s % lots[n] == 0)
    h.check("every position is a whole number of lots", h.all(*whole))
    h.check("no asset is sold short", h.all(*[h.ge(sh[n], 0) for n in live]))
    value = tot(sh[n] * prices[n] for n in live)
    slack = S(SLACK) if h.symbolic else float(SLACK)     # the documented numerical noise guard
    h.check("spending stays within the portfolio value", h.le(value, V + slack, tol))
    h.check("cash plus value of the shares is the portfolio value", h.all(h.le(value + res.leftover_cash, V + slack, tol), h.ge(value + res.leftover_cash, V, tol)))
    h.check("leftover cash is not negative", h.ge(res.leftover_cash, 0))
    ach = res.achieved_weights
    h.check("achieved weights cover the targets", sorted(ach.index) == sorted(live))
    h.check("achieved weights are those of the shares", h.all(*[h.eq(ach[n], sh[n] * prices[n] / V) for n in live]))
    h.check("the tracking error is the total weight deviation", h.eq(res.tracking_error, tot(abs(target[n] - sh[n] * prices[n] / V) for n in live)))
    ser = res.as_series()
    h.check("the series form lists the same shares", h.all(set(ser.index) == set(shares), *[h.eq(ser[n], shares[n]) for n in shares]))


def greedy(h, price, lot, vmax, mode="none", solver="fail", zero=None, kw=None, scaled=False, method="greedy", vfix=None, names=None, free=None):
    D = h.mod("discrete_allocation")
    N = len(price)
    all_names = names = list(names or "abcde"[:N])
    w = h.reals("w", N - 1, 0.001, 1)
    if free is not None:
        w[free:] = h.const(np.array([0.25, 0.375, 0.125][free:N - 1]))
    last = 1 - tot(w.tolist())
    h.assume(last >= 0.001)
    W = list(w) + [last]
    V = h.real("V", 0.5, vmax) if vfix is None else h.const(vfix)
    fr = (lambda x: S(Fraction(str(x)))) if h.symbolic else float
    prices = {n: fr(p) for n, p in zip(names, price)}
    lots = dict(zip(names, [l or 1 for l in lot]))
    stated = {n: l for n, l in zip(names, lot) if l}     # others are traded one by one
    given = dict(zip(names, W))
    if scaled:
        given = {n: x * 3 for n, x in given.items()}
    if zero is not None:
        given["z"] = h.const(zero)
        prices["z"], lots["z"], stated["z"] = fr(1), 1, 1
        names = names + ["z"]
    ps = pd.Series({n: prices[n] for n in reversed(names)})
    milp_stub(h, solver, prices, lots)
    extra = dict(fallback_mode=mode) if mode else {}
    box = []
    e = raises(lambda: box.append(D.discretize_weights(pd.Series(given), ps, V, method=method, lot_sizes=stated, **extra, **(kw or {}))), RuntimeError)
    if e is not None:
        h.check("only the forced fallback may fail", mode == "milp" and solver == "fail")
        return
    audit(h, box[0], names, dict(zip(all_names, W)), prices, lots, V)


def sym_prices(h, N, lots1):
    D = h.mod("discrete_allocation")
    names = list("ab"[:N])
    p = h.reals("p", N, 0.5, 3)
    V = 3
    W = [Fraction(1, 4), Fraction(3, 4)] if N == 2 else [Fraction(1)]
    W = [S(x) if h.symbolic else float(x) for x in W]
    res = D.discretize_weights(pd.Series(dict(zip(names, W))), pd.Series(dict(zip(names, p))), h.const(float(V)), lot_sizes=dict(zip(names, lots1)), fallback_mode="none")
    audit(h, res, names, dict(zip(names, W)), dict(zip(names, p)), dict(zip(names, lots1)), h.const(float(V)))


def normalise(h, N):
    """Targets are the given weights scaled to one, unpriced and unsized assets rejected."""
    D = h.mod("discrete_allocation")
    names = list("abc"[:N])
    w = h.reals("w", N, -1, 2)
    V = h.real("V", -1, 10)
    p = h.reals("p", N, -1, 5)
    lot = [h.choose(f"lot{i}", [-1, 0, 1, 5]) for i in range(N)]
    for x in w:
        h.assume(h.OR(x == 0, x >= 0.001, x <= -0.001))
    s = tot(w.tolist())
    live = [bool(x != 0) for x in w]
    box = []
    e = raises(lambda: box.append(D.DiscreteAllocationInput(dict(zip(names, w)), dict(zip(names, p)), V, dict(zip(names, lot)))), ValueError)
    ok = band(V > 0, s > 0, *[bor(not l, x > 0) for l, x in zip(live, p)], *[(not l) or t > 0 for l, t in zip(live, lot)])
    h.check("invalid inputs are rejected and valid ones accepted", iff(ok, e is None))
    if e is not None:
        return
    I = box[0]
    keep = [n for n, l in zip(names, live) if l]
    h.check("assets without a target are dropped", list(I.weights.index) == keep and list(I.asset_names) == keep)
    for i, n in enumerate(names):
        if live[i]:
            h.check("targets are the given weights scaled to one", h.eq(I.weights[n] * s, w[i]))
            h.check("prices and lot sizes stay with their asset", h.all(h.eq(I.latest_prices[n], p[i]), h.eq(I.lot_sizes[n], lot[i])))


def shorts(h):
    """Short targets are handed to the integer program with their own options."""
    D = h.mod("discrete_allocation")
    names = ["a", "b"]
    prices = {"a": h.const(2.0), "b": h.const(3.0)}
    lots = {"a": 1, "b": 2}
    seen = []
    V = h.const(6.0)
    x = [h.int("la", 0, 6), h.int("lb", -2, 0)]
    h.assume(2 * x[0] + 6 * x[1] <= 6)

    def milp(c=None, **k):
        seen.append(c[-1])
        v = np.empty(5, dtype=object)
        v[:2] = x
        v[2:] = S(0)
        return type("R", (), dict(success=True, status=0, message="", x=v))()
    h.stub("milp", milp)
    W = {"a": h.const(1.5), "b": h.const(-0.5)}
    res = D.discretize_weights(W, prices, V, lot_sizes=lots, fallback_kwargs=dict(cash_penalty=0.25))
    sh = {n: res.shares.get(n, 0) for n in names}
    if h.symbolic:
        h.check("options reach the integer program", len(seen) == 1 and h.eq(seen[0], Fraction(1, 4)).args[0] is not None)
        h.check("shares are the solver's lots times lot size", h.all(h.eq(sh["a"], x[0]), h.eq(sh["b"], 2 * x[1])))
    val = 2 * sh["a"] + 3 * sh["b"]
    h.check("cash plus value is the portfolio value", h.eq(val + res.leftover_cash, V))
    h.check("leftover cash is not negative", h.ge(res.leftover_cash, 0))
    h.check("achieved weights are those of the shares", h.all(h.eq(res.achieved_weights["a"], 2 * sh["a"] / V), h.eq(res.achieved_weights["b"], 3 * sh["b"] / V)))
    h.check("the tracking error is the total weight deviation", h.eq(res.tracking_error, abs(W["a"] - 2 * sh["a"] / V) + abs(W["b"] - 3 * sh["b"] / V)))


def modes(h):
    D = h.mod("discrete_allocation")
    a = dict(weights={"a": 1.0}, latest_prices={"a": 1.0}, total_value=3.5)
    milp_stub(h, "fail", None, None)
    for kw in (dict(fallback_mode="maybe"), dict(method="best")):
        h.check("unknown methods and fallbacks are rejected", raises(lambda: D.discretize_weights(**a, **kw), ValueError) is not None)
    for m in ("greedy", "rounddown", "GREEDY"):
        r = D.discretize_weights(**a, method=m)
        h.check("the greedy spellings agree", r.shares == {"a": 3} and h.eq(r.leftover_cash, 0.5).args is not None)
    h.check("a target needs a price", raises(lambda: D.discretize_weights({"a": 1.0, "b": 1.0}, {"a": 1.0}, 5.0), ValueError) is not None)
    for bad in ({}, pd.Series(dtype=float), {"a": 0.0}):
        h.check("empty or all-zero targets are rejected", raises(lambda: D.discretize_weights(bad, {"a": 1.0}, 5.0), ValueError) is not None)


def frontier(h):
    """The frontier method allocates its own column."""
    P = h.mod("portfolioapi")
    w = h.reals("w", (2, 2), 0.05, 1)
    for j in range(2):
        h.assume(w[0, j] + w[1, j] == 1)
    f = P.PortfolioFrontier(weights=w, returns=h.reals("r", 2, -1, 1), risks=h.reals("k", 2, 0, 1), risk_measure="Volatility", asset_names=["a", "b"])
    prices, lots = {"a": h.const(2.0), "b": h.const(1.5)}, {"a": 1, "b": 2}
    j = h.choose("j", [0, 1])
    milp_stub(h, "fail", prices, lots)
    res = f.as_discrete_allocation(j, prices, h.const(10.0), lot_sizes=lots, fallback_mode="none")
    audit(h, res, ["a", "b"], {"a": w[0, j], "b": w[1, j]}, prices, lots, h.const(10.0))


def cases(tier):
    th = tier == "thorough"
    cs = []
    G = lambda nm, b="", **k: cs.append(Case(nm, greedy, {x: y for x, y in k.items() if x not in ("optional", "budget")}, b or f"prices {k['price']}, lots {k['lot']}, every weight and portfolio value up to {k['vmax']}", optional=k.get("optional", False), budget=k.get("budget", 300)))
    G("N1", price=(1.5,), lot=(2,), vmax=12)
    G("N2 lots 1", price=(2, 3), lot=(1, 1), vmax=9)
    G("N2 lots", price=(1, 1.5), lot=(3, 2), vmax=9)
    G("N2 odd prices", price=(0.7, 1.9), lot=(2, 1), vmax=6)
    G("N2 dear asset", price=(1, 20), lot=(1, 1), vmax=6)
    G("N3 lots", price=(2, 3, 1), lot=(1, 1, 2), vmax=6)
    G("N2 scaled weights", price=(2, 1), lot=(1, 2), vmax=6, scaled=True)
    G("N2 zero target", price=(2, 3), lot=(1, 1), vmax=6, zero=0.0)
    G("N2 negligible target", price=(2, 3), lot=(1, 1), vmax=6, zero=1e-12)
    G("N2 auto, solver fails", price=(2, 3), lot=(1, 2), vmax=7, mode=None)
    G("N2 auto, solver answers", price=(2, 3), lot=(1, 2), vmax=5, mode="auto", solver="any")
    G("N2 one step", price=(2, 3), lot=(1, 1), vmax=7, kw=dict(max_iterations=1))
    G("N2 one step, milp fails", price=(2, 3), lot=(1, 1), vmax=7, mode="milp", kw=dict(max_iterations=1))
    G("N2 one step, milp answers", price=(2, 3), lot=(1, 1), vmax=5, mode="milp", solver="any", kw=dict(max_iterations=1))
    G("N2 one lot size stated", price=(1, 1.5), lot=(3, None), vmax=6)
    G("N3 lot sizes partly stated", price=(1, 1.5, 2), lot=(None, 2, 3), vmax=6, free=1)
    G("N4 unsorted names", price=(1, 1.5, 2, 0.5), lot=(2, 1, None, 3), vmax=6, names="dbca", free=1)
    for lot in ((1, 1), (2, 1)):
        cs.append(Case(f"any prices lots {lot}", sym_prices, dict(N=2, lots1=lot), "every price in [0.5, 3], value 3, weights 1/4 and 3/4", optional=True, budget=120))
    cs.append(Case("inputs", normalise, dict(N=2), "N=2, every weight, price, value and lot", max_paths=6000))
    cs.append(Case("shorts", shorts, {}, "every affordable integer solution"))
    cs.append(Case("modes", modes, {}, "spellings and rejections"))
    cs.append(Case("frontier", frontier, {}, "2 assets, 2 columns"))
    if th:
        G("N3 deep", price=(2, 3, 1), lot=(1, 1, 2), vmax=12, budget=700, optional=True)
        G("N3 odd", price=(0.9, 1.7, 2.3), lot=(2, 1, 1), vmax=9, budget=700, optional=True)
        G("N2 deep", price=(1.3, 2.1), lot=(2, 3), vmax=30, budget=700, optional=True)
        G("N3 auto", price=(2, 3, 1), lot=(1, 2, 1), vmax=6, mode="auto", solver="any", budget=700, optional=True)
    return cs
