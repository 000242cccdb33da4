import itertools

from checks.common import *
from engine.harness import AssumptionFailed

ASSUMPTIONS = ["the integer solver (HiGHS) meets its contract: it returns a minimiser of the program it is given, or reports failure",
               "positions needed to match a short target: at most one lot beyond the target"]


def names_of(N):
    return list("dbca"[:N])


class Prog:
    """The captured program; lots are its integer columns."""

    def __init__(self, h, N, c, integrality, bounds, constraints, **k):
        self.h, self.N = h, N
        self.c = np.ravel(vals(c))
        m = len(self.c)
        integ = [1 if bool(S.of(v) != 0) else 0 for v in np.ravel(vals(integrality))]
        self.lots = [j for j in range(m) if integ[j]]
        self.rest = [j for j in range(m) if not integ[j]]
        if len(self.lots) != N or m != 2 * N + 1:
            raise sym.Unsupported("the integer program has a different shape from the documented one")
        self.lb, self.ub = np.ravel(vals(bounds.lb)), np.ravel(vals(bounds.ub))
        self.cons = []
        for con in constraints if isinstance(constraints, (list, tuple)) else [constraints]:
            A = np.atleast_2d(vals(con.A))
            lo, hi = np.broadcast_to(np.ravel(vals(con.lb)), (A.shape[0],)), np.broadcast_to(np.ravel(vals(con.ub)), (A.shape[0],))
            self.cons += [(A[r], lo[r], hi[r]) for r in range(A.shape[0])]

    def holds(self, z):
        fin = lambda b: not (isinstance(b, float) and math.isinf(b))
        out = []
        for j, v in enumerate(z):
            if fin(self.lb[j]):
                out.append(v >= self.lb[j])
            if fin(self.ub[j]):
                out.append(v <= self.ub[j])
        for a, lo, hi in self.cons:
            v = dot(a, z)
            if fin(lo):
                out.append(v >= lo)
            if fin(hi):
                out.append(v <= hi)
        return band(*out)

    def obj(self, z):
        return dot(self.c, z)


def setup(h, price, lot, vmax, short, pen, cash):
    N = len(price)
    names = names_of(N)
    fr = (lambda x: S(Fraction(str(x)))) if h.symbolic else float
    w = h.reals("w", N - 1, -1 if short else 0.001, 2 if short else 1)
    if N > 3:                              # one free target
        w[1:] = h.const(np.array([0.25, -0.125 if short else 0.125]))
    for x in w:
        h.assume(bor(x >= 0.001, x <= -0.001))
    W = [1 - tot(w.tolist())] + list(w)
    h.assume(W[0] >= 0.001)
    V = h.real("V", 0.5, vmax)
    prices = [fr(p) for p in price]
    k = dict()
    if pen == "any":
        k["cash_penalty"] = h.real("pen", 0, 3)
    if cash == "any":
        k["max_cash"] = h.real("cash", 0, vmax)
    return N, names, W, V, prices, [Lot(l or 1, l is not None) for l in lot], k


class Lot(int):
    """A lot size; one that is not stated counts as one."""
    def __new__(cls, v, stated):
        self = int.__new__(cls, v)
        self.stated = stated
        return self


def documented(W, V, cost, x, pen):
    cash = V - dot(cost, x)
    return tot(abs(wi * V - ci * xi) for wi, ci, xi in zip(W, cost, x)) + pen * cash, cash


def allocate(h, names, W, V, prices, lots, k):
    D = h.mod("discrete_allocation")
    return D.discretize_weights(dict(zip(names, W)), dict(zip(names, prices)), V, method="milp", lot_sizes={n: int(l) for n, l in zip(names, lots) if l.stated}, **k)


def program(h, price, lot, vmax, short, pen=None, cash=None):
    N, names, W, V, prices, lots, k = setup(h, price, lot, vmax, short, pen, cash)
    cost = [p * int(l) for p, l in zip(prices, lots)]
    rate = k.get("cash_penalty", 1)
    cap = k.get("max_cash")
    if not h.symbolic:
        import random
        rnd = random.Random(7)
        compete(h, N, names, W, V, prices, lots, cost, rate, cap, k)
        for t in range(40):          # inputs near the solver's counterexample, where the optimum itself shows the defect
            W2 = [x * rnd.uniform(0.5, 1.5) for x in W]
            s = tot(W2)
            if s < 0.05:
                continue
            W2, V2 = [x / s for x in W2], V * rnd.uniform(0.7, 1.6)
            k2 = {a: b * rnd.uniform(0.5, 1.5) for a, b in k.items()}
            try:
                compete(h, N, names, W2, V2, prices, lots, cost, k2.get("cash_penalty", 1), k2.get("max_cash"), k2)
            except AssumptionFailed:
                pass
        return
    got = []

    def milp(**kw):
        got.append(Prog(h, N, **kw))
        raise StopIteration
    h.stub("milp", milp)
    try:
        allocate(h, names, W, V, prices, lots, k)
    except StopIteration:
        pass
    h.check("one integer program is solved", len(got) == 1)
    P = got[0]
    # every point of the program is an affordable whole-lot portfolio, and costs at least its stated value
    z = np.empty(2 * N + 1, dtype=object)
    x = [h.int(f"x{i}", -12, 24) for i in range(N)]
    for i, j in enumerate(P.lots):
        z[j] = x[i]
    for j in P.rest:
        z[j] = h.fresh(f"z{j}")
    val, left = documented(W, V, cost, x, rate)
    inside = P.holds(z)
    sign = h.all(*[h.all(h.implies(W[i] >= 0, h.ge(x[i], 0)), h.implies(W[i] < 0, h.le(x[i], 0))) for i in range(N)])
    h.check("program points are affordable", h.implies(inside, h.all(h.ge(left, 0), *([h.le(left, cap)] if cap is not None else []))))
    h.check("program points respect the sign of every target", h.implies(inside, sign))
    h.check("the program never undervalues a portfolio", h.implies(inside, h.ge(P.obj(z), val)))
    # every affordable whole-lot portfolio needed to match the targets is a point with exactly its stated value
    ok = [left >= 0] + ([left <= cap] if cap is not None else [])
    for i in range(N):
        t = W[i] * V / cost[i]
        ok.append(ite(W[i] >= 0, x[i], -x[i]) >= 0)
        ok.append(bor(W[i] >= 0, x[i] > t - 1))
    y = np.empty(2 * N + 1, dtype=object)
    for i, j in enumerate(P.lots):
        y[j] = x[i]
    gaps = [abs(W[i] * V - cost[i] * x[i]) for i in range(N)]
    for j, v in zip(P.rest, gaps + [left]):
        y[j] = v
    h.check("no needed affordable portfolio is excluded", h.implies(band(*ok), P.holds(y)))
    h.check("a portfolio is valued at its deviation plus unspent cash", h.implies(band(*ok), h.eq(P.obj(y), val)))


def compete(h, N, names, W, V, prices, lots, cost, rate, cap, k):
    """Replay: the real solver against every whole-lot portfolio of the box."""
    best = None
    rng = [range(0, int((V + 60) // c) + 2) if wi >= 0 else range(-int(-(wi * V) // c) - 1, 1) for wi, c in zip(W, cost)]
    for x in itertools.product(*rng):
        v, left = documented(W, V, cost, x, rate)
        if left < 0 or (cap is not None and left > cap):
            continue
        best = v if best is None else min(best, v)
    try:
        res = allocate(h, names, W, V, prices, lots, k)
    except RuntimeError as e:
        h.assume("Status 4" not in str(e))       # HiGHS itself gave up: no answer to judge
        h.check("no needed affordable portfolio is excluded", best is None)
        return
    x = [res.shares.get(n, 0) / l for n, l in zip(names, lots)]
    v, left = documented(W, V, cost, x, rate)
    h.check("program points are affordable", left >= -1e-6 and (cap is None or left <= cap + 1e-6))
    h.check("program points respect the sign of every target", all((xi >= 0) if wi >= 0 else (xi <= 0) for xi, wi in zip(x, W)))
    h.check("the returned portfolio is not beaten", h.le(v, best, 1e-6))


def result(h, price, lot, vmax, short):
    """Shares, cash and weights reported for whatever the solver returns."""
    N, names, W, V, prices, lots, k = setup(h, price, lot, vmax, short, None, None)
    x = [h.int(f"x{i}", -4 if short else 0, 8) for i in range(N)]
    noise = h.reals("noise", N, -1e-5, 1e-5)
    cost = [p * int(l) for p, l in zip(prices, lots)]
    h.assume(V - dot(cost, x) >= 0)
    for i in range(N):
        h.assume(bor(band(W[i] >= 0, x[i] >= 0), band(W[i] < 0, x[i] <= 0)))

    def milp(c=None, integrality=None, **kw):
        z = np.empty(2 * N + 1, dtype=object if h.symbolic else float)
        z[:] = h.const(0)
        for i in range(N):
            z[i] = x[i] + noise[i]
        return type("R", (), dict(success=True, status=0, message="", x=z))()
    h.intercept("milp", milp)
    res = allocate(h, names, W, V, prices, lots, k)
    sh = [res.shares.get(n, 0) for n in names]
    if True:
        h.check("shares are the solver's lots times lot size", h.all(*[h.eq(sh[i], x[i] * int(lots[i])) for i in range(N)]))
    value = dot(prices, sh)
    h.check("cash, value and portfolio value agree", h.all(h.eq(value + res.leftover_cash, V, 1e-7), h.ge(res.leftover_cash, 0)))
    h.check("achieved weights are those of the shares", h.all(*[h.eq(res.achieved_weights[n], sh[i] * prices[i] / V) for i, n in enumerate(names)]))
    h.check("the tracking error is the total weight deviation", h.eq(res.tracking_error, tot(abs(W[i] - sh[i] * prices[i] / V) for i in range(N))))
    h.check("only held assets are listed", h.all(*[h.any(h.eq(sh[i], 0) if n not in res.shares else bor(sh[i] > 0, sh[i] < 0)) for i, n in enumerate(names)]))


def overspent(h):
    """A solution that does not fit the budget is refused, not reported."""
    D = h.mod("discrete_allocation")
    x = h.int("x", 0, 9)
    V = h.real("V", 1, 20)
    h.intercept("milp", lambda **k: type("R", (), dict(success=True, status=0, message="", x=arr(h, [x, h.const(0), h.const(0)])))())
    e = raises(lambda: D.discretize_weights({"a": 1.0}, {"a": h.const(2.0)}, V, method="mip"), RuntimeError)
    if True:
        h.check("a solution beyond the budget is refused", h.all(h.implies(2 * x <= V, e is None), h.implies(2 * x > V + 1e-6, e is not None)))


def failure(h):
    D = h.mod("discrete_allocation")
    h.intercept("milp", lambda **k: type("R", (), dict(success=False, status=2, message="infeasible", x=None))())
    ok = h.choose("max_cash", [0.25])
    for m in ("milp", "mip", "integer", "lp", "MILP"):
        e = raises(lambda: D.discretize_weights({"a": 1.0}, {"a": 2.0}, 3.5, method=m, max_cash=ok), RuntimeError)
        h.check("a failed solve is reported as an error", e is not None)


def options(h):
    D = h.mod("discrete_allocation")
    seen = []

    def milp(**k):
        seen.append(k)
        return type("R", (), dict(success=True, status=0, message="", x=np.array([S(1), S(0), S(1)], dtype=object)))()
    h.stub("milp", milp)
    r = D.discretize_weights({"a": 1.0}, {"a": h.const(2.0)}, h.const(3.0), method="milp", solver_options={"time_limit": 5.0})
    h.check("the position is found", r.shares == {"a": 1} if not h.symbolic else h.eq(r.shares["a"], 1))
    if h.symbolic:
        h.check("solver options reach the solver", dict(seen[0]["options"]) == {"time_limit": 5.0})


def cases(tier):
    th = tier == "thorough"
    cs = []

    def add(nm, fn, **k):
        cs.append(Case(nm, fn, {a: b for a, b in k.items() if a not in ("optional", "budget", "prove_ms")}, f"prices {k['price']}, lots {k['lot']}, {'any sign' if k['short'] else 'long'} weights, every portfolio value up to {k['vmax']}",
                       optional=k.get("optional", False), budget=k.get("budget", 300), prove_ms=k.get("prove_ms", 30000)))
    add("long N1", program, price=(1.5,), lot=(2,), vmax=10, short=False)
    add("long N2", program, price=(2, 3), lot=(1, 1), vmax=9, short=False)
    add("long N2 lots", program, price=(1.1, 0.7), lot=(2, 3), vmax=9, short=False)
    add("long N2 penalty", program, price=(2, 3), lot=(1, 2), vmax=9, short=False, pen="any")
    add("long N2 cash cap", program, price=(2, 3), lot=(1, 1), vmax=9, short=False, cash="any")
    add("short N2", program, price=(2, 3), lot=(1, 1), vmax=9, short=True)
    add("short N2 lots", program, price=(2, 1.5), lot=(1, 2), vmax=6, short=True)
    add("short N2 cash cap", program, price=(2, 3), lot=(1, 1), vmax=6, short=True, pen="any", cash="any")
    add("long N2 one lot size stated", program, price=(1.1, 0.7), lot=(None, 3), vmax=9, short=False)
    add("short N2 one lot size stated", program, price=(2, 1.5), lot=(2, None), vmax=6, short=True)
    add("long N4", program, price=(2, 3, 1, 1.5), lot=(1, 1, 2, 3), vmax=6, short=False)
    add("result N4", result, price=(2, 1.5, 3, 1), lot=(1, 2, None, 3), vmax=9, short=True)
    add("result long", result, price=(2, 1.5), lot=(1, 2), vmax=9, short=False)
    add("result short", result, price=(2, 1.5), lot=(1, 2), vmax=9, short=True)
    cs.append(Case("overspent", overspent, {}, "1 asset, value 10"))
    cs.append(Case("failure", failure, {}, "infeasible program"))
    cs.append(Case("options", options, {}, "1 asset"))
    if th:
        add("long N3", program, price=(2, 3, 1), lot=(1, 1, 2), vmax=9, short=False, optional=True, budget=800, prove_ms=120000)
        add("short N3", program, price=(2, 3, 1), lot=(1, 1, 2), vmax=6, short=True, optional=True, budget=800, prove_ms=120000)
        add("result N3", result, price=(2, 1.5, 3), lot=(1, 2, 1), vmax=9, short=True, optional=True, budget=800)
    return cs
