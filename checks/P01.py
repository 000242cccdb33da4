import warnings

from checks.common import *

ASSUMPTIONS = ["specification values are finite (non-finite ones are rejected at construction)"]
BOUNDS = ["none", "pair", "pair_open_low", "pair_open_high", "pair_zero", "list", "list_open", "map", "map_open", "array", "generator"]


def e_(h, a, b):
    return (S.of(a) == b) if h.symbolic else abs(a - b) <= 1e-9


def l_(h, a, b):
    return (S.of(a) <= b) if h.symbolic else a <= b + 1e-9


def spec(h, N, form):
    """An arbitrary specification of one bounds form: keyword arguments and the list of rules."""
    kw, rules = {}, []          # rule: (kind, function of w -> (lhs, rhs))
    lo, hi = h.reals("lo", N, -1, 1), h.reals("hi", N, -1, 1)
    h.assume(*[lo[i] <= hi[i] for i in range(N)])
    up = lambda i, v: rules.append(("le", lambda w, i=i, v=v: (w[i], v)))
    dn = lambda i, v: rules.append(("le", lambda w, i=i, v=v: (v, w[i])))
    if form in ("pair", "pair_zero"):
        l, u = (lo[0] if form == "pair" else 0), hi[0]
        if form == "pair_zero":
            h.assume(u >= 0)
        kw["bounds"] = (l, u)
        for i in range(N):
            up(i, u); dn(i, l)
    elif form == "pair_open_low":
        kw["bounds"] = (None, hi[0])
        for i in range(N):
            up(i, hi[0])
    elif form == "pair_open_high":
        kw["bounds"] = (lo[0], None)
        for i in range(N):
            dn(i, lo[0])
    elif form in ("list", "array", "generator"):
        b = [(lo[i], hi[i]) for i in range(N)]
        kw["bounds"] = b if form == "list" else arr(h, b) if form == "array" else list(map(list, b))
        for i in range(N):
            up(i, hi[i]); dn(i, lo[i])
    elif form == "list_open":
        b = [(lo[i], hi[i]) for i in range(N)]
        b[0] = (None, hi[0])
        b[-1] = (lo[N - 1], None)
        if N > 2:
            b[1] = (None, None)
        kw["bounds"] = b
        up(0, hi[0]); dn(N - 1, lo[N - 1])
    elif form == "map":
        kw["bounds"] = {N - 1: (lo[N - 1], hi[N - 1]), 0: (lo[0], hi[0])}
        for i in (0, N - 1):
            up(i, hi[i]); dn(i, lo[i])
    elif form == "map_open":
        kw["bounds"] = {N - 1: (None, hi[N - 1]), 0: (lo[0], None)}
        up(N - 1, hi[N - 1]); dn(0, lo[0])
    # the other kinds
    longonly = h.choose("longonly", [True, False, None])
    if longonly is not None:
        kw["long_only"] = longonly
    if longonly is not False:
        for i in range(N):
            dn(i, 0)
    tw = h.choose("tw", ["default", "value", "off"])
    if tw == "value":
        t = h.real("t", -2, 3)
        kw["total_weight"] = t
        rules.append(("eq", lambda w: (tot(w), t)))
    elif tw == "off":
        kw["total_weight"] = None
    else:
        rules.append(("eq", lambda w: (tot(w), 1)))
    extra = h.choose("extra", ["none", "relative", "groups", "rows", "all", "empty"])
    if extra in ("relative", "all"):
        k = h.reals("k", 2, -1, 1)
        kw["relative_bounds"] = [(N - 1, 0, k[0]), (0, 1, k[1])]
        rules.append(("le", lambda w: (w[N - 1] - w[0], k[0])))
        rules.append(("le", lambda w: (w[0] - w[1], k[1])))
    if extra in ("groups", "all"):
        gl, gh = h.reals("gl", 2, -1, 1), h.reals("gh", 2, -1, 1)
        h.assume(gl[0] <= gh[0], gl[1] <= gh[1])
        kw["group_constraints"] = {"x": ([N - 1, 0], gl[0], gh[0]), "y": ((1,), gl[1], gh[1])}
        for g, ix in ((0, (N - 1, 0)), (1, (1,))):
            rules.append(("le", lambda w, g=g, ix=ix: (tot(w[i] for i in ix), gh[g])))
            rules.append(("le", lambda w, g=g, ix=ix: (gl[g], tot(w[i] for i in ix))))
    if extra in ("rows", "all"):
        r = h.reals("r", (2, N), -1, 1)
        rr = h.reals("rr", 2, -1, 1)
        kw["additional_G_h"] = [(list(r[0]), rr[0])]
        kw["additional_A_b"] = [(r[1], rr[1])]
        rules.append(("le", lambda w: (dot(r[0], w), rr[0])))
        rules.append(("eq", lambda w: (dot(r[1], w), rr[1])))
    if extra == "empty":
        kw.update(relative_bounds=[], group_constraints={}, additional_G_h=[], additional_A_b=[])
    return kw, rules


def rows(G, hv, n):
    if G is None or hv is None:
        return []
    G, hv = np.asarray(G, dtype=object), np.ravel(np.asarray(hv, dtype=object))
    assert G.shape == (len(hv), n)
    return list(zip(G, hv))


def same_set(h, N, mats, rules):
    G, hv, A, b = mats
    w = h.reals("w", N, -2, 2)
    h.check("matrix shapes fit", h.all((G is None) == (hv is None), (A is None) == (b is None)))
    try:
        R, Q = rows(G, hv, N), rows(A, b, N)
    except AssertionError:
        h.check("matrix shapes fit", False)
        return
    sysc = band(*[l_(h, dot(g, w), v) for g, v in R], *[e_(h, dot(a, w), v) for a, v in Q], True)
    rulec = band(*[(l_ if k == "le" else e_)(h, *f(w)) for k, f in rules], True)
    h.check("every admitted portfolio obeys every rule", h.implies(sysc, h.all(*[(h.le if k == "le" else h.eq)(*f(w)) for k, f in rules])))
    h.check("every portfolio obeying the rules is admitted", h.implies(rulec, h.all(*[h.le(dot(g, w), v) for g, v in R], *[h.eq(dot(a, w), v) for a, v in Q])))


def build(h, N, form, via):
    U = h.mod("utils.constraints")
    kw, rules = spec(h, N, form)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if via == "kw":
            if form == "generator":
                kw["bounds"] = (p for p in kw["bounds"])
            m = U.build_G_h_A_b(N, **kw)
        elif via == "object":
            m = U.Constraints(**kw).to_matrices(N)
        elif via == "dict":
            m = U.Constraints.from_dict({**kw, "unknown_key": 3}).to_matrices(N)
        else:
            P = h.mod("portfolioapi")
            d = P.AssetsDistribution(mu=h.const(np.zeros(N)), cov=np.eye(N))
            if via == "wrapper object":
                W = P.PortfolioWrapper(d, constraints=U.Constraints(**kw))
                m = W._resolve_constraints(None, None)[:4]
            elif via == "wrapper dict":
                W = P.PortfolioWrapper(d, constraints=kw)
                m = W._resolve_constraints(None, None)[:4]
            else:
                W = P.PortfolioWrapper(d)
                m = W._resolve_constraints(kw if via == "call dict" else U.Constraints(**kw), None)[:4]
    same_set(h, N, m, rules)


def shortcuts(h, N):
    """long_only / total_weight / bounds shortcuts of the wrapper and its defaults."""
    P = h.mod("portfolioapi")
    lo, hi, t = h.real("lo", -1, 1), h.real("hi", -1, 1), h.real("t", 0.1, 2)
    h.assume(lo <= hi)
    d = P.AssetsDistribution(mu=h.const(np.zeros(N)), cov=np.eye(N))
    how = h.choose("how", ["default", "bounds", "short", "call default"])
    R = h.const(np.vstack([np.eye(N), -np.eye(N)]))
    maker = h.choose("maker", ["init", "moments"])
    mk = (lambda **k: P.PortfolioWrapper(d, **k)) if maker == "init" else (lambda **k: P.PortfolioWrapper.from_moments(h.const(np.zeros(N)), np.eye(N), **k))
    nn = [("le", lambda w, i=i: (0, w[i])) for i in range(N)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if how == "default":
            W = mk()
            rules = nn + [("eq", lambda w: (tot(w), 1))]
        elif how == "bounds":
            W = mk(bounds=(lo, hi), total_weight=t)
            rules = nn + [("le", lambda w, i=i: (w[i], hi)) for i in range(N)] + [("le", lambda w, i=i: (lo, w[i])) for i in range(N)] + [("eq", lambda w: (tot(w), t))]
        elif how == "short":
            W = mk(long_only=False, total_weight=t, bounds={0: (lo, hi)})
            rules = [("le", lambda w: (w[0], hi)), ("le", lambda w: (lo, w[0])), ("eq", lambda w: (tot(w), t))]
        else:
            W = P.PortfolioWrapper(d)
            rules = nn + [("eq", lambda w: (tot(w), 1))]
        m = W._resolve_constraints(None, None)[:4]
    same_set(h, N, m, rules)


def empty(h):
    """A specification without any rule constrains nothing, however it is given."""
    U, P = h.mod("utils.constraints"), h.mod("portfolioapi")
    d = P.AssetsDistribution(mu=h.const(np.zeros(2)), cov=np.eye(2))
    kw = dict(long_only=False, total_weight=None)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for W in (P.PortfolioWrapper(d, constraints=U.Constraints(**kw)), P.PortfolioWrapper(d, constraints=kw), P.PortfolioWrapper(d, **kw)):
            same_set(h, 2, W._resolve_constraints(None, None)[:4], [])
        same_set(h, 2, P.PortfolioWrapper(d)._resolve_constraints(kw, None)[:4], [])


def reject(h):
    U = h.mod("utils.constraints")
    a, b = h.real("a", -1, 1), h.real("b", -1, 1)
    f = lambda **k: U.build_G_h_A_b(3, **k)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for k in ({"bounds": (a, b)}, {"bounds": [(0.0, 1.0), (a, b), (0.0, 1.0)]}, {"bounds": {1: (a, b)}}, {"group_constraints": {"g": ([0, 1], a, b)}}):
            h.check("crossing bounds are rejected, ordered ones accepted", iff(a <= b, raises(lambda: f(**k), ValueError) is None))
        for k in ({"bounds": {3: (0.0, 1.0)}}, {"bounds": {-1: (0.0, 1.0)}}, {"relative_bounds": [(0, 3, a)]}, {"relative_bounds": [(-1, 1, a)]}, {"group_constraints": {"g": ([0, 3], 0.0, 1.0)}}, {"group_constraints": {"g": ([-1], 0.0, 1.0)}}):
            h.check("an unknown asset is rejected", raises(lambda: f(**k), IndexError) is not None)
        for k in ({"bounds": [(0.0, 1.0)] * 2}, {"bounds": [(0.0, 1.0)] * 4}, {"relative_bounds": [(1, 1, a)]}, {"relative_bounds": [(0, 1)]}, {"additional_G_h": [([1.0, 1.0], a)]}, {"additional_A_b": [([1.0] * 4, a)]},
                  {"bounds": (0.0, float("inf"))}, {"bounds": (float("nan"), 1.0)}, {"total_weight": float("inf")}, {"group_constraints": {"g": ([0], float("-inf"), 1.0)}}, {"additional_G_h": [([1.0] * 3, float("nan"))]}, {"relative_bounds": [(0, 1, float("inf"))]}):
            h.check("an inconsistent specification is rejected", raises(lambda: f(**k), (ValueError, TypeError)) is not None)
        for n in (0, -1):
            h.check("no assets are rejected", raises(lambda: U.build_G_h_A_b(n), ValueError) is not None)
        G, hv, A, bb = U.build_G_h_A_b(2, long_only=False, total_weight=None, return_none_if_empty=False)
        h.check("an empty system admits everything", h.all(np.shape(G) == (0, 2), np.size(hv) == 0, np.shape(A) == (0, 2), np.size(bb) == 0))
        h.check("an empty system is None by default", U.build_G_h_A_b(2, long_only=False, total_weight=None) == (None,) * 4)


def ints(h):
    """Integer-valued specifications compile to floating-point systems."""
    U = h.mod("utils.constraints")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        G, hv, A, b = U.Constraints(bounds=(-1, 1), total_weight=1, long_only=False, group_constraints={"g": ([0], 0, 1)}, relative_bounds=[(0, 1, 1)], additional_G_h=[([1, 2, 3], 4)], additional_A_b=[([1, 0, 0], 0)]).to_matrices(3)
    if not h.symbolic:
        h.check("integer specifications give float matrices", all(np.asarray(x).dtype.kind == "f" for x in (G, hv, A, b)))
    R = [("le", lambda w, i=i: (w[i], 1)) for i in range(3)] + [("le", lambda w, i=i: (-1, w[i])) for i in range(3)]
    R += [("le", lambda w: (w[0], 1)), ("le", lambda w: (0, w[0])), ("le", lambda w: (w[0] - w[1], 1)), ("le", lambda w: (w[0] + 2 * w[1] + 3 * w[2], 4)), ("eq", lambda w: (tot(w), 1)), ("eq", lambda w: (w[0], 0))]
    same_set(h, 3, (G, hv, A, b), R)


def cases(tier):
    N = 3 if tier == "quick" else 4
    cs = []
    vias = ["kw", "object", "dict", "wrapper object", "wrapper dict", "call dict", "call object"]
    for i, f in enumerate(BOUNDS):
        use = ["kw"] if f == "generator" else ["kw", vias[1 + i % 6]] if tier == "quick" else vias
        for v in use:
            cs.append(Case(f"{f} via {v}", build, dict(N=N, form=f, via=v), f"N={N}, every combination of the other constraint kinds, all values and weights"))
    cs.append(Case("shortcuts", shortcuts, dict(N=3), "N=3"))
    cs.append(Case("no rules", empty, {}, "N=2"))
    cs.append(Case("rejections", reject, {}, "N=3"))
    cs.append(Case("integers", ints, {}, "N=3"))
    return cs
