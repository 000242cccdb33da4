from checks.common import *
import contextlib
import itertools

ASSUMPTIONS = ["Matplotlib draws what it is handed; decided is the data every drawing call receives (stand-in axes record the calls)",
               "risks are not negative, and each is zero or above 1e-6, in ratio comparisons"]
PRIMARY, ALT = "Volatility", "CVaR (alt)"
NM = ["x", "y", "z", "u"]


class Artist:
    """Stands for anything Matplotlib returns."""

    def __init__(self, log=None):
        self.__dict__["_log"] = log

    def __iter__(self):
        yield Artist()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in ("get_zorder", "get_linewidth"):
            return lambda *a, **k: 2
        return lambda *a, **k: Artist()


class Axis:
    def __init__(self):
        self.formatter = None

    def set_major_formatter(self, f):
        self.formatter = f

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: Artist()


class Axes:
    def __init__(self, figure=None):
        self.__dict__.update(calls=[], xaxis=Axis(), yaxis=Axis(), zaxis=Axis(), figure=figure or Figure())

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)

        def f(*a, **k):
            self.calls.append((n, a, k))
            return Artist()
        return f

    def of(self, *names):
        return [c for c in self.calls if c[0] in names]

    def said(self, name):
        c = self.of(name)
        return c[-1][1][0] if c else None


class Figure:
    def __init__(self):
        self.made = []

    def add_subplot(self, *a, **k):
        self.made.append(Axes(self))
        return self.made[-1]

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: Artist()


class Plt:
    def __init__(self):
        self.figs = []

    def figure(self, *a, **k):
        self.figs.append(Figure())
        return self.figs[-1]

    def subplots(self, nrows=1, ncols=1, **k):
        f = self.figure()
        n = np.empty((nrows, ncols), dtype=object)
        for i in range(nrows):
            for j in range(ncols):
                n[i, j] = f.add_subplot()
        return f, (n[0, 0] if nrows * ncols == 1 else n[0] if nrows == 1 else n[:, 0] if ncols == 1 else n)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: Artist()


@contextlib.contextmanager
def drawing(h):
    """Matplotlib and pandas plotting replaced by recorders, symbolically and in replay."""
    import sys
    import matplotlib
    plt = Plt()
    keep, had = sys.modules.get("matplotlib.pyplot"), getattr(matplotlib, "pyplot", None)
    sys.modules["matplotlib.pyplot"], matplotlib.pyplot = plt, plt
    A = pd.plotting.PlotAccessor
    call = A.__call__

    def record(self, *a, **k):
        ax = k.get("ax")
        if ax is None:
            raise sym.Unsupported("pandas plot on no axes")
        ax.calls.append(("pandas", (self._parent.copy(),), {**k, **({"kind": a[0]} if a else {})}))
        return ax
    A.__call__ = record
    try:
        yield h.mod("plotting"), plt
    finally:
        A.__call__ = call
        if keep is None:
            sys.modules.pop("matplotlib.pyplot", None)
        else:
            sys.modules["matplotlib.pyplot"] = keep
        if had is None:
            del matplotlib.pyplot
        else:
            matplotlib.pyplot = had


def some(h, tag, M, N=2, names=True, measure=PRIMARY, meta=True, alt=True):
    W = h.reals(tag + "w", (N, M), -1, 2)
    r, k, a, l = (h.reals(tag + t, M, lo, hi) for t, lo, hi in (("r", -1, 1), ("k", 0, 2), ("a", -1, 2), ("l", 0, 3)))
    F = h.mod("portfolioapi").PortfolioFrontier(weights=W, returns=r, risks=k, risk_measure=measure, asset_names=NM[:N] if names else None,
                                                **(dict(alternate_risks={ALT: a}) if alt else {}), metadata=[{"lambda": x, "n": i} for i, x in enumerate(l)] if meta else None)
    object.__setattr__(F, "case", (W, r, k, a, l))
    return F


def risk_of(F, label):
    return F.case[3] if label == ALT else F.case[2]


def pts(*xs):
    """Coordinates of a drawing call as equally long vectors."""
    vs = [np.ravel(np.asarray(vals(x) if not isinstance(x, (S, float, int)) else [x], dtype=object)) for x in xs]
    return vs if len({len(v) for v in vs}) == 1 else None


def xy(c, n=2):
    """The coordinates of one call, positional or by name."""
    a = list(c[1]) + [c[2][k] for k in ("x", "y", "z", "zs")[len(c[1]):] if k in c[2]]
    if len(a) < n:
        raise sym.Unsupported("another way to draw")
    return pts(*a[:n])


def at(h, v, want):
    """The drawn coordinates are the wanted vectors."""
    if v is None or len(v[0]) != len(want[0]):
        return h.all(False)
    return h.all(*[h.eq(a, b) for x, y in zip(v, want) for a, b in zip(x, np.ravel(y))])


def column(h, F, risk, point, weights, good):
    """One column: its point, its weights, and it qualifies."""
    W, r = F.case[:2]
    return h.any(*[h.all(h.eq(point[0], risk[j]), h.eq(point[1], r[j]), *([h.eq(vals(weights), W[:, j])] if weights is not None else []), good(j)) for j in range(len(r))])


def qualifies(h, key, F, risk, rf=None):
    r = F.case[1]
    M = len(r)
    return {"min_risk": lambda j: h.all(*[h.le(risk[j], x) for x in risk]),
            "max_return": lambda j: h.all(*[h.ge(r[j], x) for x in r]),
            "tangency": lambda j: h.all(h.ge(risk[j], 1e-6), *[h.implies(risk[i] > 0, h.le((r[i] - rf) * risk[j], (r[j] - rf) * risk[i])) for i in range(M)])}[key]


def calm_risks(h, risk, positive=False):
    for x in risk:
        h.assume(x > Fraction(1, 100) if positive else bor(x == 0, x > Fraction(1, 100)))


def lines(h, form, label, overlays, show, K=2, M=3, given=True):
    """Every frontier is one line through exactly its points, with its own label."""
    Fs = [some(h, f"f{i}", M, measure=PRIMARY if i else "Other") for i in range(K)]
    names = [f"front {i}" for i in range(K)]
    arg, kw = {"list": (Fs, {}), "labels": (tuple(Fs), dict(labels=names)), "mapping": (dict(zip(names, Fs)), {}), "single": (Fs[0], {})}[form]
    if form == "single":
        Fs = Fs[:1]
    if label:
        kw["risk_label"] = label
    if overlays:
        kw["overlay_risk_labels"] = [ALT, "no such risk"]
    with drawing(h) as (P, plt):
        ax = Axes() if given else None
        out = P.plot_frontiers(arg, ax=ax, highlight=(), show_points=show, **kw)
    h.check("the given axes are drawn on", (out is ax) if given else isinstance(out, Axes))
    ls = out.of("plot")
    h.check("one line per frontier and overlay", len(ls) == len(Fs) * (2 if overlays else 1))
    for i, F in enumerate(Fs):
        own = names[i] if form in ("labels", "mapping") else (label or F.risk_measure)
        r = F.case[1]
        mine = [c for c in ls if c[2].get("label") == own]
        k = risk_of(F, label)
        if len({own} | {names[j] if form in ("labels", "mapping") else (label or f.risk_measure) for j, f in enumerate(Fs)}) == len(Fs):
            h.check("every frontier has a line of its own", len(mine) == 1)
        h.check("a frontier's line runs through its points", h.any(*[at(h, xy(c), (k, r)) for c in mine]))
        if overlays:
            over = [c for c in ls if c[2].get("label") == f"{own} ({ALT})"]
            h.check("an overlay runs through the alternate risks", len(over) >= 1 and h.any(*[at(h, xy(c), (F.case[3], r)) for c in over]))
        if show:
            h.check("the points are the frontier's", h.any(*[at(h, xy(c), (k, r)) for c in out.of("scatter")]))
    h.check("only asked points are drawn", len(out.of("scatter")) == (len(Fs) if show else 0))
    h.check("the axes are named", out.said("set_xlabel") == (label or (Fs[0].risk_measure if len({f.risk_measure for f in Fs}) == 1 else "Risk")) and out.said("set_ylabel") == "Expected Return")


def highlights(h, keys, label, M=3, K=1, meta=False):
    """A highlighted point is the frontier point it is called after; the record is that portfolio's."""
    Fs = [some(h, f"f{i}", M) for i in range(K)]
    rf = h.real("rf", -1, 1)
    kw = dict(risk_free_rate=rf) if "tangency" in keys else {}
    if label:
        kw["risk_label"] = label
    if meta:
        kw["highlight_metadata_keys"] = ["n"]
    for F in Fs:
        if "tangency" in keys:
            calm_risks(h, risk_of(F, label))
    with drawing(h) as (P, plt):
        ax = Axes()
        P.plot_frontiers(Fs, ax=ax, labels=[f"front {i}" for i in range(K)], highlight=keys, **kw)
    dots, recs = ax.of("scatter"), list(ax._frontier_highlights)
    n = 0
    for i, F in enumerate(Fs):
        risk = risk_of(F, label)
        for key in keys:
            if key == "tangency" and bool(band(*[x == 0 for x in risk])):
                continue
            h.check("every highlight is drawn and recorded", len(dots) > n and len(recs) > n)
            rec, p = recs[n], xy(dots[n])
            n += 1
            h.check("one point per highlight", p is not None and len(p[0]) == 1)
            h.check("the record carries the asset names", list(rec["weights"].index) == NM[:2])
            h.check("a highlight marks the portfolio it names", column(h, F, risk, (p[0][0], p[1][0]), rec["weights"], qualifies(h, key, F, risk, rf)))
            j = int(rec["index"])
            h.check("the record is the marked portfolio's", h.all(h.eq(rec["risk"], p[0][0]), h.eq(rec["return"], p[1][0]), h.eq(vals(rec["weights"]), F.case[0][:, j]), h.eq(rec["metadata"]["lambda"], F.case[4][j])))
            h.check("the record names frontier and risk", rec["frontier"] == f"front {i}" and rec["risk_measure"] == (label or PRIMARY))
            if meta:
                h.check("the label carries the portfolio's own metadata", f"n={j}" in dots[n - 1][2]["label"])
    h.check("nothing else is highlighted", len(dots) == n and len(recs) == n)


def grid(h, K, labels, by, cols, policy):
    """Every frontier is drawn once, in the panel of its group."""
    meas = [PRIMARY, "Other", PRIMARY, PRIMARY][:K]
    Fs = [some(h, f"f{i}", 2, measure=m) for i, m in enumerate(meas)]
    kw = {}
    if labels:
        kw["labels"] = [f"front {i}" for i in range(K)] if labels == 1 else ["same"] * K
    if by:
        kw["by"] = lambda n, f: "even" if [g is f for g in Fs].index(True) % 2 == 0 else "odd"
    if cols:
        kw["cols"] = cols
    if policy:
        kw["legend_policy"] = policy
    group = [("even", "odd")[i % 2] if by else m for i, m in enumerate(meas)]
    with drawing(h) as (P, plt):
        fig, axes = P.plot_frontiers_grid(Fs, highlight=(), **kw)
    seen = sorted(set(group), key=group.index)
    titled = {}
    for a in axes:
        if a.said("set_title") is not None:
            h.check("one panel per group", a.said("set_title") not in titled)
            titled[a.said("set_title")] = a
    h.check("one panel per group", list(titled) == seen and len(axes) >= len(seen))
    for g, a in titled.items():
        mine = [i for i in range(K) if group[i] == g]
        ls = a.of("plot")
        h.check("every frontier is drawn once, in its panel", len(ls) == len(mine))
        for i in mine:
            F = Fs[i]
            h.check("every frontier is drawn once, in its panel", h.any(*[at(h, xy(c), (F.case[2], F.case[1])) for c in ls]))
            if labels == 1:
                h.check("panels keep the labels", h.any(*[h.all(c[2].get("label") == f"front {i}", at(h, xy(c), (F.case[2], F.case[1]))) for c in ls]))
        want = {"none": False, "all": True, "each": True}.get(policy, len(seen) == 1)
        h.check("legends as asked", (len(a.of("legend")) > 0) == want)
    for a in axes:
        if a not in titled.values():
            h.check("spare panels are empty", not a.of("plot") and bool(a.of("axis")))


def bars(ax):
    """(asset, series) -> drawn weight, in drawing order, and the direction of the bars."""
    out, kinds = [], set()
    for n, a, k in ax.calls:
        if n == "pandas":
            d = a[0]
            kinds.add(k.get("kind"))
            if isinstance(d, pd.DataFrame):
                out += [(i, c, d.loc[i, c]) for c in d.columns for i in d.index]
            else:
                out += [(i, None, x) for i, x in zip(d.index, d.tolist())]
        if n in ("bar", "barh") and len(a) >= 2:
            kinds.add(n)
            out += [(i, k.get("label"), x) for i, x in zip(list(a[0]), list(vals(a[1])))]
    return out, kinds


def weights(h, N, kind, top, fr=False, percent=True):
    """The bars are the portfolio's weights, each under its own name."""
    w = h.reals("w", (N, 2), -1, 1) if fr else h.reals("w", N, -1, 1)
    arg = frame(w.copy(), NM[:N], ["p", "q"]) if fr else pd.Series(list(w), index=NM[:N])
    kw = {} if kind is None else dict(kind=kind)
    if top:
        kw["top_n"] = top
    if percent is not True:
        kw["percent_axes"] = percent
    with drawing(h) as (P, plt):
        ax = Axes()
        out = P.plot_weights(arg, ax=ax, title="T", **kw)
    b, kinds = bars(ax)
    if not b:
        raise sym.Unsupported("another way to draw bars")
    h.check("the chart is titled, on the given axes", out is ax and ax.said("set_title") == "T")
    h.check("the bars run as asked", kinds == {kind or "barh"})
    if fr:
        h.check("every weight has its bar", len(b) == 2 * N)
        for i, c, x in b:
            h.check("a bar shows its own asset's weight", h.eq(x, w[NM.index(i), ["p", "q"].index(c)]))
    else:
        m = min(top or N, N)
        h.check("every weight has its bar", len(b) == m and len({i for i, _, _ in b}) == m)
        for i, _, x in b:
            h.check("a bar shows its own asset's weight", h.eq(x, w[NM.index(i)]))
            if top:
                h.check("the largest weights are shown", h.all(*[h.ge(x, w[j]) for j in range(N) if NM[j] not in {q for q, _, _ in b}]))
        up = (kind or "barh") == "barh"
        h.check("bars are sorted", h.all(*[h.le(p[2], q[2]) if up else h.ge(p[2], q[2]) for p, q in zip(b, b[1:])]))
    val, cat = (ax.xaxis, ax.yaxis) if (kind or "barh") == "barh" else (ax.yaxis, ax.xaxis)
    h.check("asset names stay on their axis", cat.formatter is None)
    h.check("weights are shown as percentages when asked", (val.formatter is not None) == percent)
    h.check("the portfolio is left alone", h.eq(vals(arg), w) if not fr else h.all(*[h.eq(arg.loc[NM[i], c], w[i, j]) for i in range(N) for j, c in enumerate(["p", "q"])]))


def path(h, M, label, over, meta=True):
    """A robust path shows each point with its own parameter."""
    F = some(h, "f", M, meta=meta)
    W, r, k, a, l = F.case
    kw = dict(risk_label=label) if label else {}
    if over:
        kw["overlay_risk_label"] = ALT
    with drawing(h) as (P, plt):
        ax = Axes()
        P.plot_robust_path(F, ax=ax, **kw)
    sc = ax.of("scatter")
    risk = risk_of(F, label)
    h.check("one cloud of points", len(sc) == 1)
    h.check("the points are the frontier's", at(h, xy(sc[0]), (risk, r)))
    if meta:
        h.check("every point is coloured by its own parameter", at(h, pts(sc[0][2]["c"]), (l,)))
    ls = ax.of("plot")
    h.check("one line, and the overlay", len(ls) == (2 if over else 1))
    h.check("the line runs through the points", h.any(*[at(h, xy(c), (risk, r)) for c in ls]))
    if over:
        h.check("an overlay runs through the alternate risks", h.any(*[at(h, xy(c), (a, r)) for c in ls]))
    h.check("the axes are named", ax.said("set_xlabel") == (label or PRIMARY))


def impact(h, M, label, given):
    """Parameter against return and risk: each parameter with its own portfolio, in rising order."""
    F = some(h, "f", M)
    W, r, k, a, l = F.case
    for x, y in itertools.combinations(range(M), 2):
        h.assume(bor(l[x] - l[y] > Fraction(1, 100), l[y] - l[x] > Fraction(1, 100)))
    with drawing(h) as (P, plt):
        mine = (Axes(), Axes())
        fig, axes = P.plot_param_impact(F, **(dict(risk_label=label) if label else {}), **(dict(ax=mine) if given else {}))
    if given:
        h.check("the given axes are drawn on", list(axes) == list(mine))
    for ax, y, name in ((axes[0], r, "Expected Return"), (axes[1], risk_of(F, label), label or PRIMARY)):
        ls = ax.of("plot")
        h.check("one line per panel", len(ls) == 1)
        u, v = xy(ls[0])
        h.check("parameters rise", len(u) == M and h.all(*[h.le(p, q) for p, q in zip(u, u[1:])]))
        h.check("every parameter keeps its own portfolio", h.all(*[h.any(*[h.all(h.eq(u[i], l[j]), h.eq(v[i], y[j])) for j in range(M)]) for i in range(M)]))
        h.check("every portfolio appears", h.all(*[h.any(*[h.eq(u[i], l[j]) for i in range(M)]) for j in range(M)]))
        h.check("the axes are named", ax.said("set_xlabel") == "lambda" and ax.said("set_ylabel") == name)


def surface(h, M, label):
    F = some(h, "f", M)
    W, r, k, a, l = F.case
    with drawing(h) as (P, plt):
        ax = Axes()
        P.plot_robust_surface(F, ax=ax, **(dict(risk_label=label) if label else {}))
    sc = ax.of("scatter")
    h.check("one cloud of points", len(sc) == 1)
    v = xy(sc[0], 3)
    h.check("every point is a portfolio with its parameter", at(h, v, (l, risk_of(F, label), r)))
    h.check("every point is coloured by its own parameter", at(h, pts(sc[0][2]["c"]), (l,)))


REPORT = {"min_risk": ("min_risk", "minimum_risk"), "max_return": ("max_return", "maximum_return", "MAX_RETURN"), "tangency": ("tangency", "max_sharpe"),
          "risk_target": ("risk_target",), "return_target": ("return_target",), "percentile": ("risk_percentile",), "risk_match": ("risk_match",), "column": ("column", "index")}


def report(h, key, name, label, M=3):
    """The report marks one point of the drawn curve and shows that portfolio's weights."""
    F = some(h, "f", M)
    W, r, k, a, l = F.case
    risk = risk_of(F, label)
    t = h.real("t", -1, 2)
    rf = h.real("rf", -1, 1)
    kw = {"risk_target": {"max_risk": t}, "return_target": {"min_return": t}, "risk_match": {"target_risk": t}, "percentile": {"percentile": 0.5}, "column": {"index": 1},
          "tangency": {"risk_free_rate": rf}}.get(key, {})
    if key == "tangency":
        calm_risks(h, risk, True)
        calm_risks(h, k, True)
    given = dict(kw)
    box = []
    with drawing(h) as (P, plt):
        e = raises(lambda: box.append(P.plot_frontier_report(F, selection=name, selection_kwargs=given, **(dict(risk_label=label) if label else {}))), (RuntimeError, ValueError))
    if e is not None:
        out = {"risk_target": band(*[x > t for x in risk]), "return_target": band(*[x < t for x in r])}.get(key, False)
        return h.check("refused only when no portfolio qualifies", out)
    h.check("options are left alone", set(given) == set(kw))
    fig, axes = box[0]
    ax, bx = axes
    h.check("the curve runs through the frontier's points", h.any(*[at(h, xy(c), (risk, r)) for c in ax.of("plot")]))
    dots = [p for p in (xy(c) for c in ax.of("scatter")) if p is not None and len(p[0]) == 1]
    h.check("one point is marked", len(dots) == 1)
    p = (dots[0][0][0], dots[0][1][0])
    b, _ = bars(bx)
    if not b:
        raise sym.Unsupported("another way to draw bars")
    h.check("every weight has its bar", sorted(i for i, _, _ in b) == sorted(NM[:2]))
    w = arr(h, [next(x for i, _, x in b if i == n) for n in NM[:2]])
    ok = {"risk_target": lambda j: h.all(h.le(risk[j], t), *[h.implies(risk[i] <= t, h.le(r[i], r[j])) for i in range(M)]),
          "return_target": lambda j: h.all(h.ge(r[j], t), *[h.implies(r[i] >= t, h.ge(risk[i], risk[j])) for i in range(M)]),
          "risk_match": lambda j: h.all(*[h.le(abs(risk[j] - t), abs(x - t)) for x in risk]),
          "column": lambda j: h.all(j == 1), "percentile": lambda j: h.all(True)}.get(key) or qualifies(h, key, F, risk, rf)
    h.check("the bars are the weights of the marked portfolio, the one asked for", column(h, F, risk, p, w, ok))


def report_given(h):
    """Weights of one's own are shown as they are."""
    F = some(h, "f", 2)
    w = h.reals("mine", 3, -1, 1)
    with drawing(h) as (P, plt):
        fig, (ax, bx) = P.plot_frontier_report(F, weights=pd.Series(list(w), index=NM[:3]))
    b, _ = bars(bx)
    h.check("every weight has its bar", len(b) == 3)
    for i, _, x in b:
        h.check("a bar shows its own asset's weight", h.eq(x, w[NM.index(i)]))


def cloud(h, N, unc, T=3):
    """Assumptions in 3D: mean and scenarios where they are, ellipsoids of the given covariances around the mean."""
    m, X = h.reals("m", N, -1, 1), h.reals("x", (T, N), -1, 1)
    C = np.diag([0.25, 1.0, 0.5625, 0.0625][:N])
    U = np.diag([0.04, 0.01, 0.0225, 0.09][:N])
    if h.symbolic:
        lift = lambda A: h.const(np.asarray(A, dtype=float))
        f64 = lambda a: np.array([[float(S.of(x).as_fraction()) if isinstance(x, S) and hasattr(x, "as_fraction") else float(x) for x in r] for r in np.asarray(vals(a))])
        h.stub("eigh", lambda a: tuple(lift(v) for v in np.linalg.eigh(f64(a))))
        h.stub("eigvalsh", lambda a: lift(np.linalg.eigvalsh(f64(a))))
    with drawing(h) as (P, plt):
        fig, axes = P.plot_assumptions_3d(m, C, scenarios=X, **(dict(uncertainty_cov=U) if unc else {}))
    h.check("one panel per covariance", len(axes) == (2 if unc else 1))
    sc = [xy(c, 3) for c in axes[0].of("scatter")]
    one, many = [v for v in sc if len(v[0]) == 1], [v for v in sc if len(v[0]) == T]
    h.check("mean and scenarios are drawn", len(one) == 1 and len(many) == 1)
    if N < 3:
        z = lambda v: list(v) + [0] * (3 - N)
        h.check("the mean is where it is", h.all(*[h.eq(one[0][i][0], z(m)[i]) for i in range(3)]))
        h.check("the scenarios are where they are", h.all(*[h.eq(many[0][i][t], z(X[t])[i]) for i in range(3) for t in range(T)]))
    else:       # axes are the largest principal directions, up to their signs
        o = np.argsort(-np.diag(C))[:3]
        for i, j in enumerate(o):
            u, v = [one[0][i][0]] + [many[0][i][t] for t in range(T)], [m[j]] + [X[t, j] for t in range(T)]
            h.check("mean and scenarios share the principal axes", h.any(*[h.all(*[h.eq(p, s * q) for p, q in zip(u, v)]) for s in (1, -1)]))


def refusals(h):
    F = some(h, "f", 2)
    G = some(h, "g", 2, meta=False)
    with drawing(h) as (P, plt):
        bad = lambda f, e=(ValueError, TypeError, KeyError): raises(f, e) is not None
        h.check("what cannot be drawn is refused", bad(lambda: P.plot_frontiers([F], labels=["a", "b"])) and bad(lambda: P.plot_frontiers([1])) and bad(lambda: P.plot_frontiers({"a": 1})) and bad(lambda: P.plot_frontiers(F, highlight=("best",)))
                and bad(lambda: P.plot_frontiers(F, highlight=("tangency",))) and bad(lambda: P.plot_frontiers(F, risk_label="zz")) and bad(lambda: P.plot_weights([0.5, 0.5])) and bad(lambda: P.plot_param_impact(G)) and bad(lambda: P.plot_robust_surface(G))
                and bad(lambda: P.plot_frontiers_grid([])) and bad(lambda: P.plot_frontiers_grid([F], legend_policy="zz")) and bad(lambda: P.plot_frontier_report(F, selection="best")))


def cases(tier):
    th = tier == "thorough"
    cs, J = [], 30
    for form in ("single", "list", "labels", "mapping"):
        for lb in (None, ALT):
            for ov in (False, True):
                cs.append(Case(f"lines {form} {lb} {ov}", lines, dict(form=form, label=lb, overlays=ov, show=ov == (lb is None), given=form != "list"), "2 frontiers of 3 columns", jitter=J))
    for K, M in ((1, 1), (3, 2)) + (((4, 4),) if th else ()):
        cs.append(Case(f"lines {K} of {M}", lines, dict(form="labels", label=None, overlays=True, show=True, K=K, M=M), f"{K} frontiers of {M} columns", jitter=J))
    for lb in (None, ALT):
        for ks in (("min_risk",), ("max_return",), ("tangency",), ("min_risk", "max_return")):
            for M in (2, 3) + ((4,) if th else ()):
                cs.append(Case(f"highlights {'+'.join(ks)} {lb} {M}", highlights, dict(keys=ks, label=lb, M=M, meta=M == 3), f"{M} columns", jitter=J))
        cs.append(Case(f"highlights of two {lb}", highlights, dict(keys=("max_return", "min_risk"), label=lb, M=2, K=2), "2 frontiers of 2 columns", jitter=J))
    for K in (1, 2, 3, 4):
        for lab in (0, 1, 2):
            for by in (False, True):
                cs.append(Case(f"grid {K} {lab} {by}", grid, dict(K=K, labels=lab, by=by, cols={3: 2, 4: 3}.get(K) if not by else None, policy=(None, "each", "none", "all")[(K + lab) % 4]), f"{K} frontiers of 2 columns", jitter=J))
    for kind in (None, "barh", "bar"):
        for N, top in ((2, None), (3, None), (3, 1), (3, 2), (2, 5)) + (((4, 2),) if th else ()):
            cs.append(Case(f"weights {kind} {N} {top}", weights, dict(N=N, kind=kind, top=top, percent=N != 2 or top is not None), f"{N} assets", jitter=J))
        cs.append(Case(f"weights {kind} table", weights, dict(N=3, kind=kind, top=None, fr=True), "3 assets, 2 portfolios", jitter=J))
    for lb in (None, ALT):
        for M in (1, 3):
            for ov in (False, True):
                cs.append(Case(f"path {lb} {M} {ov}", path, dict(M=M, label=lb, over=ov), f"{M} columns", jitter=J))
            cs.append(Case(f"surface {lb} {M}", surface, dict(M=M, label=lb), f"{M} columns", jitter=J))
        cs.append(Case(f"path without metadata {lb}", path, dict(M=3, label=lb, over=False, meta=False), "3 columns", jitter=J))
        for M in (1, 2, 3):
            for g in (False, True):
                cs.append(Case(f"impact {lb} {M} {g}", impact, dict(M=M, label=lb, given=g), f"{M} columns", jitter=J))
        for key, al in REPORT.items():
            for n in al:
                cs.append(Case(f"report {n} {lb}", report, dict(key=key, name=n, label=lb, M=3), "3 columns", jitter=J))
    cs.append(Case("report of given weights", report_given, {}, "2 columns, 3 assets", jitter=J))
    for N in (1, 2, 3, 4):
        for u in (False, True):
            cs.append(Case(f"assumptions {N} {u}", cloud, dict(N=N, unc=u), f"{N} assets, 3 scenarios, one covariance", jitter=J))
    cs.append(Case("refusals", refusals, {}, "2 columns"))
    return cs
