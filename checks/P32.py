from checks.common import *

ASSUMPTIONS = ["prices positive; gaps (missing prices) stand at stated places", "the logarithm is an arbitrary function with log(a/b) = log(a) - log(b)"]
COLS = ["b", "a", "c"]


def table(h, T, N, gaps=()):
    P = h.reals("p", (T, N), 0.5, 2)
    for t, j in gaps:
        P[t, j] = float("nan")
    return P


def isnan(x):
    return isinstance(x, float) and math.isnan(x) or (not isinstance(x, S) and math.isnan(float(x)))


def expected(h, P, how, fill):
    """The return table, first principles: one row per step; a step with a missing end is missing, then filled."""
    T, N = P.shape
    R = [[None if isnan(P[t, j]) or isnan(P[t - 1, j]) else (P[t - 1, j], P[t, j]) for j in range(N)] for t in range(1, T)]
    if fill == "drop":
        R = [r for r in R if None not in r]
    if fill == "ffill":
        for t in range(1, len(R)):
            R[t] = [x if x is not None else y for x, y in zip(R[t], R[t - 1])]
    if fill == "bfill":
        for t in range(len(R) - 2, -1, -1):
            R[t] = [x if x is not None else y for x, y in zip(R[t], R[t + 1])]
    return R


def returns(h, T, N, how, fill, cols=None, date=None, gaps=()):
    H_ = h.mod("utils.data_helpers")
    P = table(h, T, N, gaps)
    names = COLS[:N]
    if h.symbolic:
        df = pd.DataFrame(P, columns=names, dtype=object)
    else:
        df = pd.DataFrame(np.asarray(P, dtype=float), columns=names)
    days = pd.to_datetime(["2024-01-%02d" % (d + 1) for d in range(T)])
    kw = {}
    if date == "index":
        df.index = days
        df.index.name = "day"
        kw["date_column"] = "day"
    if date == "column":
        df.insert(1, "day", [str(d.date()) for d in days])
        kw["date_column"] = "day"
    if date == "levels":
        df.index = pd.MultiIndex.from_arrays([days[[t // 2 for t in range(T)]], range(T)], names=["day", "n"])
    before = df.copy()
    use = names if cols is None else cols
    if cols is not None or h.symbolic:      # symbolic numbers are no NumPy dtype: columns named one by one
        kw["price_columns"] = list(use)
    if how != "default":
        kw["return_calculation_method"] = how
    if fill != "default":
        kw["fill_na_method"] = fill
    got = H_.pandas_to_numpy_returns(df, **kw)
    X = P[:, [names.index(c) for c in use]]
    R = expected(h, X, how, "ffill" if fill == "default" else fill)
    h.check("one row per step, one column per asset", got.shape == (len(R), len(use)))
    for t, r in enumerate(R):
        for j, x in enumerate(r):
            g = got[t, j]
            h.check("no return is missing", not isnan(g))
            if x is None:
                h.check("what stays missing is zero", h.eq(g, 0))
            elif how == "simple":
                h.check("simple returns are relative changes", h.eq((g + 1) * x[0], x[1]))
            else:
                h.check("log returns are log changes", h.eq(ex(h, g) * x[0], x[1]))
    h.check("the table is left alone", list(df.columns) == list(before.columns) and df.index.equals(before.index) and all(a is b or a == b or (isnan(a) and isnan(b)) for c in names for a, b in zip(df[c], before[c])))


def refusals(h):
    H_ = h.mod("utils.data_helpers")
    df = pd.DataFrame({"a": [1.0, 2.0], "t": ["x", "y"]})
    bad = lambda *a, **k: raises(lambda: H_.pandas_to_numpy_returns(*a, **k), ValueError) is not None
    x = H_.pandas_to_numpy_returns(df, return_calculation_method="simple")
    h.check("only numeric columns are prices", x.shape == (1, 1) and float(x[0, 0]) == 1.0)
    h.check("unknown methods and columns are refused", bad(df, return_calculation_method="ratio") and bad(df, fill_na_method="mean") and bad(df, price_columns=["z"]) and bad(df, date_column="z") and bad(df[["t"]]) and bad(df.to_numpy()) and bad(df["a"]))


def named(h, N):
    H_ = h.mod("utils.data_helpers")
    w = h.reals("w", N, -1, 1)
    s = H_.numpy_weights_to_pandas_series(w, COLS[:N])
    h.check("weights are labelled in order", list(s.index) == COLS[:N] and len(s) == N)
    h.check("weights are labelled in order", h.eq(vals(s), w))
    bad = lambda a, b: raises(lambda: H_.numpy_weights_to_pandas_series(a, b), ValueError) is not None
    h.check("labels that do not fit are refused", bad(w, COLS[:N] + ["z"]) and bad(w, COLS[:N - 1]) and bad(list(w), COLS[:N]) and bad(w, tuple(COLS[:N])) and bad(w.reshape(1, -1), ["a"]) and bad(w, [1] * N))


def cases(tier):
    th = tier == "thorough"
    cs, J = [], 30
    for how in ("default", "log", "simple"):
        for T, N in ((2, 1), (3, 2), (4, 3)) + (((6, 3),) if th else ()):
            cs.append(Case(f"{how} {T}x{N}", returns, dict(T=T, N=N, how=how, fill="default"), f"{T} prices of {N} assets", jitter=J))
        for d in ("index", "column", "levels"):
            cs.append(Case(f"{how} dates as {d}", returns, dict(T=5, N=3, how=how, fill="default", date=d), "5 prices of 3 assets", jitter=J))
        for c in (["c", "b"], ["a"]):
            cs.append(Case(f"{how} columns {''.join(c)}", returns, dict(T=3, N=3, how=how, fill="default", cols=c), "3 prices of 3 assets", jitter=J))
        for fill in ("default", "ffill", "bfill", "zero", "drop"):
            for k, g in enumerate((((2, 0),), ((0, 1),), ((1, 0), (3, 1)), ((4, 0),))):
                cs.append(Case(f"{how} {fill} gaps {k}", returns, dict(T=5, N=2, how=how, fill=fill, gaps=g), "5 prices of 2 assets", jitter=J))
            cs.append(Case(f"{how} {fill} long gaps", returns, dict(T=16, N=2, how=how, fill=fill, gaps=tuple((t, 0) for t in range(3, 13)) + ((4, 1), (5, 1), (14, 1))), "16 prices of 2 assets, 10 missing in a row", jitter=J))
    for N in (2, 3):
        cs.append(Case(f"named weights {N}", named, dict(N=N), f"N={N}", jitter=J))
    cs.append(Case("refusals", refusals, {}, "2 prices"))
    return cs
