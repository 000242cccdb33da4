from checks.common import *

ASSUMPTIONS = ["matrix inversion is exact (the inverse of the covariance is the symbolic quantity; the covariance follows from it)",
               "the covariance handed to a shrinkage estimator is positive definite"]
LAB = ["a", "b", "c"]


def dominant(h, N, name="P"):
    """Symmetric diagonally dominant (hence positive definite) matrix of inputs."""
    s = np.empty((N, N), dtype=object if h.symbolic else float)
    for i in range(N):
        for j in range(i, N):
            s[i, j] = s[j, i] = h.real(f"{name}_{i}_{j}", 0.5, 3) if i == j else h.real(f"{name}_{i}_{j}", -0.24, 0.24)
    return s


FIXED = np.array([[1, -.25, .125, 0], [-.25, 2, .5, .25], [.125, .5, .75, -.125], [0, .25, -.125, 1.5]])

HEDGE = np.array([[7, -2.5, -.5], [-2.5, 1.75, -.25], [-.5, -.25, 1.75]])     # all covariances positive, yet the minimum-variance portfolio is short the second asset


def covariance(h, N, jitter, skew=False, fixed=False, plain=False):
    """A covariance matrix and its inverse (after the documented jitter).

    The solver sees an opaque covariance whose inverse is an arbitrary dominant matrix;
    a replay builds the covariance from that inverse."""
    P = h.const(HEDGE if fixed == "hedge" else FIXED[:N, :N] * fixed) if fixed else dominant(h, N)
    if fixed and plain:
        P = h.const(np.diag([1, 2, 0.75, 1.5][:N]))
    if not h.symbolic:
        S_ = np.linalg.inv(P)
        S_ = (S_ + S_.T) / 2 - jitter * np.eye(N)
        if skew:
            S_[0, -1] += 0.125
            S_[-1, 0] -= 0.125
        return S_, P
    S_ = np.empty((N, N), dtype=object)
    for i in range(N):
        for j in range(i, N):
            S_[i, j] = S_[j, i] = sym.fresh(f"cov{i}{j}")
    base = S_.copy()
    if skew:
        S_[0, -1] = S_[0, -1] + Fraction(1, 8)
        S_[-1, 0] = S_[-1, 0] - Fraction(1, 8)

    def inverse(a):
        a = vals(a)
        for i in range(N):
            for j in range(N):
                d = S.of(a[i, j] - base[i, j])
                d = S(frac_of(d))
                if d.c is None or d.c != (frac_of(S(jitter)) if i == j else 0):
                    raise sym.Unsupported("the inverse of another matrix")
        return P.copy()
    tame(h)
    h.stub("inv", inverse)
    h.stub("pinv", inverse)
    return S_, P


def frac_of(s):
    import z3 as z
    s = S.of(s)
    if s.c is not None:
        return s.c
    t = z.simplify(s.t, som=True)
    if z.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    raise sym.Unsupported("the inverse of another matrix")


def pack(m, S_, N, labels):
    if not labels:
        return m, S_
    return pd.Series(list(m), index=LAB[:N], name="x"), frame(S_, LAB[:N], LAB[:N])


def labelled(h, got, N, labels):
    if labels:
        h.check("the result carries the asset labels", isinstance(got, pd.Series) and list(got.index) == LAB[:N])
    got = vals(got)
    h.check("one mean per asset", np.shape(got) == (N,))
    return got


def between(h, got, m, t, label):
    for i in range(len(m)):
        h.check(label, h.all(h.any(h.le(m[i], got[i]), h.le(t[i], got[i])), h.any(h.ge(m[i], got[i]), h.ge(t[i], got[i]))))


def jorion(h, N, labels, T=None, skew=False, fixed=1):
    M = h.mod("moments")
    if fixed:
        m = h.reals("mu", N, -1, 1)
        S_, P = covariance(h, N, 1e-8, skew, fixed)
    else:                                  # the inverse has a free diagonal, the means are given
        m = h.const(np.array([0.5, -0.25, 0.125, 1])[:N])
        P = dominant(h, N)
        S_, P = covariance(h, N, 1e-8, skew)
    T = h.int("T", 1, 1000) if T is None else T
    got = labelled(h, M.shrink_mean_jorion(*pack(m, S_, N, labels), T), N, labels)
    one = tot(P[i, j] for i in range(N) for j in range(N))
    g = tot(P[i, j] * m[j] for i in range(N) for j in range(N)) / one
    d = [x - g for x in m]
    q = tot(d[i] * P[i, j] * d[j] for i in range(N) for j in range(N))
    lemma(h, q >= 0)
    k = N + 2 + T * q
    for i in range(N):
        h.check("the shrunk mean is the documented share of the way to the minimum-variance mean", h.any(h.eq(m[i] - got[i], (N + 2) * d[i] / k), h.eq((m[i] - got[i]) * k, (N + 2) * d[i])))
    # with that formula: the intensity (N+2)/k lies in (0, 1]
    h.check("the intensity is between zero and one", h.all(h.ge(k, N + 2)))


def jorion_equal(h, N):
    """Equal means leave nothing to shrink."""
    M = h.mod("moments")
    c = h.real("mu", -1, 1)
    S_, P = covariance(h, N, 1e-8)
    got = vals(M.shrink_mean_jorion(np.array([c] * N), S_, h.int("T", 1, 500)))
    h.check("equal means are left alone", h.eq(got, np.array([c] * N)))


def james(h, N, labels, target, skew=False):
    M = h.mod("moments")
    m = h.reals("mu", N, -1, 1)
    S_, P = covariance(h, N, 0, skew, fixed=target in ("grand", "named", "shuffled") and N > 2, plain=True)
    T = h.int("T", 1, 1000) if N < 3 or target not in ("grand", "named", "shuffled") else 24
    kw = {}
    if N > 2 and target in ("grand", "named"):
        m[2:] = h.const(np.array([0.25, -0.375])[:N - 2])
    if target == "grand":
        t = [tot(m) / N] * N
    elif target == "named":
        t, kw = [tot(m) / N] * N, dict(target="grand_mean")
    elif target == "same":
        t, kw = m, dict(target=m.copy())
    else:
        t = h.reals("t", N, -1, 1)
        kw = dict(target=t)
        if target == "list":
            kw = dict(target=list(t))
        if target == "shuffled":
            m[:] = h.const(np.array([0.25, -0.375, 0.5, 0])[:N])
            kw = dict(target=pd.Series(rot(t), index=rot(LAB[:N])))
        if target == "series":
            kw = dict(target=pd.Series(list(t), index=LAB[:N]))
        if target == "column":
            kw = dict(target=t.reshape(-1, 1))
    d = [x - y for x, y in zip(m, t)]
    q = T * tot(d[i] * P[i, j] * d[j] for i in range(N) for j in range(N))
    zero = h.AND(*[x == 0 for x in d])
    if h.symbolic:
        lemma(h, (q > 0) | zero)            # positive definite
        lemma(h, implies(zero, q == 0))
    got = labelled(h, M.shrink_mean_james_stein(*pack(m, S_, N, labels), T, **kw), N, labels)
    if bool(zero):
        return h.check("nothing to shrink: the sample mean", h.eq(got, m))
    if N <= 2:
        return h.check("with one or two assets the sample mean stays", h.eq(got, m))
    if bool(q <= N - 2):
        return h.check("full shrinkage reaches the target, not beyond", h.eq(got, np.array(t)))
    for i in range(N):
        h.check("the shrunk mean is the documented share of the way to the target", h.eq((m[i] - got[i]) * q, (N - 2) * d[i]) if target in ("grand", "named") else h.any(h.eq(m[i] - got[i], (N - 2) * d[i] / q), h.eq((m[i] - got[i]) * q, (N - 2) * d[i])))
    between(h, got, m, t, "the shrunk mean lies between sample mean and target") if N <= 1 else None


def refusals(h):
    M = h.mod("moments")
    S_ = h.const(np.eye(3) + 0.25)
    if h.symbolic:
        tame(h)
    m = h.reals("mu", 3, -1, 1)
    T = h.int("T", -5, 0)
    bad = lambda f: raises(f, ValueError) is not None
    h.check("sample sizes must be positive", bad(lambda: M.shrink_mean_jorion(m, S_, T)))
    h.check("sample sizes must be positive", bad(lambda: M.shrink_mean_james_stein(m, S_, T)))
    h.check("two assets are too few for Jorion", bad(lambda: M.shrink_mean_jorion(m[:2], S_[:2, :2], 10)))
    h.check("shapes must agree", bad(lambda: M.shrink_mean_jorion(m, S_[:2, :2], 10)) and bad(lambda: M.shrink_mean_james_stein(m, S_[:2, :2], 10)) and bad(lambda: M.shrink_mean_james_stein(m, S_[:2], 10)))
    h.check("targets must be known", bad(lambda: M.shrink_mean_james_stein(m, S_, 10, target="zero")) and bad(lambda: M.shrink_mean_james_stein(m, S_, 10, target=m[:2])))
    a, b = pd.Series(list(m), index=LAB), frame(S_, LAB[::-1], LAB[::-1])
    h.check("labels must agree", bad(lambda: M.shrink_mean_jorion(a, b, 10)) and bad(lambda: M.shrink_mean_james_stein(a, b, 10)))


def spread(h, X, got, label="the estimate stays within the range of the data"):
    T, N = X.shape
    for j in range(N):
        c = list(X[:, j])
        h.check(label, h.all(h.any(*[h.le(x, got[j]) for x in c]), h.any(*[h.ge(x, got[j]) for x in c])))


def middle(xs):
    xs = sorted(xs)
    n = len(xs)
    return xs[n // 2] if n % 2 else (xs[n // 2 - 1] + xs[n // 2]) / 2


def huber(h, T, steps, clipped, labels=True, N=1, at=None):
    M = h.mod("moments")
    if at:                                 # two observations given, the middle one free
        c, w = at
        X = np.array([[h.const(c - w)], [h.real("x", c - w, c + w)], [h.const(c + w)]])
    else:
        X = h.reals("x", (T, N), -1, 1)
    kw = {} if steps is None else dict(max_iter=steps)
    x = list(X[:, 0])
    if h.symbolic:                         # one order of the observations stands for all: the rows are exchangeable
        for u, v in zip(x, x[1:]):
            h.assume(u <= v)
        med = x[T // 2] if T % 2 else (x[T // 2 - 1] + x[T // 2]) / 2
    else:
        med = middle(x)
    if not clipped:
        mad = middle([abs(v - med) for v in x]) if not h.symbolic else None
        if h.symbolic:
            if T == 3:
                mad = sym.smin(x[1] - x[0], x[2] - x[1])
            elif T == 2:
                mad = (x[1] - x[0]) / 2
            else:
                raise sym.Unsupported("size")
        tau = h.const(1.4826 * math.sqrt(T / 2.0)) * mad
        mean = tot(x) / T
        for v in x:
            for c in (med, mean):
                h.assume(v - c < tau * 0.999, c - v < tau * 0.999)
    got = M.robust_mean_huber(frame(X, columns=LAB[:N]) if labels else X, **kw)
    got = labelled(h, got, N, labels)
    if clipped:
        spread(h, X, got)
    else:
        h.check("nothing clipped: the plain mean", h.eq(got[0], mean))


def huber_equal(h, T):
    M = h.mod("moments")
    c, d = h.reals("c", 2, -1, 1)
    X = np.array([[c, d]] * T)
    h.check("constant data: that constant", h.eq(vals(M.robust_mean_huber(X)), np.array([c, d])))


def huber_weights(h, T):
    """One step from the median weights each observation by min(1, tau/|x - median|)."""
    M = h.mod("moments")
    x = list(h.reals("x", T, -1, 1))
    for u, v in zip(x, x[1:]):
        h.assume(v - u > 0.01)
    got = vals(M.robust_mean_huber(np.array(x).reshape(-1, 1), max_iter=1))[0]
    med = x[1]
    mad = (sym.smin if h.symbolic else min)(x[1] - x[0], x[2] - x[1])
    tau = (h.const(1.4826) * mad + h.const(1e-12)) * h.const(math.sqrt(T / 2.0))
    c = [(ite(abs(v - med) <= tau, v - med, ite(v > med, tau, -tau)) if h.symbolic else max(-tau, min(tau, v - med))) for v in x]
    w = [1 if i == 1 else (ite(abs(v - med) <= tau, 1, tau / abs(v - med)) if h.symbolic else min(1.0, tau / abs(v - med))) for i, v in enumerate(x)]
    h.check("one step moves by the clipped residuals", h.eq((got - med) * tot(w), tot(c)))


def mom(h, T, blocks, labels, seed="int"):
    M = h.mod("moments")
    N = 2 if T <= 3 else 1
    X = h.reals("x", (T, N), -1, 1)
    h.rng(lambda s=None: Rng(h))
    kw = dict(n_blocks=blocks) if blocks != "default" else {}
    if seed == "int":
        kw["random_state"] = 3
    if seed == "generator":
        if h.symbolic:
            raise sym.Unsupported("generator objects")
        kw["random_state"] = np.random.Generator(np.random.PCG64(1))
    got = labelled(h, M.robust_mean_median_of_means(frame(X, columns=LAB[:N]) if labels else X, **kw), N, labels)
    spread(h, X, got)
    B_ = math.isqrt(T - 1) + 1 if blocks in ("default", "auto") else min(int(blocks), T)
    if B_ == 1:
        for j in range(N):
            h.check("a single block: the plain mean", h.eq(got[j] * T, tot(X[:, j])))
    if B_ == T == 3:
        for j in range(N):
            u, v, w = X[:, j]
            mid = lambda a, b, c: h.all(h.eq(got[j], a), h.any(h.all(h.le(b, a), h.le(a, c)), h.all(h.le(c, a), h.le(a, b))))
            h.check("one observation per block: the median", h.any(mid(u, v, w), mid(v, u, w), mid(w, u, v)))


def mom_every(h, T, blocks):
    """Every observation counts: with two blocks, raising any one raises the estimate."""
    M = h.mod("moments")
    h.rng(lambda s=None: Rng(h))
    t = h.real("t", 0.1, 1)
    for j in range(T):
        x = np.array([[t if i == j else 0 * t] for i in range(T)])
        got = vals(M.robust_mean_median_of_means(x, n_blocks=blocks))[0]
        h.check("blocks cover every observation", h.ge(got * T, t * Fraction(1, 2) if h.symbolic else t * 0.5))
        h.check("blocks are of near equal size", h.le(got * (T // blocks) * blocks, t))


def mom_refuse(h):
    M = h.mod("moments")
    X = h.reals("x", (3, 2), -1, 1)
    h.check("block counts must be positive", all(raises(lambda: M.robust_mean_median_of_means(X, n_blocks=b), ValueError) is not None for b in (0, -1)))
    h.check("data must be a table", all(raises(lambda: f(X[:, 0]), ValueError) is not None for f in (M.robust_mean_median_of_means, M.robust_mean_huber)))


def dispatch(h, est, weighted, labels):
    """estimate_moments feeds the estimator the sample moments and the sample size."""
    M = h.mod("moments")
    T, N = 4, 3
    X = h.reals("x", (T, N), -1, 1)
    p = probs(h, T) if weighted else None
    R = frame(X, columns=LAB) if labels else X
    w = p if weighted else [Fraction(1, T) if h.symbolic else 1.0 / T] * T
    m = [tot(a * b for a, b in zip(w, X[:, j])) for j in range(N)]
    cov = [[tot(a * (x - m[i]) * (y - m[j]) for a, x, y in zip(w, X[:, i], X[:, j])) for j in range(N)] for i in range(N)]
    calls = []
    name = {"jorion": "shrink_mean_jorion", "bayes_stein": "shrink_mean_jorion", "james_stein": "shrink_mean_james_stein", "JS": "shrink_mean_james_stein"}[est]
    real = getattr(M, name)

    def spy(mu, S_, T=None, **k):
        calls.append((mu, S_, T, k))
        return mu
    kw = dict(target=h.reals("t", N, -1, 1)) if "J" in name or "james" in name else {}
    setattr(M, name, spy)
    try:
        M.estimate_moments(R, p, mean_estimator=est, mean_kwargs=kw)
    finally:
        setattr(M, name, real)
    if len(calls) != 1:
        raise sym.Unsupported("another way to the estimator")
    mu, S_, n, k = calls[0]
    h.check("the estimator gets the sample mean", h.eq(vals(mu), arr(h, m)))
    h.check("the estimator gets the sample covariance", h.eq(vals(S_), arr(h, cov)))
    h.check("the estimator gets the sample size and options", n == T and set(k) == set(kw) and (not kw or h.eq(vals(k["target"]), kw["target"])) is not False)
    if labels:
        h.check("the estimator gets the labels", list(mu.index) == LAB and list(S_.columns) == LAB)


def through(h, est, N, weighted):
    """estimate_moments returns what the estimator returns on the same data."""
    M = h.mod("moments")
    T = 3
    X = h.reals("x", (T, N), -1, 1)
    h.rng(lambda s=None: Rng(h, script=lambda k, i: 0))
    if h.symbolic:
        c = list(X[:, 0])
        for u, v in zip(c, c[1:]):
            h.assume(u <= v)
    p = probs(h, T) if weighted else None
    kw = dict(max_iter=1) if "huber" in est else dict(n_blocks=1)
    mu, cov = M.estimate_moments(frame(X, columns=LAB[:N]), p, mean_estimator=est, mean_kwargs=kw)
    want = M.robust_mean_huber(X, max_iter=1) if "huber" in est else M.robust_mean_median_of_means(X, n_blocks=1)
    h.check("the dispatched estimate is the estimator's", h.eq(labelled(h, mu, N, True), vals(want)))


def cases(tier):
    th = tier == "thorough"
    cs, J = [], 100
    for lb in (False, True):
        cs.append(Case(f"jorion {lb}", jorion, dict(N=3, labels=lb), "N=3, T=1..1000", jitter=J))
    for T in (2, 24, 250):
        cs.append(Case(f"jorion daily scale T={T}", jorion, dict(N=3, labels=False, fixed=1024, T=T), "N=3", jitter=J))
    cs.append(Case("jorion short minimum-variance portfolio", jorion, dict(N=3, labels=False, fixed="hedge", T=24), "N=3", jitter=J))
    cs.append(Case("jorion fewer observations than assets", jorion, dict(N=4, labels=False, T=3), "N=4", jitter=J))
    cs.append(Case("jorion unsymmetric", jorion, dict(N=3, labels=False, skew=True), "N=3", jitter=J))
    cs.append(Case("jorion one observation", jorion, dict(N=3, labels=False, T=1), "N=3", jitter=J))
    if th:
        cs.append(Case("jorion four", jorion, dict(N=4, labels=False), "N=4", jitter=J))
    cs.append(Case("jorion equal means", jorion_equal, dict(N=3), "N=3", jitter=J))
    for N in (1, 2, 3) + ((4,) if th else ()):
        for t in ("grand", "named", "same", "array", "list", "shuffled", "series", "column"):
            if N < 3 and t not in ("grand", "array"):
                continue
            cs.append(Case(f"james-stein {t} N={N}", james, dict(N=N, labels=t not in ("list", "named") and N < 4, target=t), f"N={N}, T=1..1000", jitter=J))
    cs.append(Case("james-stein unsymmetric", james, dict(N=3, labels=False, target="array", skew=True), "N=3", jitter=J))
    cs.append(Case("refusals", refusals, {}, "N=3"))
    for T in (1, 2, 3):
        for st in (1, 2, 3):
            if T == 3 and st > 1 and not th:
                continue
            if T == 3 and st > 1:
                for c, w in ((0, 1),):
                    cs.append(Case(f"huber range T=3 steps={st} at {c},{w}", huber, dict(T=T, steps=st, clipped=True, at=(c, w)), f"T=3, {st} steps", jitter=J))
                continue
            cs.append(Case(f"huber range T={T} steps={st}", huber, dict(T=T, steps=st, clipped=True, labels=st == 1), f"T={T}, {st} steps", jitter=J))
    cs.append(Case("huber plain T=2", huber, dict(T=2, steps=None, clipped=False), "T=2, 200 steps", jitter=J))
    for c, w in ((0, 1), (0.125, 0.03125)) if th else ((0.25, 0.5),):
        cs.append(Case(f"huber plain T=3 at {c},{w}", huber, dict(T=3, steps=None, clipped=False, at=(c, w)), "T=3, 200 steps", jitter=J))
    cs.append(Case("huber step", huber_weights, dict(T=3), "T=3", jitter=J))
    for T in (1, 2, 3):
        cs.append(Case(f"huber constant T={T}", huber_equal, dict(T=T), f"T={T}", jitter=J))
    for T in (1, 2, 3, 4):
        for b in sorted({1, 2, T, 7}) + ["auto", "default"]:
            if T == 4 and b not in (1, 2, "auto"):
                continue
            cs.append(Case(f"median of means T={T} B={b}", mom, dict(T=T, blocks=b, labels=b != 1, seed="int" if b == 2 else None), f"T={T}", jitter=J))
    for T, b in ((2, 2), (3, 2), (4, 2)) + (((5, 2),) if th else ()):
        cs.append(Case(f"median of means covers T={T}", mom_every, dict(T=T, blocks=b), f"T={T}, B={b}", jitter=J))
    cs.append(Case("block counts", mom_refuse, {}, "T=3"))
    for e in ("jorion", "bayes_stein", "james_stein", "JS"):
        for w in (False, True):
            cs.append(Case(f"dispatch {e}{' weighted' if w else ''}", dispatch, dict(est=e, weighted=w, labels=w), "T=4, N=3", jitter=J))
    for e in ("huber", "robust_huber", "median_of_means", "mom"):
        cs.append(Case(f"through {e}", through, dict(est=e, N=1, weighted=e == "mom"), "T=3, N=1", jitter=J))
    return cs
