import types

from checks.opt import *

ASSUMPTIONS = ["the numerical search for multipliers is third-party code: it is replaced by an arbitrary answer within the bounds it was given, or by an arbitrary stationary point of the objective it was given",
               "the total-probability condition is among the equality conditions, as every caller in the package passes it",
               "exponents stay within the clip at +-700", "logarithm and exponential obey their algebraic identities"]
INF = float("inf")


class Search:
    """Stands in for scipy.optimize.minimize."""

    def __init__(self, h, success=True):
        self.h, self.success, self.calls = h, success, []
        h.intercept("minimize", self._call)

    def _call(self, fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, **k):
        if not isinstance(args, tuple):
            args = (args,)
        n = len(vals(x0))
        self.calls.append(types.SimpleNamespace(fun=lambda x: fun(x, *args), jac=jac, x0=np.ravel(vals(x0)), bounds=limits(bounds, n), method=method, n=n, dead=lambda x: jac(x, *args)))
        x = self.h.reals("lam", n, -20, 20)
        self.h.assume(*[x[i] >= lo for i, (lo, hi) in enumerate(self.calls[-1].bounds) if lo > -INF], *[x[i] <= hi for i, (lo, hi) in enumerate(self.calls[-1].bounds) if hi < INF])
        self.x = x
        return types.SimpleNamespace(x=x, success=self.success, status=0 if self.success else 3, message="stand-in", fun=0.0, nit=1)


def limits(b, n):
    if b is None:
        return [(-INF, INF)] * n
    if hasattr(b, "lb"):
        return list(zip([float(v) for v in np.broadcast_to(np.ravel(vals(b.lb)), n)], [float(v) for v in np.broadcast_to(np.ravel(vals(b.ub)), n)]))
    return [(-INF if lo is None else float(lo), INF if hi is None else float(hi)) for lo, hi in b]


def value_and_gradient(c, x):
    if c.jac is True:
        f, g = c.fun(x)
        return f, np.ravel(vals(g))
    if callable(c.jac):
        return c.fun(x), np.ravel(vals(c.dead(x)))
    raise sym.Unsupported("no gradient is given")


def problem(h, T, ke, ki, total=True, fixed=False):
    """Prior, equality and inequality conditions; the last equality is the total probability."""
    p = probs(h, T, name="p")
    for x in p:
        h.assume(x >= 0.05)
        lemma(h, lg(h, x) >= -3)
        lemma(h, lg(h, x) <= 0)
    grid = np.array([[1, -.5, .25, 2], [-.75, 1.5, .5, -1], [.25, 1, -2, .5]])
    A = h.const(grid[:ke, :T]) if fixed else h.reals("A", (ke, T), -2, 2)
    b = h.reals("b", ke, -2, 2)
    if total:
        A = np.vstack([A, h.const(np.ones((1, T)))]) if ke else h.const(np.ones((1, T)))
        b = np.concatenate([b, h.const(np.ones(1))]) if ke else h.const(np.ones(1))
    G = hh = None
    if ki:
        G = h.const(-grid[::-1][:ki, :T]) if fixed else h.reals("G", (ki, T), -2, 2)
        hh = h.reals("h", ki, -2, 2)
    return p, A, b, G, hh


def tilt(h, p, M, x):
    """Exponential tilt of the prior, and the exponents."""
    e = [lg(h, p[j]) - 1 - tot(M[k, j] * x[k] for k in range(M.shape[0])) for j in range(len(p))]
    return [ex(h, v) for v in e], e


def stack(A, b, G, hh):
    return (A, b) if G is None else (np.vstack([A, G]), np.concatenate([b, hh]))


SHAPES = ("flat", "column", "list")


def give(p, b, hh, shape):
    f = {"flat": lambda v: v, "column": lambda v: v.reshape(-1, 1), "list": lambda v: v}[shape]
    return f(p), (b.tolist() if shape == "list" else f(b)), (None if hh is None else f(hh))


def dual(h, T, ke, ki, shape="flat", method=None, full=True):
    """The objective handed to the search is the Lagrange dual, the gradient its gradient, the bounds the sign conditions."""
    V = h.mod("views")
    p, A, b, G, hh = problem(h, T, ke, ki)
    s = Search(h)
    P, B_, H = give(p, b, hh, shape)
    kw = {} if method is None else dict(method=method)
    V.entropy_pooling(P, A, B_, *(() if G is None else (G, H)), **kw)
    if len(s.calls) != 1:
        raise sym.Unsupported("another search")
    c = s.calls[0]
    h.check("the search method is the one asked for", str(c.method).upper() == (method or "TNC"))
    M, r = stack(A, b, G, hh)
    if c.n != len(r):
        raise sym.Unsupported("another dual program")
    for i, (lo, hi) in enumerate(c.bounds):
        h.check("multipliers of one-sided conditions keep their sign, others are free", (lo, hi) == ((-INF if i < len(A) else 0.0), INF))
    h.check("the search starts within its bounds", h.all(*[h.ge(c.x0[i], 0) for i in range(len(A), c.n)]) if G is not None else True)
    if not full:
        return
    x = h.reals("at", c.n, -20, 20)
    w, _ = tilt(h, p, M, x)
    f, g = value_and_gradient(c, x)
    want = tot(w) + dot(r, x)
    grad = [r[k] - tot(M[k, j] * w[j] for j in range(T)) for k in range(c.n)]
    h.check("objective and gradient are the dual's", h.any(*[h.all(h.eq(f, q * want), *[h.eq(g[k], q * grad[k]) for k in range(c.n)]) for q in (1000, 1)]))
    # the function itself, if it is there
    D = getattr(V, "_entropy_pooling_dual_objective", None)
    if D is not None:
        lp = arr(h, [[lg(h, v)] for v in p])
        f, g = D(x, lp, M, r)
        g = np.ravel(vals(g))
        h.check("dual objective", h.eq(f, 1000 * want))
        h.check("dual gradient", h.all(*[h.eq(g[k], 1000 * grad[k]) for k in range(c.n)]))


def answer(h, T, ke, ki, shape="flat", total=True):
    """Whatever the multipliers, the answer is the normalised tilt of the prior."""
    V = h.mod("views")
    p, A, b, G, hh = problem(h, T, ke, ki, total)
    s = Search(h)
    P, B_, H = give(p, b, hh, shape)
    q = V.entropy_pooling(P, A, B_, *(() if G is None else (G, H)))
    if len(s.calls) != 1:
        raise sym.Unsupported("another search")
    h.check("one probability per scenario, as a column", q.shape == (T, 1))
    q = np.ravel(q)
    M, r = stack(A, b, G, hh)
    w, _ = tilt(h, p, M, s.x)
    W = tot(w)
    h.check("the probabilities are positive and sum to one", h.all(h.eq(tot(q), 1), *[h.ge(v, 0) for v in q]))
    for j in range(T):
        h.check("the posterior is the normalised exponential tilt of the prior", h.eq(q[j] * W, w[j]))


def stationary(h, T, ke, ki):
    """At a stationary point of the given objective the conditions hold and no distribution meeting them is closer to the prior."""
    V = h.mod("views")
    p, A, b, G, hh = problem(h, T, ke, ki, fixed=T > 2)
    if not h.symbolic:
        return converged(h, V, p, A, b, G, hh)
    s = Search(h)
    q = np.ravel(V.entropy_pooling(p, A, b, *(() if G is None else (G, hh))))
    c = s.calls[0]
    _, g = value_and_gradient(c, s.x)
    for i, (lo, hi) in enumerate(c.bounds):       # first-order conditions under the bounds given
        if lo == -INF:
            h.assume(g[i] == 0)
        else:
            h.assume(g[i] >= 0, implies(s.x[i] > lo, g[i] == 0))
    # the total-probability row makes the tilt a distribution
    M, r = stack(A, b, G, hh)
    w, e = tilt(h, p, M, s.x)
    h.check("a stationary point sums to one", h.eq(tot(w), 1))
    h.assume(tot(w) == 1)                          # just proved
    for j in range(T):
        h.check("the posterior is the stationary tilt", h.eq(q[j], w[j]))
        h.assume(q[j] == w[j])
    for k in range(len(A)):
        h.check("equality conditions hold", h.eq(dot(A[k], q), b[k]))
    for k in range(0 if G is None else len(G)):
        h.check("inequality conditions hold", h.le(dot(G[k], q), hh[k]))
        h.check("a multiplier acts only on a binding condition", h.eq(s.x[len(A) + k] * (dot(G[k], q) - hh[k]), 0))


def converged(h, V, p, A, b, G, hh, tol=2e-3):
    """Replay: the real search on the same problem; only answers it claims as converged count."""
    try:
        q = np.ravel(V.entropy_pooling(p, A, b, *(() if G is None else (G, hh))))
    except RuntimeError:
        return
    from scipy.optimize import linprog
    res = linprog(np.zeros(len(p)), A_ub=G, b_ub=hh, A_eq=A, b_eq=b, bounds=(1e-3, None))
    if res.status != 0:
        return
    h.check("equality conditions hold", h.all(*[h.eq(dot(A[k], q), b[k], tol=tol) for k in range(len(A))]))
    if G is not None:
        h.check("inequality conditions hold", h.all(*[h.le(dot(G[k], q), hh[k] + tol) for k in range(len(G))]))
    z = res.x
    h.check("no distribution meeting the conditions is closer", h.ge(float(np.sum(z * np.log(z / p))) + tol, float(np.sum(q * np.log(q / p)))))


def optimal(h, T, ke, ki):
    """Relative entropy of the answer against any distribution meeting the conditions (Gibbs' inequality is the lemma)."""
    V = h.mod("views")
    p, A, b, G, hh = problem(h, T, ke, ki, fixed=T > 2)
    if not h.symbolic:
        return converged(h, V, p, A, b, G, hh)
    s = Search(h)
    q = np.ravel(V.entropy_pooling(p, A, b, *(() if G is None else (G, hh))))
    c = s.calls[0]
    M, r = stack(A, b, G, hh)
    w, e = tilt(h, p, M, s.x)
    for i, (lo, hi) in enumerate(c.bounds):
        if lo > -INF:
            h.assume(s.x[i] >= lo)
    h.assume(tot(w) == 1, *[q[j] == w[j] for j in range(T)], *[dot(A[k], w) == b[k] for k in range(len(A))])
    for k in range(0 if G is None else len(G)):
        h.assume(s.x[len(A) + k] * (dot(G[k], w) - hh[k]) == 0, dot(G[k], w) <= hh[k])
    z = probs(h, T, name="z")
    h.assume(*[dot(A[k], z) == b[k] for k in range(len(A) - 1)])
    lz = h.reals("logz", T)
    for j in range(T):                              # z log(z/w) >= z - w
        lemma(h, z[j] * (lz[j] - e[j]) >= z[j] - w[j])
    for k in range(0 if G is None else len(G)):
        h.assume(dot(G[k], z) <= hh[k])
        lemma(h, s.x[len(A) + k] * (hh[k] - dot(G[k], z)) >= 0)
    gap = tot(z[j] * (lz[j] - e[j]) for j in range(T))
    h.check("Gibbs", h.ge(gap, 0))
    # KL(z|p) - KL(q|p) = KL(z|q) - lam.(M z - M q): the two identities, then the sign
    left = tot(z[j] * (lz[j] - lg(h, p[j])) for j in range(T)) - tot(w[j] * (e[j] - lg(h, p[j])) for j in range(T))
    right = gap - tot(s.x[k] * (dot(M[k], z) - dot(M[k], w)) for k in range(len(M))) - (tot(z) - tot(w))
    h.check("difference of relative entropies", h.eq(left, right))


def no_views(h, T, shape):
    """With the total-probability condition alone the posterior is the prior."""
    V = h.mod("views")
    p = probs(h, T, name="p")
    for x in p:
        h.assume(x >= 0.05)
        lemma(h, lg(h, x) >= -3)
        lemma(h, lg(h, x) <= 0)
    s = Search(h)
    P, b, _ = give(p, h.const(np.ones(1)), None, shape)
    A = h.const(np.ones((1, T)))
    q = np.ravel(V.entropy_pooling(P, A, b))
    if h.symbolic:                                  # exp(a + b) = exp(a) exp(b)
        for j in range(T):
            lemma(h, ex(h, lg(h, p[j]) - 1 - s.x[0]) == p[j] * ex(h, -1 - s.x[0]))
    h.check("without views the posterior is the prior", h.eq(q, p))
    G, hh = h.reals("G", (1, T), -2, 2), h.reals("h", 1, -2, 2)
    for a in ((A, b, G, None), (A, b, None, hh), (A, b, None, None, "L-BFGS-B")):
        q = np.ravel(V.entropy_pooling(P, *a))
        h.check("without views the posterior is the prior", h.eq(q, p))


def failures(h, T, ki):
    V = h.mod("views")
    p, A, b, G, hh = problem(h, T, 1, ki)
    Search(h, success=False)
    a = () if G is None else (G, hh)
    h.check("a failed search is an error", raises(lambda: V.entropy_pooling(p, A, b, *a), RuntimeError) is not None)
    Search(h)
    for m in ("SLSQP", "BFGS", "tnc2", "x"):
        h.check("an unsupported method is refused", raises(lambda: V.entropy_pooling(p, A, b, *a, method=m), ValueError) is not None)
    for j in range(T):
        for v in (0 * p[j], -p[j], float("nan"), float("inf")):
            bad = np.array(list(p), dtype=object if h.symbolic else float)
            bad[j] = v
            h.check("a prior that is not a positive distribution is refused", raises(lambda: V.entropy_pooling(bad, A, b, *a), ValueError) is not None)


def views_end_to_end(h, seq):
    """Through the view processor: the pooled answer is the posterior; no views leave the prior."""
    V = h.mod("views")
    T, N = 3, 2
    R = h.const(np.array([[.5, -.25], [-.375, .125], [.25, .75]]))
    p = probs(h, T, name="p")
    for x in p:
        h.assume(x >= 0.05)
        lemma(h, lg(h, x) >= -3)
        lemma(h, lg(h, x) <= 0)
    t = h.real("t", -0.3, 0.4)
    s = Search(h)
    F = V.FlexibleViewsProcessor(prior_risk_drivers=frame(R, columns=["a", "b"]), prior_probabilities=p, mean_views={"a": (">=", t)}, sequential=seq)
    if len(s.calls) != 1:
        raise sym.Unsupported("another search")
    q = np.ravel(vals(F.get_posterior_probabilities()))
    if s.calls[0].n != 2:
        raise sym.Unsupported("another dual program")
    w = [ex(h, lg(h, p[j]) - 1 - s.x[0] + R[j, 0] * s.x[1]) for j in range(T)]
    W = tot(w)
    for j in range(T):
        h.check("a one-sided view tilts towards its side", h.eq(q[j] * W, w[j]))


def cases(tier):
    th = tier == "thorough"
    cs = []
    sizes = [(2, 0, 0), (2, 1, 0), (3, 1, 0), (2, 0, 1), (3, 0, 1), (2, 1, 1), (3, 0, 2)] + [(3, 2, 0), (3, 1, 1), (3, 2, 1), (3, 1, 2)] + ([(4, 1, 1), (4, 2, 2), (4, 3, 1)] if th else [])
    J = 100
    for T, ke, ki in sizes:
        n = f"T={T} eq={ke + 1} ineq={ki}"
        cs.append(Case(("dual " if ke + ki < 3 else "signs ") + n, dual, dict(T=T, ke=ke, ki=ki, full=ke + ki < 3), n, jitter=J))
        cs.append(Case("answer " + n, answer, dict(T=T, ke=ke, ki=ki), n, jitter=J))
        cs.append(Case("stationary " + n, stationary, dict(T=T, ke=ke, ki=ki), n, jitter=J))
        cs.append(Case("optimal " + n, optimal, dict(T=T, ke=ke, ki=ki), n, jitter=J))
    for T, ke, ki in ((4, 3, 2), (3, 2, 4), (2, 4, 1)):
        cs.append(Case(f"signs T={T} eq={ke + 1} ineq={ki}", dual, dict(T=T, ke=ke, ki=ki, full=False), f"T={T}", jitter=J))
    for sh in SHAPES[1:]:
        for T, ke, ki in ((2, 1, 1), (2, 0, 1)):
            cs.append(Case(f"dual {sh} {ki} T={T} eq={ke + 1}", dual, dict(T=T, ke=ke, ki=ki, shape=sh), f"T={T}", jitter=J))
            cs.append(Case(f"answer {sh} {ki} T={T} eq={ke + 1}", answer, dict(T=T, ke=ke, ki=ki, shape=sh), f"T={T}", jitter=J))
    for m in ("TNC", "L-BFGS-B"):
        cs.append(Case("dual " + m, dual, dict(T=2, ke=1, ki=1, method=m), "T=2", jitter=J))
    cs.append(Case("answer without the total row", answer, dict(T=3, ke=1, ki=1, total=False), "T=3", jitter=J))
    for T in (1, 2, 3):
        for sh in SHAPES:
            cs.append(Case(f"no views T={T} {sh}", no_views, dict(T=T, shape=sh), f"T={T}", jitter=J))
    for ki in (0, 1):
        cs.append(Case(f"failures ineq={ki}", failures, dict(T=2, ki=ki), "T=2"))
    for seq in (False, True):
        cs.append(Case("view processor" + (" sequential" if seq else ""), views_end_to_end, dict(seq=seq), "T=3, N=2", jitter=J))
    return cs
