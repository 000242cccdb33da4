from checks.common import *

ASSUMPTIONS = ["exp and log are any functions with the properties exp>0, exp(x)>=1+x, strict monotonicity, exp(a+b)=exp(a)exp(b) on the arguments that occur, and 13-digit values at constants"]
TOL = Fraction(1002, 10**8)       # numpy.isclose around one


def resolve(h, T, strict=False, fn="resolve", shape="vec"):
    P = h.mod("probabilities")
    x = h.reals("x", T, -2, 3)
    s = tot(x)
    good = band(*[(e > 0 if strict else e >= 0) for e in x], s > 0)
    xin = x.reshape(-1, 1) if shape == "col" else (pd.Series(x.copy(), index=list("abcd")[:T]) if shape == "series" else (list(x) if shape == "list" else x.copy()))
    box = []
    call = (lambda: box.append(P.resolve_probabilities(xin, T, strictly_positive=strict))) if fn == "resolve" else \
           (lambda: box.append(P.normalize_probability_vector(xin, strictly_positive=strict)))
    e = raises(call, ValueError)
    h.check("exactly the valid vectors are accepted", iff(good, e is None))
    if e is None:
        q = np.ravel(vals(box[0]))
        h.check("one probability per scenario", q.size == T)
        h.check("probabilities are non-negative", h.all(*[h.ge(v, 0) for v in q]))
        h.check("probabilities sum to one", h.all(h.le(tot(q), 1 + TOL), h.ge(tot(q), 1 - TOL)))
        h.check("probabilities are proportional to the input", h.all(*[h.eq(q[i] * s, x[i] * tot(q)) for i in range(T)]))


def resolve_misc(h):
    P = h.mod("probabilities")
    x = h.reals("x", 3, 0.1, 3)
    for n in (1, 2, 4, 6):
        h.check("a wrong length is rejected", raises(lambda: P.resolve_probabilities(x, n), ValueError) is not None)
    for n in (1, 2, 3, 5):
        h.check("no probabilities means equal ones", h.eq(P.resolve_probabilities(None, n), h.const(np.ones(n)) / n))
        h.check("uniform generator", h.eq(P.generate_uniform_probabilities(n), h.const(np.ones(n)) / n))
    for n in (0, -1):
        h.check("no scenarios are rejected", raises(lambda: P.generate_uniform_probabilities(n), ValueError) is not None)
    for bad in ([float("nan"), 0.5, 0.5], [float("inf"), 0.5, 0.5], [], [0.0, 0.0, 0.0], [-1.0, 1.0, 1.0]):
        h.check("non-finite, empty, negative or massless input is rejected", raises(lambda: P.resolve_probabilities(np.array(bad), 3), ValueError) is not None)


def decay(h, T):
    P = h.mod("probabilities")
    hl = h.real("half_life", 0.05, 100)
    p = np.ravel(vals(P.generate_exp_decay_probabilities(T, hl)))
    h.check("one probability per scenario", p.size == T)
    l2 = math.log(2)
    g = [ex(h, -(l2 / hl) * (T - 1 - t)) for t in range(T)]
    h.check("probabilities are positive", h.all(*[h.ge(v, 0) for v in p], band(*[v > 0 for v in p])))
    h.check("probabilities sum to one", h.eq(tot(p), 1))
    h.check("latest scenario is heaviest, weights increase with recency", h.all(*[h.le(p[t], p[t + 1]) for t in range(T - 1)]))
    h.check("weights fall by 2^(-1/half_life) per step", h.all(*[h.eq(p[t] * g[T - 1], p[T - 1] * g[t]) for t in range(T)]))
    if T >= 3:
        h.check("decay is geometric", h.all(*[h.eq(p[t] * p[t + 2], p[t + 1] * p[t + 1]) for t in range(T - 2)]))


def decay_half(h, T, hl):
    P = h.mod("probabilities")
    p = np.ravel(vals(P.generate_exp_decay_probabilities(T, hl)))
    for t in range(T):
        for k in range(1, T):
            n = k * hl
            if n == int(n) and t + int(n) < T:
                d = p[t + int(n)] - p[t] * 2 ** k
                h.check("weights halve per half-life", h.all(h.le(d, 1e-9), h.ge(d, -1e-9)))


def decay_bad(h):
    P = h.mod("probabilities")
    hl = h.real("half_life", -3, 3)
    e = raises(lambda: P.generate_exp_decay_probabilities(3, hl), ValueError)
    h.check("a non-positive half-life is rejected", iff(hl <= 0, e is not None))


def kernel(h, T, explicit=True):
    P = h.mod("probabilities")
    x = h.reals("x", T, -3, 3)
    bw = h.real("bw", 0.1, 3)
    if explicit:
        v = h.reals("v", T, -3, 3)
        target = h.real("target", -3, 3)
        p = P.generate_gaussian_kernel_probabilities(x.copy(), v.copy(), bw, target)
    else:
        v, target = x, x[T - 1]
        p = P.generate_gaussian_kernel_probabilities(x.copy(), h=bw)
    p = np.ravel(vals(p))
    h.check("one probability per scenario", p.size == T)
    h.check("probabilities are positive and sum to one", h.all(h.eq(tot(p), 1), *[h.ge(q, 0) for q in p]))
    d = [(e - target) * (e - target) for e in v]
    g = [ex(h, -(e / (2 * bw * bw))) for e in d]
    h.check("probabilities are the normalised Gaussian kernel", h.all(*[h.eq(p[t] * tot(g), g[t]) for t in range(T)]))
    for i in range(T):
        for j in range(T):
            if i != j:
                h.check("nearer states are at least as heavy", h.implies(d[i] < d[j], h.le(p[j], p[i])))


def kernel_bw(h, T):
    P = h.mod("probabilities")
    x = h.reals("x", T, -3, 3)
    m = tot(x) / T
    var = tot((e - m) * (e - m) for e in x) / (T - 1)
    s = P.silverman_bandwidth(x)
    h.check("bandwidth is 1.06 sigma n^(-1/5)", h.all(h.ge(s, 0), h.eq(s * s, var * (1.06 * T ** (-0.2)) ** 2, tol=1e-6)) if not h.symbolic else
            h.all(h.ge(s, 0), h.le(s * s, var * Fraction((1.06 * T ** (-0.2)) ** 2) * (1 + Fraction(1, 10**9))), h.ge(s * s, var * Fraction((1.06 * T ** (-0.2)) ** 2) * (1 - Fraction(1, 10**9)))))
    box = []
    e = raises(lambda: box.append(P.generate_gaussian_kernel_probabilities(x.copy())), ValueError)
    if e is None:
        h.check("the default bandwidth is Silverman's", h.eq(box[0], P.generate_gaussian_kernel_probabilities(x.copy(), h=s)))
    else:
        h.check("only a degenerate sample has no bandwidth", h.le(s, 0))


def kernel_bad(h):
    P = h.mod("probabilities")
    x = h.reals("x", 2, -1, 1)
    bw = h.real("bw", -1, 1)
    if not h.symbolic:
        h.assume(bor(bw <= 0, bw > 0.2))
    e = raises(lambda: P.generate_gaussian_kernel_probabilities(x, h=bw), ValueError)
    h.check("a non-positive bandwidth is rejected", iff(bw <= 0, e is not None))


def ens(h, T):
    P = h.mod("probabilities")
    p = probs(h, T, positive=False)
    if h.symbolic:
        lT = sym.log(S(T))
        for x in p:
            if x > 0:
                a = sym.log(S.of(x))
                lemma(h, bor(band(x * T == 1, a == -lT), x * (a + lT) > x - Fraction(1, T)))
    out = P.compute_effective_number_scenarios(p)
    h.check("at least one", h.ge(out, 1))
    h.check("at most the number of scenarios", h.le(out, T))
    unif = band(*[x == Fraction(1, T) for x in p]) if h.symbolic else all(abs(x - 1 / T) < 1e-4 for x in p)
    if h.symbolic:
        h.check("reached only by uniform weights", bor(unif, out < T))
    H = -tot(x * lg(h, x) for x in p if x > 0)
    h.check("exponential of the Shannon entropy", h.eq(out, ex(h, H)))


def ens_uniform(h):
    P = h.mod("probabilities")
    for T in (1, 2, 3, 5):
        u = h.const(np.ones(T)) / T
        o = P.compute_effective_number_scenarios(u)
        if h.symbolic:
            H = -tot(x * lg(h, x) for x in u)
            lT, e = sym.log(S(T)), ex(h, H)
            # convexity of exp at the two points, both ways
            lemma(h, band(e >= T * (1 + H - lT), e * (1 + lT - H) <= T))
        h.check("uniform weights count every scenario", h.all(h.le(o, T + Fraction(1, 10**8)), h.ge(o, T - Fraction(1, 10**8))))
        h.check("uniform weights count every scenario (Herfindahl)", h.eq(P.compute_effective_number_scenarios_hhi(u), T))
    one = np.zeros(3)
    one[1] = 1.0
    h.check("a single scenario counts once", h.all(h.eq(P.compute_effective_number_scenarios(one), 1), h.eq(P.compute_effective_number_scenarios_hhi(one), 1)))


def hhi(h, T):
    P = h.mod("probabilities")
    p = probs(h, T, positive=False)
    out = P.compute_effective_number_scenarios_hhi(p)
    s = tot(x * x for x in p)
    # T sum p^2 - 1 is the sum of squared pairwise differences
    lemma(h, T * s - 1 >= 0)
    lemma(h, bor(s <= 1, False))
    h.check("inverse Herfindahl index", h.eq(out * s, 1))
    h.check("between one and the number of scenarios", h.all(h.ge(out, 1), h.le(out, T)))


def cases(tier):
    deep = tier == "thorough"
    cs = []
    for T in (1, 2, 3) + ((4,) if deep else ()):
        cs.append(Case(f"resolve T{T}", resolve, dict(T=T), f"T={T}, every real vector"))
        cs.append(Case(f"resolve strict T{T}", resolve, dict(T=T, strict=True), f"T={T}, every real vector"))
    cs.append(Case("normalize T2", resolve, dict(T=2, fn="norm"), "T=2"))
    cs.append(Case("normalize strict T2", resolve, dict(T=2, fn="norm", strict=True), "T=2"))
    for sh in ("col", "series", "list"):
        cs.append(Case(f"resolve {sh}", resolve, dict(T=2, shape=sh), "T=2"))
    cs.append(Case("resolve misc", resolve_misc, {}, "T=3"))
    for T in (1, 2, 3, 4) + ((5, 6) if deep else ()):
        cs.append(Case(f"decay T{T}", decay, dict(T=T), f"T={T}, every half-life"))
    for hl in (1, 2, 3, 0.5, 1.5):
        cs.append(Case(f"half-life {hl}", decay_half, dict(T=5 if hl != 3 else 7, hl=hl), f"half-life {hl}"))
    cs.append(Case("half-life domain", decay_bad, {}, "every half-life"))
    for T in (1, 2, 3) + ((4,) if deep else ()):
        cs.append(Case(f"kernel T{T}", kernel, dict(T=T), f"T={T}"))
    cs.append(Case("kernel defaults", kernel, dict(T=3, explicit=False), "T=3"))
    cs.append(Case("kernel bandwidth", kernel_bw, dict(T=2), "T=2"))
    cs.append(Case("kernel bandwidth 3", kernel_bw, dict(T=3), "T=3", optional=True))
    cs.append(Case("kernel domain", kernel_bad, {}, "T=2"))
    for T in (1, 2, 3):
        cs.append(Case(f"ens T{T}", ens, dict(T=T), f"T={T}"))
        cs.append(Case(f"hhi T{T}", hhi, dict(T=T), f"T={T}"))
    cs.append(Case("ens uniform", ens_uniform, {}, "T in 1,2,3,5"))
    return cs
