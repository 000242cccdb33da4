"""Shared machinery for the optimiser checks: capture the program, compare it with the documented one."""
import numpy as np

from checks.common import *

TOL = 2e-5


class Sys:
    """Linear constraints handed to an optimiser; None means absent."""

    def __init__(self, G, h, A, b):
        self.G, self.h, self.A, self.b = G, h, A, b

    def args(self):
        return self.G, self.h, self.A, self.b

    def rows(self, w):
        """(lhs, rhs, kind) of every documented rule for the weights."""
        out = []
        if self.G is not None:
            out += [(dot(r, w), c, "le") for r, c in zip(self.G, self.h)]
        if self.A is not None:
            out += [(dot(r, w), c, "eq") for r, c in zip(self.A, self.b)]
        return out


def system(h, N, kind, tag=""):
    one = np.ones((1, N))
    box = np.vstack([-np.eye(N), np.eye(N)])
    if kind == "none":
        return Sys(None, None, None, None)
    if kind == "eq":
        A = np.vstack([one, h.reals(tag + "a", (1, N), -2, 2)]) if N > 1 else one
        b = np.concatenate([h.const(np.ones(1)), h.reals(tag + "b", 1, -1, 1)]) if N > 1 else h.const(np.ones(1))
        return Sys(None, None, h.const(A) if not h.symbolic else np.asarray(A, dtype=object), b)
    if kind == "budget":
        return Sys(None, None, h.const(one), h.const(np.ones(1)))
    up = h.reals(tag + "u", N, 0.3, 1)
    hv = np.concatenate([h.const(np.zeros(N)), up])
    if kind == "box":
        return Sys(h.const(box), hv, h.const(one), h.const(np.ones(1)))
    row = h.reals(tag + "g", (1, N), -2, 2)
    G = np.vstack([h.const(box), row])
    hv = np.concatenate([hv, h.reals(tag + "c", 1, -1, 2)])
    if kind == "ineq":
        return Sys(G, hv, None, None)
    if kind == "rows":
        A = np.vstack([h.const(one), h.reals(tag + "a", (1, N), -2, 2)])
        b = np.concatenate([h.const(np.ones(1)), h.reals(tag + "b", 1, -1, 1)])
        return Sys(G, hv, A, b)
    if kind == "group":          # long-short box with a group limit
        G = np.vstack([h.const(-np.eye(N)), h.const(np.eye(N)), row])
        hv = np.concatenate([h.const(np.ones(N)), h.reals(tag + "v", N, 0.3, 2), h.reals(tag + "c2", 1, -1, 2)])
        return Sys(G, hv, h.const(one), h.const(np.ones(1)))
    raise AssertionError(kind)


def fin(x):
    return not (isinstance(x, float) and math.isinf(x))


def holds(rows):
    return band(*[(l <= r) if k == "le" else (l == r) for l, r, k in rows if fin(r)])


def goal_rows(h, rows):
    return h.all(*[h.le(l, r) if k == "le" else h.eq(l, r) for l, r, k in rows if fin(r)])


def lin_rows(G, hh, A, b, z):
    out = []
    if G is not None:
        hv = np.ravel(vals(hh))
        out += [(dot(vals(G)[i], z), hv[i], "le") for i in range(G.shape[0])]
    if A is not None:
        bv = np.ravel(vals(b))
        out += [(dot(vals(A)[i], z), bv[i], "eq") for i in range(A.shape[0])]
    return out


class Done(Exception):
    pass


class Capture:
    """Records solver calls; each answers with arbitrary numbers (or with scripted ones)."""

    def __init__(self, h, answers=None, status=None, stop=None):
        self.stop = stop                 # raise Done once this many programs were recorded
        self.h, self.calls, self.answers, self.status = h, [], answers or {}, status or {}
        h.stub("qp", lambda **k: self._call("qp", **k))
        h.stub("lp", lambda **k: self._call("lp", **k))
        h.stub("conelp", lambda **k: self._call("conelp", **k))

    def _call(self, kind, **k):
        i = len(self.calls)
        lin = k["q"] if kind == "qp" else k["c"]
        n = lin.size
        x = self.answers.get(i)
        if x is None:
            x = np.array([sym.fresh(f"x{i}_{j}") for j in range(n)], dtype=object)
        else:
            x = np.asarray(list(x) + [sym.fresh(f"x{i}_{j}") for j in range(len(x), n)], dtype=object)
        c = Call(kind, k, n, x)
        self.calls.append(c)
        if len(self.calls) == self.stop:
            raise Done
        st = self.status.get(i, "optimal")
        return {"status": st, "x": x.reshape(-1, 1), "primal objective": c.objective(x), "dual objective": c.objective(x), "gap": S(0), "iterations": 1}


class Call:
    def __init__(self, kind, k, n, x):
        self.kind, self.k, self.n, self.x = kind, k, n, x

    def objective(self, z):
        if self.kind == "qp":
            P, q = vals(self.k["P"]), np.ravel(vals(self.k["q"]))
            return dot(q, z) + quad(z, P) / 2
        return dot(np.ravel(vals(self.k["c"])), z)

    def rows(self, z):
        """Linear rows (for cone programs: the 'l' block) and equalities."""
        G, hh = self.k["G"], self.k["h"]
        if self.kind == "conelp":
            m = int(self.k["dims"]["l"])
            G, hh = vals(G)[:m], np.ravel(vals(hh))[:m]
        return lin_rows(G, hh, self.k["A"], self.k["b"], z)

    def cones(self, z):
        """[(head, [tail...])] of every second-order cone."""
        d = self.k["dims"]
        if d.get("s"):
            raise sym.Unsupported("semidefinite block")
        G, hh = vals(self.k["G"]), np.ravel(vals(self.k["h"]))
        m, out = int(d["l"]), []
        for q in d["q"]:
            s = [hh[r] - dot(G[r], z) for r in range(m, m + int(q))]
            out.append((s[0], s[1:]))
            m += int(q)
        return out


def fresh_vec(h, name, n):
    a = np.empty(n, dtype=object)
    for i in range(n):
        a[i] = h.real(f"{name}{i}")
    return a


def same_feasible(h, label, call, doc_rows, z, nw=None):
    """call's rows over z hold exactly when the documented rows hold."""
    crow = call.rows(z)
    h.check(label + ": every stated rule is enforced", h.implies(holds(crow), goal_rows(h, doc_rows)))
    h.check(label + ": nothing else is enforced", h.implies(holds(doc_rows), goal_rows(h, crow)))


def same_objective(h, label, call, doc, n, z, scales=(1, Fraction(1, 2), 2)):
    """The objective equals the documented one up to a positive factor and a constant."""
    zero = np.array([S(0)] * n, dtype=object)
    a = call.objective(z) - call.objective(zero)
    d = doc(z) - doc(zero)
    h.check(label, h.any(*[h.eq(a, s * d) for s in scales]))


def pd_shift(c, floor=0.05):
    """Replay only: the counterexample's matrix, moved into the positive definite ones if need be."""
    ev = np.linalg.eigvalsh(c).min()
    return c if ev > 1e-3 else c + (floor - ev) * np.eye(len(c))


def factor(h, a, S_, L):
    """Contract of the Cholesky routine: the known factor for S_, an arbitrary factor of anything else."""
    a = vals(a)
    if all(sym._iszero((S.of(x) - y).t) for x, y in zip(np.ravel(a), np.ravel(vals(S_)))):
        return L
    n = len(a)
    M = np.array([[S(0)] * n for _ in range(n)], dtype=object)
    for i in range(n):
        for j in range(i + 1):
            M[i, j] = sym.fresh("chol")
        h.assume(M[i, i] > 0)
    P = M @ M.T
    h.assume(*[P[i, j] == a[i, j] for i in range(n) for j in range(i + 1)])
    return M


# ---------------------------------------------------------------- replay: competition on the real solver
def cvx(P, q, G, hh, A, b, lp=False):
    """Documented linear/quadratic program solved from scratch; None when it has no optimum."""
    from cvxopt import matrix, solvers
    m = lambda x: None if x is None else matrix(np.asarray(x, dtype=float))
    opts = {"show_progress": False, "glpk": {"msg_lev": "GLP_MSG_OFF"}}
    try:
        if lp:
            s = solvers.lp(m(q), m(G), m(hh), m(A), m(b), solver="glpk")
        else:
            s = solvers.qp(m(P), m(q), m(G), m(hh), m(A), m(b), options=opts)
    except (ValueError, ArithmeticError, TypeError):
        return None
    if s["status"] != "optimal":
        return None
    return np.asarray(s["x"]).ravel()


def infeasible(rows_of, N, margin=1e-3):
    """No point comes within `margin` of the rules (phase-one linear program)."""
    from scipy.optimize import linprog
    base = rows_of(np.zeros(N))
    cols = [rows_of(e) for e in np.eye(N)]
    A, b = [], []
    for i, (l0, r, k) in enumerate(base):
        g = np.array([c[i][0] - l0 for c in cols], dtype=float)
        A.append(np.append(g, -1.0))
        b.append(float(r - l0))
        if k == "eq":
            A.append(np.append(-g, -1.0))
            b.append(float(l0 - r))
    if not A:
        return False
    res = linprog(np.append(np.zeros(N), 1.0), A_ub=np.array(A), b_ub=np.array(b), bounds=[(None, None)] * N + [(0, None)])
    return res.status == 0 and res.fun > margin


def refused(h, run, rows_of, N):
    """Replay: no optimum exists; an infeasible program must not yield a portfolio."""
    if infeasible(rows_of, N):
        h.check("an infeasible program yields no portfolio", raises(run, (RuntimeError, ValueError, ArithmeticError)) is not None)
    h.assume(False)


def near_feasible(rows, tol=TOL):
    return all((l <= r + tol * (1 + abs(r))) if k == "le" else abs(l - r) <= tol * (1 + abs(r)) for l, r, k in rows)
