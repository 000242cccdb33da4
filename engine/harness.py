"""Harness API shared by symbolic exploration and concrete replay."""
import importlib
import math
import random
import sys
import time
import traceback
from dataclasses import dataclass, field
from fractions import Fraction

import numpy as np

from . import sym
from .sym import S, B, band, bor, bnot, ite, C

z3 = sym.z3


# ------------------------------------------------------------------ goals
class Goal:
    """A claim with a margin-aware negation."""

    def __init__(self, kind, *args, tol=None):
        self.kind, self.args, self.tol = kind, args, tol


def _arr(x):
    if hasattr(x, "to_numpy"):
        x = x.to_numpy()
    if isinstance(x, (list, tuple)):
        try:
            x = np.array(x, dtype=object)
        except ValueError:
            pass
    return x


def _pairs(a, b):
    a, b = _arr(a), _arr(b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if a.ndim and b.ndim and a.shape != b.shape and a.squeeze().shape != b.squeeze().shape:
            return None
        if a.ndim and b.ndim:
            a, b = a.squeeze(), b.squeeze()
        a, b = np.broadcast_arrays(a, b)
        return list(zip(a.reshape(-1).tolist(), b.reshape(-1).tolist()))
    return [(a, b)]


class H:
    """Common interface. Subclasses: SymH (explores) and RealH (replays)."""
    tol = 1e-6

    def eq(self, a, b, tol=None):
        p = _pairs(a, b)
        if p is None:
            return Goal("bool", False)
        if len(p) == 1:
            return Goal("eq", *p[0], tol=tol)
        return Goal("and", *[Goal("eq", x, y, tol=tol) for x, y in p])

    def le(self, a, b, tol=None):
        p = _pairs(a, b)
        if p is None:
            return Goal("bool", False)
        return Goal("and", *[Goal("le", x, y, tol=tol) for x, y in p]) if len(p) != 1 else Goal("le", *p[0], tol=tol)

    def ge(self, a, b, tol=None):
        return self.le(b, a, tol)

    def all(self, *gs):
        return Goal("and", *_flatten(gs))

    def any(self, *gs):
        return Goal("or", *_flatten(gs))

    def implies(self, p, q):
        """p is a plain condition, q a goal."""
        return Goal("imp", p, q)

    def not_(self, c):
        return bnot(c)

    # plain (tolerance free) conditions usable in assumptions
    def AND(self, *c):
        return band(*c)

    def OR(self, *c):
        return bor(*c)


def _flatten(gs):
    out = []
    for g in gs:
        if isinstance(g, (list, tuple)):
            out.extend(_flatten(g))
        else:
            out.append(g)
    return out


# ------------------------------------------------------------------ symbolic
def _zb(x):
    return sym._bt(x)


def _spec_cmp(kind, a, b):
    """eq/le with non-finite floats involved, decided concretely."""
    fa = float(a) if sym._special(a) else None
    fb = float(b) if sym._special(b) else None
    if kind == "eq":
        if fa is not None and fb is not None:
            return fa == fb or (math.isnan(fa) and math.isnan(fb))
        return False
    if fa is not None and fb is not None:
        return fa <= fb
    if fa is not None:
        return fa == -math.inf
    return fb == math.inf


def goal_neg(g, m):
    """z3 formula: the goal is violated by more than margin m (m=0: exactly)."""
    if not isinstance(g, Goal):
        return z3.Not(_zb(g))
    k, a = g.kind, g.args
    if k == "bool":
        return z3.Not(_zb(a[0]))
    if k in ("eq", "le"):
        x, y = a
        if x is None or y is None or isinstance(x, str) or isinstance(y, str):
            return z3.BoolVal(not (x == y))
        if sym._special(x) or sym._special(y):
            return z3.BoolVal(not _spec_cmp(k, x, y))
        x, y = S.of(x), S.of(y)
        if x is None or y is None:
            return z3.BoolVal(True)
        if k == "eq":
            if m == 0:
                if x.c is not None and y.c is not None:
                    return z3.BoolVal(x.c != y.c)
                return x.t != y.t
            d = x.t - y.t
            mm = z3.RealVal(str(Fraction(m)))
            return z3.Or(d > mm, d < -mm)
        if m == 0:
            return x.t > y.t
        return x.t > y.t + z3.RealVal(str(Fraction(m)))
    if k == "and":
        return z3.Or(*[goal_neg(x, m) for x in a]) if a else z3.BoolVal(False)
    if k == "or":
        return z3.And(*[goal_neg(x, m) for x in a]) if a else z3.BoolVal(True)
    if k == "imp":
        return z3.And(_zb(a[0]), goal_neg(a[1], m))
    raise AssertionError(k)


def goal_parts(g):
    """Split a conjunctive goal so that each part is a smaller query."""
    if isinstance(g, Goal) and g.kind == "and":
        out = []
        for x in g.args:
            out.extend(goal_parts(x))
        return out
    if isinstance(g, Goal) and g.kind == "imp":
        return [Goal("imp", g.args[0], x) for x in goal_parts(g.args[1])]
    return [g]


class ViolationFound(sym.PathAbort):
    def __init__(self, label, inputs_list, detail=""):
        self.label, self.inputs_list, self.detail = label, inputs_list, detail


class SymH(H):
    symbolic = True

    def __init__(self, case):
        self.case = case
        self.inputs = {}
        self.covered = {}
        self.unknown = []
        self.checks = 0
        self.violations = []
        self.weak = []
        self.path_cov = set()

    # -- inputs
    def begin_path(self):
        self.inputs = {}
        self.path_cov = set()

    def real(self, name, lo=None, hi=None):
        x = S(z3.Real(name))
        self.inputs[name] = x
        if lo is not None:
            sym.add(x.t >= sym._const_term(sym.frac(lo)))
        if hi is not None:
            sym.add(x.t <= sym._const_term(sym.frac(hi)))
        return x

    def int(self, name, lo, hi):
        x = S(z3.ToReal(z3.Int("int!" + name)), True)
        self.inputs[name] = x
        sym.add(z3.And(x.t >= lo, x.t <= hi))
        return x

    def choose(self, name, options):
        """Fork over a finite set of concrete alternatives."""
        options = list(options)
        k = S(z3.ToReal(z3.Int("int!" + name)), True)
        self.inputs[name] = k
        sym.add(z3.And(k.t >= 0, k.t <= len(options) - 1))
        for i in range(len(options) - 1):
            if bool(B(k.t == i)):
                return options[i]
        return options[-1]

    def reals(self, name, shape, lo=None, hi=None):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        a = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            a[idx] = self.real(name + "_" + "_".join(map(str, idx)), lo, hi)
        return a

    def const(self, x):
        from .fnp import lift, lift_elem
        return lift(np.asarray(x)) if np.ndim(x) else lift_elem(x)

    def assume(self, *conds):
        for c in _flatten(conds):
            if isinstance(c, Goal):
                t = z3.Not(goal_neg(c, 0))
            else:
                t = _zb(c)
            t = z3.simplify(t)
            if z3.is_false(t):
                raise sym.Infeasible()
            if not z3.is_true(t):
                sym.add(t)

    def split(self, cond):
        """Fork on a condition; returns a Python bool."""
        return bool(cond)

    def fresh(self, name):
        return sym.fresh(name)

    def mod(self, name):
        return importlib.import_module("pyvallocation" + ("." + name if name else ""))

    def stub(self, name, fn):
        from . import facades
        facades.HOOKS[name] = fn

    intercept = stub

    def rng(self, factory):
        self.stub("rng", factory)

    def note(self, s):
        sym.NOTES.add(s)

    # -- checks
    def cover(self, label):
        """Vacuity witness: the current path must be satisfiable for some path."""
        if label in self.covered or label in self.path_cov:
            return
        self.path_cov.add(label)
        r, _ = sym.check_sat([], ms=8000)
        if r == "sat":
            self.covered[label] = True
        elif r == "unknown":
            self.covered.setdefault("?" + label, True)

    def check(self, label, goal, timeout_ms=None):
        self.checks += 1
        self.case.labels.add(label)
        if not isinstance(goal, Goal) and isinstance(goal, (bool, np.bool_)):
            goal = Goal("bool", bool(goal))
        self.cover(label)
        for g in goal_parts(goal):
            neg = z3.simplify(goal_neg(g, 0))
            if z3.is_false(neg):
                self.case.trivial += 1
                continue
            t = timeout_ms or self.case.prove_ms
            r, m = sym.check_sat([neg], ms=t)
            if r == "unsat":
                self.case.discharged += 1
                continue
            if r == "unknown":
                # the difference in polynomial normal form may settle it
                n2 = z3.simplify(goal_neg(g, 0), som=True, mul_to_power=False)
                if z3.is_false(n2):
                    self.case.discharged += 1
                    continue
                self.unknown.append(label)
                self.case.unknown.append(label)
                # still look for a violation with a margin
                r, m = sym.check_sat([goal_neg(g, Fraction(1, 100))], ms=min(t, 8000))
                if r != "sat":
                    continue
            cands, strong = self._candidates(g, m)
            v = ViolationFound(label, cands)
            if strong:
                raise v
            # a violation of negligible size only: keep looking for a visible one
            if len(self.weak) < 6:
                self.weak.append(v)
        return True

    def _candidates(self, g, m0):
        """Several concrete assignments violating the goal, most robust first."""
        out = []
        names = list(self.inputs)

        def grab(m):
            d = {}
            for n in names:
                try:
                    d[n] = sym.model_value(m, self.inputs[n].t)
                except sym.Unsupported:
                    d[n] = Fraction(0)
            return d
        box = [z3.And(self.inputs[n].t <= 8, self.inputs[n].t >= -8) for n in names if not self.inputs[n].isint]
        small = [z3.And(self.inputs[n].t <= 2, self.inputs[n].t >= -2) for n in names if not self.inputs[n].isint]
        # distance from the branch boundaries makes replays in floating point robust
        for extra, mg in ((small, Fraction(1, 10)), (box, Fraction(1, 10)), (box, Fraction(1, 100)),
                          ([], Fraction(1, 10)), ([], Fraction(1, 1000)), ([], Fraction(1, 10**5))):
            neg = z3.simplify(goal_neg(g, mg))
            if z3.is_false(neg):
                continue
            try:
                r, m = sym.check_sat([neg] + extra, ms=4000)
            except sym.OutOfBudget:
                break
            if r == "sat":
                d = grab(m)
                if d not in out:
                    out.append(d)
            if len(out) >= 3:
                break
        strong = bool(out)
        # perturbed seeds: same margins but with strictly interior path conditions
        try:
            strict = [_strict(c) for c in C.pc]
            for mg in (Fraction(1, 20), Fraction(1, 10**4)):
                r, m = sym.check_sat([z3.simplify(goal_neg(g, mg))] + box, ms=4000, pc=strict)
                if r == "sat":
                    d = grab(m)
                    if d not in out:
                        out.insert(0, d)
                    break
        except sym.OutOfBudget:
            pass
        if m0 is not None:
            out.append(grab(m0))
        return out, strong or m0 is None


def _strict(c, eps=Fraction(1, 1000)):
    """c with non-strict/strict inequalities tightened by eps (top-level literals only)."""
    e = z3.RealVal(str(eps))
    neg = False
    d = c
    if z3.is_not(d):
        neg, d = True, d.arg(0)
    try:
        if z3.is_le(d) or z3.is_lt(d):
            a, b = d.arg(0), d.arg(1)
            return z3.And(c, (a >= b + e) if neg else (a + e <= b))
        if z3.is_ge(d) or z3.is_gt(d):
            a, b = d.arg(0), d.arg(1)
            return z3.And(c, (a + e <= b) if neg else (a >= b + e))
    except z3.Z3Exception:
        pass
    return c


# ------------------------------------------------------------------ concrete
class CheckFailed(BaseException):
    def __init__(self, label, detail):
        super().__init__(label)
        self.label, self.detail = label, detail


class AssumptionFailed(BaseException):
    pass


class RealH(H):
    symbolic = False

    def __init__(self, case, values):
        self.case, self.values = case, values
        self.used = {}
        self.failed = []
        self.passed = 0
        self.patched = []
        self.ints = set()

    def _get(self, name, default=0.0):
        v = self.values.get(name, default)
        if isinstance(v, str):
            v = float(Fraction(v))
        return v

    def real(self, name, lo=None, hi=None):
        self.used[name] = (lo, hi)
        v = float(self._get(name, lo if lo is not None else 0.0))
        if lo is not None:
            v = max(v, float(lo))
        if hi is not None:
            v = min(v, float(hi))
        return v

    def int(self, name, lo, hi):
        self.ints.add(name)
        return int(self._get(name, lo))

    def choose(self, name, options):
        self.ints.add(name)
        options = list(options)
        return options[min(int(self._get(name, 0)), len(options) - 1)]

    def reals(self, name, shape, lo=None, hi=None):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        a = np.empty(shape, dtype=float)
        for idx in np.ndindex(*shape):
            a[idx] = self.real(name + "_" + "_".join(map(str, idx)), lo, hi)
        return a

    def const(self, x):
        return np.asarray(x, dtype=float) if np.ndim(x) else float(x)

    def assume(self, *conds):
        for c in _flatten(conds):
            ok = goal_true(c, 1e-7) if isinstance(c, Goal) else bool(c)
            if not ok:
                # equality-like plain conditions are re-tested with tolerance by the harness
                raise AssumptionFailed()

    def split(self, cond):
        return bool(cond)

    def mod(self, name):
        return importlib.import_module("pyvallocation" + ("." + name if name else ""))

    def stub(self, name, fn):
        pass

    def intercept(self, name, fn):
        """Like stub, but also in concrete replay: the real routine is replaced for this run."""
        _intercept(self, name, fn)

    def rng(self, factory):
        np.random.default_rng = factory

    def note(self, s):
        pass

    def cover(self, label):
        pass

    def check(self, label, goal, timeout_ms=None):
        self.case.labels.add(label)
        if not isinstance(goal, Goal):
            goal = Goal("bool", bool(goal))
        if goal_true(goal, self.tol):
            self.passed += 1
            return True
        raise CheckFailed(label, describe(goal, self.tol))


REAL = {"milp": ("scipy.optimize", "milp"), "minimize": ("scipy.optimize", "minimize"), "linprog": ("scipy.optimize", "linprog"),
        "qp": ("cvxopt.solvers", "qp"), "lp": ("cvxopt.solvers", "lp"), "conelp": ("cvxopt.solvers", "conelp")}
_QP_ARGS = {"qp": ("P", "q", "G", "h", "A", "b"), "lp": ("c", "G", "h", "A", "b"), "conelp": ("c", "G", "h", "dims", "A", "b")}


def _intercept(h, name, fn):
    modname, attr = REAL[name]
    mod = importlib.import_module(modname)
    old = getattr(mod, attr)
    new = fn
    if name in _QP_ARGS:
        import cvxopt
        order = _QP_ARGS[name]

        def conv(k, v):
            if v is None or k == "dims":
                return v
            if isinstance(v, cvxopt.spmatrix):
                v = cvxopt.matrix(v)
            return np.array(v, dtype=float)

        def new(*a, **k):
            kw = {n: None for n in order}
            kw.update(dict(zip(order, a)))
            kw.update({n: v for n, v in k.items() if n in order})
            sol = dict(fn(**{n: conv(n, v) for n, v in kw.items()}))
            for n in ("x", "s", "y", "z"):
                if isinstance(sol.get(n), np.ndarray):
                    sol[n] = cvxopt.matrix(np.asarray(sol[n], dtype=float).reshape(-1, 1))
            return sol
    for m in [mod] + [m for n, m in list(sys.modules.items()) if n.split(".")[0] == "pyvallocation" and m is not None]:
        for a, v in list(vars(m).items()):
            if v is old:
                setattr(m, a, new)
                h.patched.append((m, a, old))


def goal_true(g, tol):
    if not isinstance(g, Goal):
        return bool(g)
    k, a = g.kind, g.args
    t = g.tol if g.tol is not None else tol
    if k == "bool":
        return bool(a[0])
    if k in ("eq", "le"):
        x, y = a
        if x is None or y is None or isinstance(x, str) or isinstance(y, str):
            return x == y
        try:
            x, y = float(x), float(y)
        except (TypeError, ValueError):
            return x == y
        if math.isnan(x) or math.isnan(y):
            return k == "eq" and math.isnan(x) and math.isnan(y)
        if math.isinf(x) or math.isinf(y):
            return x == y if k == "eq" else x <= y
        sc = t * (1 + max(abs(x), abs(y)))
        return abs(x - y) <= sc if k == "eq" else x <= y + sc
    if k == "and":
        return all(goal_true(x, tol) for x in a)
    if k == "or":
        return any(goal_true(x, tol) for x in a)
    if k == "imp":
        return (not bool(a[0])) or goal_true(a[1], tol)
    raise AssertionError(k)


def describe(g, tol):
    if isinstance(g, Goal) and g.kind == "and":
        for x in g.args:
            if not goal_true(x, tol):
                return describe(x, tol)
    if isinstance(g, Goal) and g.kind == "imp":
        return describe(g.args[1], tol)
    if isinstance(g, Goal) and g.kind in ("eq", "le"):
        return f"expected {g.args[0]!r} {'==' if g.kind == 'eq' else '<='} {g.args[1]!r}"
    if isinstance(g, Goal) and g.kind == "or":
        return " or ".join(describe(x, tol) for x in g.args)[:400]
    return "condition is false"


# ------------------------------------------------------------------ cases
@dataclass
class Case:
    name: str
    fn: object
    params: dict = field(default_factory=dict)
    bounds: str = ""
    optional: bool = False      # deeper bound: being inconclusive is reported, not fatal
    budget: float = 240.0       # seconds
    prove_ms: int = 20000
    branch_ms: int = 2000
    max_paths: int = 3000
    jitter: int = 0             # replay: also try this many inputs near the counterexample
    allow_exc: tuple = ()

    def __post_init__(self):
        self.labels = set()
        self.discharged = 0
        self.trivial = 0
        self.unknown = []


def explore(case, trace=True):
    """Run a case symbolically over all its paths. Returns a result dict."""
    from . import facades
    facades.install(case.params.get("_root", "/repo"))
    sys.setrecursionlimit(20000)
    h = SymH(case)
    work = [[]]
    paths = infeasible = branches = 0
    t0 = time.monotonic()
    sym.LIM["deadline"] = t0 + case.budget
    sym.LIM["branch_ms"] = case.branch_ms
    sym.LIM["prove_ms"] = case.prove_ms
    funcs = set()
    first_v = None
    res = {"status": "proved", "detail": ""}
    sample_models = []
    importlib.import_module("pyvallocation")
    while work:
        prefix = work.pop()
        C.reset(prefix)
        C.active = True
        h.begin_path()
        facades.HOOKS.clear()
        prof = None
        if trace and paths < 6:
            def prof(frame, event, arg):
                if event == "call" and "/pyvallocation/" in frame.f_code.co_filename:
                    funcs.add(frame.f_code.co_filename.split("/repo/")[-1] + ":" + frame.f_code.co_qualname)
            sys.setprofile(prof)
        try:
            try:
                case.fn(h, **{k: v for k, v in case.params.items() if not k.startswith("_")})
            finally:
                sys.setprofile(None)
            paths += 1
        except sym.Infeasible:
            infeasible += 1
        except ViolationFound as v:
            h.violations.append(v)
            first_v = first_v or time.monotonic()
            paths += 1
            if len(h.violations) >= 4:
                break
        except sym.OutOfBudget as e:
            res = {"status": "inconclusive", "detail": f"{e} after {paths} paths"}
            break
        except sym.Unsupported as e:
            res = {"status": "unsupported", "detail": str(e) + " @ " + _where()}
            break
        except Exception as e:
            # the code under test raised where the harness does not allow it: replay decides
            r, m = sym.check_sat([], ms=8000) if True else (None, None)
            if r == "unsat":
                infeasible += 1
            else:
                ins = []
                if m is not None:
                    ins = [{k: str(sym.model_value(m, x.t)) for k, x in h.inputs.items()}]
                res = {"status": "violation", "label": f"unexpected {type(e).__name__}", "inputs": ins,
                       "detail": f"{type(e).__name__}: {e} @ {_where()}", "exception": type(e).__name__}
                break
        finally:
            C.active = False
        branches += len(C.decisions)
        if C.model is not None and len(sample_models) < 4:
            try:
                sample_models.append({k: str(sym.model_value(C.model, x.t)) for k, x in h.inputs.items()})
            except Exception:
                pass
        work.extend(C.alts)
        if first_v and time.monotonic() - first_v > 12:
            break
        if paths + infeasible > case.max_paths:
            res = {"status": "inconclusive", "detail": f"more than {case.max_paths} paths"}
            break
    vs = h.violations + h.weak
    if vs and res["status"] != "violation":
        res = {"status": "violation", "label": vs[0].label,
               "inputs": [dict({k: str(x) for k, x in d.items()}, **{"!label": v.label}) for v in vs for d in v.inputs_list]}
    if res["status"] == "proved":
        if case.unknown:
            res = {"status": "inconclusive", "detail": "solver answered unknown for: " + ", ".join(sorted(set(case.unknown)))}
        else:
            missing = [l for l in case.labels if l not in h.covered]
            really = [l for l in missing if "?" + l not in h.covered]
            if not case.labels or really:
                res = {"status": "vacuous", "detail": "assertion never reached on a satisfiable path: " + (", ".join(really) or "none made")}
            elif missing:
                res["detail"] = "reachability undecided for: " + ", ".join(missing)
    res.update(name=case.name, bounds=case.bounds, paths=paths, infeasible=infeasible, branches=branches,
               discharged=case.discharged, trivial=case.trivial, labels=sorted(case.labels),
               covered=sorted(l for l in h.covered if not l.startswith("?")),
               functions=sorted(funcs), stats=dict(sym.STATS), notes=sorted(sym.NOTES),
               samples=sample_models, wall=time.monotonic() - t0)
    return res


def _where():
    tb = sys.exc_info()[2]
    fr = traceback.extract_tb(tb)
    repo = [f for f in fr if "/pyvallocation/" in f.filename]
    f = (repo or fr)[-1]
    last = fr[-1]
    return f"{f.filename}:{f.lineno} (raised in {last.filename.split('/')[-1]}:{last.lineno})"


def replay(case, values, root="/repo"):
    """Run a case concretely on the unmodified code. Returns (verdict, detail)."""
    return replay_near(case, values, 0)[:2]


def replay_near(case, values, tries):
    """Exact replay, then (for solver-based checks) inputs close to the counterexample."""
    v, d, h = _replay1(case, values)
    if v in ("violated", "raised") or not tries:
        return v, d, values
    rnd = random.Random(11)
    names = dict(h.used)
    t0 = time.monotonic()
    limit = 25 if tries >= 100 else 1e9
    k = 0
    while time.monotonic() - t0 < limit and k < 20 * tries:
        near = dict(values)
        if k < tries:
            s = (0.05, 0.3, 1.0)[k % 3]
            for n in names:
                x = float(h._get(n))
                near[n] = x + rnd.uniform(-s, s) if rnd.random() < 0.8 else x
        elif tries < 100:
            break
        else:                       # anywhere in the stated box
            keep = rnd.choice((0.0, 0.3, 0.6))
            for n, (lo, hi) in names.items():
                lo = -2.0 if lo is None else float(lo)
                hi = lo + 4.0 if hi is None else float(hi)
                near[n] = float(h._get(n)) if rnd.random() < keep else rnd.uniform(lo, hi)
        v2, d2, h2 = _replay1(case, near)
        names.update(h2.used)
        if v2 in ("violated",):
            return v2, d2, near
        k += 1
    return v, d, values


def _replay1(case, values):
    h = RealH(case, values)
    rng0 = np.random.default_rng
    try:
        case.fn(h, **{k: v for k, v in case.params.items() if not k.startswith("_")})
    except CheckFailed as e:
        return "violated", f"{e.label}: {e.detail}", h
    except AssumptionFailed:
        return "outside", "inputs leave the assumed domain after rounding to floats", h
    except Exception as e:
        return "raised", f"{type(e).__name__}: {e} @ {_where()}", h
    finally:
        np.random.default_rng = rng0
        for m, a, old in reversed(h.patched):
            setattr(m, a, old)
    return "held", f"{h.passed} checks passed", h
