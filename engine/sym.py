"""Symbolic reals over z3 and the path explorer.

``S`` is a real number that is either an exact rational constant or a z3 term.
``B`` is a symbolic truth value; using it in a Python ``if`` forks the path.
"""
import math
import numbers
import sys
import time
from fractions import Fraction

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy as _np  # the real numpy (the venv's)
import z3

z3.set_param("memory_max_size", 6000)


class PathAbort(BaseException):
    """Control flow of the explorer: never caught by the code under test."""


class Infeasible(PathAbort):
    pass


class OutOfBudget(PathAbort):
    pass


class Unsupported(PathAbort):
    """The engine cannot encode an operation the code performs."""


_fcache = {}


def frac(x):
    """Exact reading of a Python/numpy number as a rational."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, _np.integer)):
        return Fraction(int(x))
    x = float(x)
    r = _fcache.get(x)
    if r is None:
        s = repr(x)
        mant = s.split("e")[0].replace(".", "").replace("-", "").lstrip("0")
        r = Fraction(s)
        if len(mant) > 12:
            f = Fraction(x).limit_denominator(5000)
            g = Fraction("%.12g" % x)
            if float(f) == x:
                r = f
            elif abs(g - Fraction(x)) <= abs(Fraction(x)) * Fraction(1, 10**15):
                r = g            # a short decimal up to a couple of ulps (1 - 0.7 reads as 0.3)
            else:
                r = Fraction(x)
        _fcache[x] = r
    return r


_surds = {}


def surd(x):
    """A float that is the square root of a small rational up to rounding, as that root."""
    if not isinstance(x, (float, _np.floating)) or not C.active:
        return None
    x = float(x)
    if x not in _surds:
        r = None
        f = frac(x)
        if f.denominator > 10**12 and 1e-3 < abs(x) < 1e3:
            q = Fraction(x * x).limit_denominator(200)
            if q and abs(float(q) - x * x) <= 4e-16 * x * x:
                r = q
        _surds[x] = r
    q = _surds[x]
    if q is None:
        return None
    r = sqrt(S(q))
    return r if x > 0 else -r


def _const_term(f):
    return z3.RealVal(f"{f.numerator}/{f.denominator}") if f.denominator != 1 else z3.RealVal(f.numerator)


class Ctx:
    """State of one path."""

    def __init__(self):
        self.reset([])
        self.active = False

    def reset(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []      # bools taken
        self.alts = []           # prefixes still to explore
        self.pc = []             # path condition + side constraints
        self.solver = None
        self.model = None
        self.nfresh = 0
        self.cache = {}
        self.exps = []           # (arg term S, value term S)
        self.solvings = []
        self.keep = []
        self.sided = False


C = Ctx()
STATS = {"branch_queries": 0, "prove_queries": 0, "solver_s": 0.0, "branch_unknown": 0}
LIM = {"branch_ms": 2000, "prove_ms": 20000, "deadline": None, "max_branch": 4000}


def _deadline():
    if LIM["deadline"] is not None and time.monotonic() > LIM["deadline"]:
        raise OutOfBudget("time budget of this case used up")


def add(c):
    """Add a constraint (z3 BoolRef) to the path."""
    if isinstance(c, B):
        c = c.t
    if c is True:
        return
    if c is False:
        raise Infeasible()
    C.pc.append(c)
    if C.solver is not None:
        C.solver.add(c)
    if C.model is not None:
        try:
            if not z3.is_true(C.model.eval(c, model_completion=True)):
                C.model = None
        except z3.Z3Exception:
            C.model = None


def _solver():
    if C.solver is None:
        C.solver = z3.Solver()
        for c in C.pc:
            C.solver.add(c)
    return C.solver


def feasible(c, ms=None):
    """'sat' / 'unsat' / 'unknown' for path ∧ c."""
    _deadline()
    if C.model is not None:
        try:
            if z3.is_true(C.model.eval(c, model_completion=True)):
                return "sat"
        except z3.Z3Exception:
            pass
    s = _solver()
    STATS["branch_queries"] += 1
    t0 = time.monotonic()
    s.push()
    s.set("timeout", int(ms or LIM["branch_ms"]))
    s.add(c)
    r = s.check()
    out = str(r)
    if r == z3.sat:
        C.model = s.model()
    s.pop()
    if out == "unknown":
        # fresh non-incremental attempt (lets z3 pick nlsat)
        s2 = z3.SolverFor("QF_NRA")
        s2.set("timeout", int(ms or LIM["branch_ms"]))
        s2.add(*C.pc)
        s2.add(c)
        r = s2.check()
        out = str(r)
        if r == z3.sat:
            C.model = s2.model()
    STATS["solver_s"] += time.monotonic() - t0
    if out == "unknown":
        STATS["branch_unknown"] += 1
    return out


def decide(t):
    """Fork on the z3 boolean t."""
    if C.pos < len(C.prefix):
        v = C.prefix[C.pos]
        C.pos += 1
        C.decisions.append(v)
        add(t if v else z3.Not(t))
        return v
    C.pos += 1
    if len(C.decisions) > LIM["max_branch"]:
        raise OutOfBudget("too many branches on one path")
    m = C.model
    a = feasible(t)
    model_a = C.model if a == "sat" else None
    b = feasible(z3.Not(t)) if a != "unsat" else "sat"
    if a != "unsat" and b != "unsat":
        C.alts.append(C.decisions + [False])
        C.decisions.append(True)
        C.model = model_a
        add(t)
        return True
    if a == "unsat":
        C.decisions.append(False)
        add(z3.Not(t))
        return False
    C.decisions.append(True)
    C.model = model_a
    add(t)
    return True


class B:
    """Symbolic boolean."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        t = self.t
        if not C.active:
            raise Unsupported("branch outside exploration")
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        key = ("B", t.get_id())
        v = C.cache.get(key)
        if v is not None:
            return v
        st = z3.simplify(t)
        if z3.is_true(st):
            v = True
        elif z3.is_false(st):
            v = False
        else:
            v = decide(st)
        C.keep.append(t)
        C.cache[key] = v
        return v

    def __and__(self, o):
        return band(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)
    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def __xor__(self, o):
        return B(z3.Xor(_bt(self), _bt(o)))

    def __eq__(self, o):
        return B(_bt(self) == _bt(o))

    def __ne__(self, o):
        return B(_bt(self) != _bt(o))

    def __hash__(self):
        return hash(("B", self.t.get_id()))

    # arithmetic use of booleans (masks multiplied in)
    def _num(self):
        return S(z3.If(self.t, z3.RealVal(1), z3.RealVal(0)))

    def __mul__(self, o):
        return self._num() * (o._num() if isinstance(o, B) else o)
    __rmul__ = __mul__

    def __add__(self, o):
        return self._num() + (o._num() if isinstance(o, B) else o)
    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - (o._num() if isinstance(o, B) else o)

    def __rsub__(self, o):
        return o - self._num()

    def __repr__(self):
        return f"B({self.t})"


def _bt(x):
    if isinstance(x, B):
        return x.t
    if isinstance(x, (bool, _np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, S):
        return _bt(x != 0)
    raise Unsupported(f"not a boolean: {type(x)}")


def band(*xs):
    xs = _flat(xs)
    ts = [_bt(x) for x in xs if not (isinstance(x, (bool, _np.bool_)) and x)]
    if any(isinstance(x, (bool, _np.bool_)) and not x for x in xs):
        return False
    if not ts:
        return True
    return B(z3.And(*ts)) if len(ts) > 1 else B(ts[0])


def bor(*xs):
    xs = _flat(xs)
    if any(isinstance(x, (bool, _np.bool_)) and x for x in xs):
        return True
    ts = [_bt(x) for x in xs if not isinstance(x, (bool, _np.bool_))]
    if not ts:
        return False
    return B(z3.Or(*ts)) if len(ts) > 1 else B(ts[0])


def bnot(x):
    if isinstance(x, (bool, _np.bool_)):
        return not x
    return B(z3.Not(_bt(x)))


def implies(a, b):
    return bor(bnot(a), b)


def iff(a, b):
    if isinstance(a, (bool, _np.bool_)) and isinstance(b, (bool, _np.bool_)):
        return bool(a) == bool(b)
    return B(_bt(a) == _bt(b))


def _flat(xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            out.extend(_flat(x))
        elif isinstance(x, _np.ndarray):
            out.extend(_flat(x.ravel().tolist()))
        else:
            out.append(x)
    return out


def isnum(x):
    return isinstance(x, (int, float, Fraction, _np.integer, _np.floating, bool, _np.bool_))


def _special(x):
    return isinstance(x, (float, _np.floating)) and not math.isfinite(x)


class S:
    """Symbolic real. ``c`` is a Fraction for constants, else None; ``_t`` the z3 term."""
    __slots__ = ("c", "_t", "isint", "__weakref__")

    def __init__(self, t, isint=False):
        if isinstance(t, z3.ExprRef):
            self.c = None
            self._t = t
            self.isint = isint
        else:
            self.c = frac(t)
            self._t = None
            self.isint = isint or self.c.denominator == 1

    @property
    def t(self):
        if self._t is None:
            self._t = _const_term(self.c)
        return self._t

    # -- coercion
    @staticmethod
    def of(x):
        if isinstance(x, S):
            return x
        if isinstance(x, B):
            return x._num()
        if isnum(x):
            return surd(x) or S(x)
        if isinstance(x, _np.ndarray) and x.ndim == 0:
            return S.of(x.item())
        return None

    # -- arithmetic
    def _bin(self, o, kind):
        if isinstance(o, _np.ndarray):
            if o.ndim == 0:
                o = o.item()
            else:
                return NotImplemented
        if _special(o):
            o = float(o)
            if math.isnan(o):
                return o
            if kind == "add":
                return o
            if kind == "sub":
                return -o
            if kind == "rsub":
                return o
            if kind == "div":
                return S(0)
            if kind in ("mul", "rdiv"):
                if self.c is not None:
                    f = float(self.c)
                    return f * o if kind == "mul" else (o / f if f else math.nan)
                pos = self > 0
                if pos:
                    return o
                if self < 0:
                    return -o
                return math.nan
        b = S.of(o)
        if b is None:
            return NotImplemented
        a = self
        if kind == "rsub":
            a, b, kind = b, a, "sub"
        if kind == "rdiv":
            a, b, kind = b, a, "div"
        ii = a.isint and b.isint
        if kind == "add":
            if a.c is not None and b.c is not None:
                return S(a.c + b.c)
            if a.c == 0:
                return b
            if b.c == 0:
                return a
            return S(a.t + b.t, ii)
        if kind == "sub":
            if a.c is not None and b.c is not None:
                return S(a.c - b.c)
            if b.c == 0:
                return a
            if a.c == 0:
                return -b
            if a is b:
                return S(0)
            return S(a.t - b.t, ii)
        if kind == "mul":
            if a.c is not None and b.c is not None:
                return S(a.c * b.c)
            if a.c == 0 or b.c == 0:
                return S(0)
            if a.c == 1:
                return b
            if b.c == 1:
                return a
            if a is b and C.cache.get(("root", a._t.get_id())) is not None:
                return C.cache[("root", a._t.get_id())]
            return S(a.t * b.t, ii)
        if kind == "div":
            if b.c is not None:
                if b.c == 0:
                    if a.c is not None:
                        return math.nan if a.c == 0 else math.copysign(math.inf, a.c)
                    if a > 0:
                        return math.inf
                    return -math.inf if a < 0 else math.nan
                if a.c is not None:
                    return S(a.c / b.c)
                if b.c == 1:
                    return a
                return S(a.t * _const_term(1 / b.c))
            if a.c == 0:
                return S(0)
            r = recip(b)
            if not isinstance(r, S):   # b == 0 on this path
                return a._bin(S(0), "div")
            return a * r
        raise AssertionError(kind)

    def __add__(self, o): return self._bin(o, "add")
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, "sub")
    def __rsub__(self, o): return self._bin(o, "rsub")
    def __mul__(self, o): return self._bin(o, "mul")
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, "div")
    def __rtruediv__(self, o): return self._bin(o, "rdiv")

    def __floordiv__(self, o):
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return (o / self).floor()

    def __mod__(self, o):
        k = (self / o).floor()
        return self - k * o

    def __divmod__(self, o):
        k = (self / o).floor()
        return k, self - k * o

    def __neg__(self):
        return S(-self.c) if self.c is not None else S(-self._t, self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.c is not None:
            return S(abs(self.c))
        return S(z3.If(self._t >= 0, self._t, -self._t), self.isint)

    def __pow__(self, e):
        if isinstance(e, S):
            if e.c is None:
                return (self.log() * e).exp()
            e = e.c
        if isnum(e):
            f = frac(e)
            if f.denominator == 1:
                n = int(f)
                if n == 0:
                    return S(1)
                if self.c is not None:
                    if self.c == 0 and n < 0:
                        return math.inf
                    return S(self.c ** n)
                base = self if n > 0 else 1 / self
                out = base
                for _ in range(abs(n) - 1):
                    out = out * base
                return out
            if f.denominator == 2:
                r = self.sqrt()
                return r ** f.numerator
            return (self.log() * S(f)).exp()
        return NotImplemented

    def __rpow__(self, base):
        if isnum(base):
            if self.c is not None:
                return S(base) ** self.c
            return (S(base).log() * self).exp()
        return NotImplemented

    # -- comparisons
    def _cmp(self, o, op):
        if isinstance(o, _np.ndarray) and o.ndim:
            return NotImplemented
        if _special(o):
            o = float(o)
            if math.isnan(o):
                return op == "ne"
            big = o > 0
            return {"lt": big, "le": big, "gt": not big, "ge": not big, "eq": False, "ne": True}[op]
        b = S.of(o)
        if b is None:
            if op == "eq":
                return False
            if op == "ne":
                return True
            return NotImplemented
        if self.c is not None and b.c is not None:
            x, y = self.c, b.c
            return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y}[op]
        if self is b:
            return op in ("le", "ge", "eq")
        x, y = self.t, b.t
        return B({"lt": lambda: x < y, "le": lambda: x <= y, "gt": lambda: x > y,
                  "ge": lambda: x >= y, "eq": lambda: x == y, "ne": lambda: x != y}[op]())

    def __lt__(self, o): return self._cmp(o, "lt")
    def __le__(self, o): return self._cmp(o, "le")
    def __gt__(self, o): return self._cmp(o, "gt")
    def __ge__(self, o): return self._cmp(o, "ge")
    def __eq__(self, o): return self._cmp(o, "eq")
    def __ne__(self, o): return self._cmp(o, "ne")

    def __hash__(self):
        return hash(self.c) if self.c is not None else hash(("S", self._t.get_id()))

    def __bool__(self):
        return bool(self != 0)

    # -- conversions
    def __float__(self):
        if self.c is not None:
            return float(self.c)
        raise Unsupported("float() of a symbolic value reached compiled code")

    def __int__(self):
        if self.c is not None:
            return int(self.c)
        return concretise_int(trunc(self))

    def __index__(self):
        if self.c is not None and self.c.denominator == 1:
            return int(self.c)
        if self.isint:
            return concretise_int(self)
        raise TypeError("symbolic real used as an index")

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return self.floor()

    def __ceil__(self):
        return self.ceil()

    def __round__(self, n=None):
        if n is None:
            return self.rint()
        if self.c is not None:
            return S(Fraction(round(float(self.c), n)).limit_denominator(10**12))
        k = 10 ** n
        return (self * k).rint() / k

    def __format__(self, spec):
        if self.c is not None:
            try:
                return format(float(self.c), spec)
            except ValueError:
                return format(int(self.c), spec)
        return "<sym>"

    def __repr__(self):
        return f"S({self.c if self.c is not None else self._t})"

    __str__ = __repr__

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    # -- numpy's object-ufunc hooks and ndarray-scalar look-alikes
    def conjugate(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return S(0)
    @property
    def T(self): return self
    @property
    def ndim(self): return 0
    @property
    def shape(self): return ()
    @property
    def size(self): return 1
    def item(self): return self
    def tolist(self): return self
    def is_integer(self): return bool(self == self.floor())

    def square(self): return self * self
    def reciprocal(self): return 1 / self

    def sqrt(self): return sqrt(self)
    def exp(self): return exp(self)
    def log(self): return log(self)
    def expm1(self): return exp(self) - 1
    def log1p(self): return log(self + 1)
    def floor(self): return floor(self)
    def ceil(self): return -floor(-self)

    def rint(self):
        if self.c is not None:
            return S(round(self.c))
        k = floor(self + Fraction(1, 2))
        # banker's rounding at exact halves
        tie = (self + Fraction(1, 2)) == k
        if isinstance(tie, B):
            half = floor(k * Fraction(1, 2))
            odd = (k - 2 * half) == 1
            return ite(band(tie, odd), k - 1, k)
        return k

    def sign(self):
        return ite(self > 0, S(1), ite(self < 0, S(-1), S(0)))


numbers.Real.register(S)


def fresh(name, isint=False):
    C.nfresh += 1
    n = f"{name}!{C.nfresh}"
    if isint:
        return S(z3.ToReal(z3.Int(n)), True)
    return S(z3.Real(n))


def ite(c, a, b):
    if isinstance(c, (bool, _np.bool_)):
        return a if c else b
    if a is b:
        return a
    A, Bv = S.of(a), S.of(b)
    if A is None or Bv is None or _special(a) or _special(b):
        return a if c else b
    if A.c is not None and Bv.c is not None and A.c == Bv.c:
        return A
    ct = z3.simplify(c.t)
    if z3.is_true(ct):
        return A
    if z3.is_false(ct):
        return Bv
    return S(z3.If(ct, A.t, Bv.t), A.isint and Bv.isint)


def smax(a, b):
    return ite(S.of(a) >= b, a, b) if not (_special(a) or _special(b)) else (a if bool(S.of(a) >= b if not _special(a) else a > 0) else b)


def smin(a, b):
    return ite(S.of(a) <= b, a, b) if not (_special(a) or _special(b)) else (a if bool(S.of(a) <= b if not _special(a) else a < 0) else b)


def _key(s):
    t = z3.simplify(s.t, som=True)
    C.keep.append(t)
    return t.get_id(), t


def side(c):
    """Side constraint introduced by an encoding (definition of a fresh variable)."""
    add(c)


def recip(b):
    """1/b as a fresh variable r with r*b == 1; forks when b may be zero."""
    k, t = _key(b)
    v = C.cache.get(("recip", k))
    if v is None:
        if z3.is_rational_value(t):
            f = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return S(1 / f) if f else None
        if bool(B(t == 0)):
            C.cache[("recip", k)] = "zero"
            return None
        r = fresh("r")
        side(r.t * t == 1)
        # sign link (implied; helps the solver)
        side(z3.And(z3.Implies(t > 0, r.t > 0), z3.Implies(t < 0, r.t < 0)))
        C.cache[("recip", k)] = r
        return r
    return None if v == "zero" else v


def sqrt(x, nonneg=False):
    x = S.of(x)
    if x.c is not None:
        if x.c < 0:
            return math.nan
        n, d = math.isqrt(x.c.numerator), math.isqrt(x.c.denominator)
        if n * n == x.c.numerator and d * d == x.c.denominator:
            return S(Fraction(n, d))
    k, t = _key(x)
    v = C.cache.get(("sqrt", k))
    if v is None:
        if x.c is None and nonneg:
            side(t >= 0)
        elif x.c is None:
            memo = (tuple(C.decisions), C.nfresh, C.pos)
            r = SQRT_MEMO.get(memo)
            if r is None:
                r = SQRT_MEMO[memo] = feasible(t < 0)
            if r == "sat":
                if bool(B(t < 0)):
                    return math.nan
            elif r == "unknown":
                NOTES.add("a square-root argument whose sign the solver did not decide was assumed non-negative")
        s = fresh("sqrt")
        side(s.t >= 0)
        side(s.t * s.t == t)
        side((s.t == 0) == (t == 0))
        v = C.cache[("sqrt", k)] = s
        C.cache[("root", s._t.get_id())] = x
    return v


NOTES = set()
SQRT_MEMO = {}


def floor(x):
    x = S.of(x)
    if x.c is not None:
        return S(math.floor(x.c))
    if x.isint:
        return x
    k, t = _key(x)
    v = C.cache.get(("floor", k))
    if v is None:
        f = fresh("floor", isint=True)
        side(f.t <= t)
        side(t < f.t + 1)
        v = C.cache[("floor", k)] = f
    return v


def trunc(x):
    x = S.of(x)
    if x.c is not None:
        return S(math.trunc(x.c))
    if x.isint:
        return x
    return ite(x >= 0, floor(x), -floor(-x))


def concretise_int(x):
    """Pick the value of a symbolic integer by forking over its feasible values."""
    x = S.of(x)
    if x.c is not None:
        return int(x.c)
    k, t = _key(x)
    v = C.cache.get(("cint", k))
    if v is not None:
        return v
    for _ in range(64):
        # deterministic enumeration 0,1,-1,2,-2...
        for cand in [0] + [s * j for j in range(1, 40) for s in (1, -1)]:
            if bool(B(t == cand)):
                C.cache[("cint", k)] = cand
                return cand
        raise OutOfBudget("symbolic integer outside -39..39")


def _poly(s):
    return z3.simplify(s.t, som=True)


def _iszero(t):
    t = z3.simplify(t, som=True)
    return z3.is_rational_value(t) and t.numerator_as_long() == 0


EXP_PAIRWISE = True


def _exp_axioms(a, e):
    """Axioms linking (a, e=exp(a)) to all earlier pairs. a, e are S."""
    side(e.t > 0)
    side(e.t >= a.t + 1)
    side((a.t == 0) == (e.t == 1))
    side((a.t > 0) == (e.t > 1))
    if a.c is not None and abs(a.c) < 200:        # value of the constant to 13 digits
        v = Fraction(math.exp(float(a.c)))
        side(z3.And(e.t >= _const_term(v * (1 - Fraction(1, 10**13))), e.t <= _const_term(v * (1 + Fraction(1, 10**13)))))
    if e.c is not None and e.c > 0:
        v = Fraction(math.log(float(e.c)))
        m = Fraction(1, 10**13) * (1 + abs(v))
        side(z3.And(a.t >= _const_term(v - m), a.t <= _const_term(v + m)))
    for (a2, e2) in C.exps:
        side((a.t < a2.t) == (e.t < e2.t))
        side((a.t == a2.t) == (e.t == e2.t))
        if _iszero(a.t + a2.t):
            side(e.t * e2.t == 1)
        if _iszero(a.t - 2 * a2.t):
            side(e.t == e2.t * e2.t)
        if _iszero(a2.t - 2 * a.t):
            side(e2.t == e.t * e.t)
    n = len(C.exps)
    for i in range(n):
        for j in range(i, n):
            (x, ex), (y, ey) = C.exps[i], C.exps[j]
            if _iszero(a.t - x.t - y.t):
                side(e.t == ex.t * ey.t)
            if _iszero(x.t - a.t - y.t):
                side(ex.t == e.t * ey.t)
            if _iszero(y.t - a.t - x.t):
                side(ey.t == e.t * ex.t)
    C.exps.append((a, e))


def exp(x):
    x = S.of(x)
    if x.c is not None and x.c == 0:
        return S(1)
    k, t = _key(x)
    v = C.cache.get(("exp", k))
    if v is None:
        for (a, e) in C.exps:
            if _iszero(a.t - t):
                return e
        e = fresh("exp")
        _exp_axioms(S(t) if x.c is None else x, e)
        v = C.cache[("exp", k)] = e
    return v


def log(x):
    x = S.of(x)
    if x.c is not None:
        if x.c == 1:
            return S(0)
        if x.c <= 0:
            return -math.inf if x.c == 0 else math.nan
    k, t = _key(x)
    v = C.cache.get(("log", k))
    if v is None:
        if x.c is None:
            if not bool(B(t > 0)):
                if bool(B(t == 0)):
                    return -math.inf
                return math.nan
        for (a, e) in C.exps:
            if _iszero(e.t - t):
                return a
        a = fresh("log")
        xs = x if x.c is not None else S(t)
        # products of known exponentials: log(e1*e2) = a1+a2
        _exp_axioms(a, xs)
        n = len(C.exps) - 1
        for i in range(n):
            for j in range(i, n):
                (ai, ei), (aj, ej) = C.exps[i], C.exps[j]
                if _iszero(xs.t - ei.t * ej.t):
                    side(a.t == ai.t + aj.t)
                if _iszero(ei.t - xs.t * ej.t):
                    side(ai.t == a.t + aj.t)
                if _iszero(ej.t - xs.t * ei.t):
                    side(aj.t == a.t + ai.t)
        v = C.cache[("log", k)] = a
    return v


# --------------------------------------------------------------------------
# proving

def check_sat(extra, ms=None, want_model=True, pc=None):
    """Satisfiability of path ∧ extra with a portfolio. Returns (verdict, model)."""
    _deadline()
    ms = int(ms or LIM["prove_ms"])
    pc = C.pc if pc is None else pc
    asserts = list(pc) + list(extra)
    STATS["prove_queries"] += 1
    t0 = time.monotonic()
    try:
        hasint = any("floor!" in x or "int!" in x for x in (a.sexpr() for a in asserts)) if len(asserts) < 400 else True
        plans = [("default", ms // 4)]
        if not hasint:
            plans += [("nlsat", ms // 2)]
        plans += [("default2", ms)]
        for kind, tmo in plans:
            if kind == "nlsat":
                s = z3.Then("simplify", "solve-eqs", "purify-arith", "elim-term-ite", "solve-eqs", "qfnra-nlsat").solver() \
                    if False else z3.SolverFor("QF_NRA")
            else:
                s = z3.Solver()
                if kind == "default2":
                    s.set("random_seed", 7)
                    s.set("arith.solver", 6)
            s.set("timeout", max(500, tmo))
            s.add(*asserts)
            try:
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                return "unsat", None
            if r == z3.sat:
                return "sat", s.model()
        return "unknown", None
    finally:
        STATS["solver_s"] += time.monotonic() - t0


def model_value(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_rational_value(v) or z3.is_int_value(v):
        return Fraction(v.as_fraction()) if z3.is_rational_value(v) else Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise Unsupported(f"model value {v}")
