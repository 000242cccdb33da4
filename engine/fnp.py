"""Facade over numpy: float arrays become object arrays of symbolic reals.

Anything not overridden is the real numpy function, applied to object arrays.
"""
import math
import types
from fractions import Fraction

import numpy as np

from . import sym
from .sym import S, B, band, bor, bnot, ite, smax, smin, isnum


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, S))

    def __subclasscheck__(cls, c):
        return issubclass(c, float) or c is S


class Float(float, metaclass=_FloatMeta):
    """Stands for the builtin ``float`` inside the code under test."""

    def __new__(cls, x=0.0):
        if isinstance(x, S):
            return x
        if isinstance(x, B):
            return x._num()
        if isinstance(x, np.ndarray) and x.dtype == object:
            if x.size == 1:
                return Float(x.reshape(-1)[0])
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        if type(x).__module__.startswith("pandas") and getattr(x, "size", 0) == 1:
            return Float(x.iloc[0])
        return float(x)

    fromhex = float.fromhex


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or (isinstance(x, S) and x.c is None and x.isint)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)


class Int(int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            x = x.reshape(-1)[0]
        if isinstance(x, S):
            if x.c is not None:
                return int(x.c)
            return sym.trunc(x)
        return int(x, *a) if a else int(x)


def has_sym(x):
    if isinstance(x, (S, B)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(e, (S, B)) for e in x.ravel())
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    if type(x).__module__.startswith("pandas"):
        return has_sym(x.to_numpy())
    return False


FLOATS = (float, Float, np.float64, np.floating, "float", "float64", "f8", "d", np.dtype(float))


def _isfloat(dt):
    if dt is None:
        return False
    try:
        return dt in FLOATS or (isinstance(dt, np.dtype) and dt.kind == "f")
    except TypeError:
        return False


def lift_elem(e):
    if isinstance(e, (S, float)) and not (type(e) is float and math.isfinite(e)):
        return e
    if isinstance(e, B):
        return e._num()
    if isinstance(e, (bool, np.bool_)):
        return S(int(e))
    if isinstance(e, (int, Fraction, np.integer)):
        return S(e)
    if isinstance(e, (float, np.floating)):
        e = float(e)
        return S.of(e) if math.isfinite(e) else e
    if e is None:
        return math.nan
    if isinstance(e, str):
        return lift_elem(float(e))
    if isinstance(e, np.ndarray) and e.size == 1:
        return lift_elem(e.reshape(-1)[0])
    raise TypeError(f"float() argument must be a string or a real number, not '{type(e).__name__}'")


def lift(a, copy=True):
    """Object array of symbolic reals with the values of ``a``."""
    a = np.asarray(a)
    if a.dtype == object and not copy and all(isinstance(e, S) for e in a.ravel()):
        return a
    out = np.empty(a.shape, dtype=object)
    flat = out.reshape(-1)
    for i, e in enumerate(a.reshape(-1).tolist() if a.dtype != object else a.reshape(-1)):
        flat[i] = lift_elem(e)
    return out


def lower(a):
    """Float array when every entry is a constant, else None."""
    a = np.asarray(a)
    if a.dtype != object:
        return a
    out = np.empty(a.shape, dtype=float)
    for i, e in enumerate(a.reshape(-1)):
        if isinstance(e, S):
            if e.c is None:
                return None
            e = float(e.c)
        elif isinstance(e, B):
            return None
        out.reshape(-1)[i] = e
    return out


def _oarr(x):
    if isinstance(x, np.ndarray):
        return x
    if type(x).__module__.startswith("pandas"):
        return x.to_numpy()
    if has_sym(x) and not isinstance(x, (S, B)):
        try:
            return np.array(x, dtype=object)
        except ValueError:
            raise
    if isinstance(x, (S, B)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    return np.asarray(x)


def emap(f, *arrs):
    """Elementwise map with broadcasting, keeping pandas containers out."""
    arrs = [_oarr(a) for a in arrs]
    b = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    out = np.empty(b[0].shape, dtype=object)
    fl = [x.reshape(-1) for x in b]
    o = out.reshape(-1)
    for i in range(o.size):
        o[i] = f(*[x[i] for x in fl])
    if out.ndim == 0:
        return out[()]
    return out


def _unary(name, fsym):
    real = getattr(np, name)

    def f(x, *a, out=None, where=True, **k):
        if type(x).__module__.startswith("pandas"):
            if not has_sym(x):
                lo = lower(x.to_numpy()) if x.to_numpy().dtype == object else None
                if lo is None:
                    return real(x)
            import pandas as pd
            v = f(x.to_numpy())
            return type(x)(v, index=x.index, name=x.name) if isinstance(x, pd.Series) else type(x)(v, index=x.index, columns=x.columns)
        if not has_sym(x):
            return real(x, *a, **k)

        def g(e):
            if isinstance(e, (S, B)):
                return fsym(S.of(e))
            return real(e)
        r = emap(g, x)
        if out is not None:
            out[...] = r
            return out
        return r
    f.__name__ = name
    return f


def _obj_result(a):
    return a


def _boolmap(f, x):
    r = emap(f, x)
    if isinstance(r, np.ndarray):
        return r.astype(bool)
    return bool(r)


def make(pdmod=None):
    ns = {}

    def reg(f, name=None):
        ns[name or f.__name__] = f
        return f

    # ---- creation -------------------------------------------------------
    def _conv(real):
        def f(x, dtype=None, *a, **k):
            if dtype is None and "dtype" in k:
                dtype = k.pop("dtype")
            if _isfloat(dtype):
                src = x
                if type(src).__module__.startswith("pandas"):
                    src = src.to_numpy()
                if hasattr(src, "__array__") and not isinstance(src, np.ndarray):
                    src = src.__array__()
                arr = src if isinstance(src, np.ndarray) else _list_arr(src)
                copy = k.get("copy", None)
                nocopy = real is np.asarray or copy is False
                out = lift(arr, copy=not nocopy)
                nd = k.get("ndmin")
                while nd and out.ndim < nd:
                    out = out[None]
                return out
            if dtype in (Int, int) or (dtype is not None and not _isfloat(dtype) and dtype in (np.int64, "int", "int64")):
                arr = _list_arr(x) if not isinstance(x, np.ndarray) else x
                if has_sym(arr):
                    return emap(lambda e: sym.trunc(S.of(e)), arr)
                return real(lower(arr) if arr.dtype == object else arr, dtype=int)
            if dtype is bool:
                arr = _list_arr(x) if not isinstance(x, np.ndarray) else x
                return emap(bool, arr).astype(bool) if arr.ndim else bool(arr[()])
            if has_sym(x):
                if isinstance(x, np.ndarray):
                    return x if real is np.asarray else x.copy()
                if type(x).__module__.startswith("pandas"):
                    return x.to_numpy() if real is np.asarray else x.to_numpy().copy()
                return np.array(x, dtype=object)
            if dtype is not None:
                return real(x, dtype, *a, **k)
            out = real(x, *a, **k)
            if out.dtype.kind == "f":
                return lift(out)
            return out
        return f

    def _list_arr(x):
        if isinstance(x, (S, B)):
            a = np.empty((), dtype=object)
            a[()] = x
            return a
        if isinstance(x, (list, tuple)):
            if has_sym(x) or any(isinstance(e, np.ndarray) and e.dtype == object for e in x):
                a = np.array([(_oarr(e) if not isnum(e) else e) for e in x], dtype=object) if len(x) else np.array([])
                if a.dtype == object:
                    # ragged input shows up as arrays inside the object array
                    if any(isinstance(e, (np.ndarray, list)) and np.asarray(e, dtype=object).ndim for e in a.ravel()):
                        raise ValueError("setting an array element with a sequence. inhomogeneous shape")
                    a = emap(lambda e: e[()] if isinstance(e, np.ndarray) else e, a) if a.ndim else a
                return a
            return np.array(x)
        if type(x).__module__.startswith("pandas"):
            return x.to_numpy()
        if hasattr(x, "__array__"):
            return x.__array__()
        return np.asarray(x)

    ns["asarray"] = _conv(np.asarray)
    ns["array"] = _conv(np.array)
    ns["asanyarray"] = _conv(np.asarray)
    ns["ascontiguousarray"] = _conv(np.asarray)
    ns["asfarray"] = lambda x, dtype=None: ns["asarray"](x, float)
    ns["asarray_chkfinite"] = lambda x, dtype=None: ns["asarray"](x, dtype)

    def _filled(shape, v):
        out = np.empty(shape, dtype=object)
        out.fill(v)
        return out

    def _fdt(dtype):
        return dtype is None or _isfloat(dtype)

    def _mk(name, v):
        real = getattr(np, name)

        def f(shape, dtype=None, *a, **k):
            if _fdt(dtype):
                if isinstance(shape, S):
                    shape = int(shape)
                return _filled(shape, S(v))
            if dtype is Int:
                dtype = int
            return real(shape, dtype, *a, **k)
        ns[name] = f
        reall = getattr(np, name + "_like")

        def fl(x, dtype=None, shape=None, **k):
            x = _oarr(x)
            if dtype is None and x.dtype.kind not in "fO":
                return reall(x)
            if dtype is None or _isfloat(dtype):
                return _filled(shape if shape is not None else x.shape, S(v))
            return reall(x, dtype=dtype)
        ns[name + "_like"] = fl
    _mk("zeros", 0)
    _mk("ones", 1)
    _mk("empty", 0)

    def full(shape, v, dtype=None, **k):
        if isinstance(v, (bool, np.bool_, str)) or dtype in (bool, int, Int, object):
            if dtype in (int, Int):
                return np.full(shape, v, dtype=int)
            return np.full(shape, v, dtype=dtype)
        if isinstance(v, int) and dtype is None:
            return np.full(shape, v)
        out = np.empty(shape, dtype=object)
        out[...] = lift(_oarr(v)) if not isinstance(v, (S,)) and np.ndim(v) else lift_elem(v)
        return out
    reg(full)

    def full_like(x, v, dtype=None, **k):
        x = _oarr(x)
        if dtype is None and x.dtype.kind in "ib":
            dtype = x.dtype
            return np.full_like(x, v)
        return full(x.shape, v, dtype)
    reg(full_like)

    def eye(n, m=None, k=0, dtype=None, **kw):
        if dtype is not None and not _isfloat(dtype):
            return np.eye(n, m, k, dtype=int if dtype is Int else dtype)
        return lift(np.eye(n, m, k))
    reg(eye)
    ns["identity"] = lambda n, dtype=None: eye(n, dtype=dtype)

    def linspace(a, b, num=50, endpoint=True, **k):
        num = int(num)
        a, b = S.of(a), S.of(b)
        div = (num - 1) if endpoint else num
        out = np.empty(num, dtype=object)
        for i in range(num):
            if endpoint and i == num - 1 and num > 1:
                out[i] = b
            else:
                out[i] = a + (b - a) * (Fraction(i, div) if div else 0)
        return out
    reg(linspace)

    def arange(*a, dtype=None, **k):
        a = [int(x) if isinstance(x, S) and x.c is not None and x.c.denominator == 1 else x for x in a]
        if has_sym(list(a)) :
            raise sym.Unsupported("arange over symbolic bounds")
        r = np.arange(*a, **k)
        if _isfloat(dtype) or r.dtype.kind == "f":
            return lift(r)
        return r
    reg(arange)

    def diag(v, k=0):
        v = _oarr(v)
        if v.ndim == 1 and v.dtype == object:
            n = v.size + abs(k)
            out = _filled((n, n), S(0))
            for i in range(v.size):
                out[i + max(0, -k), i + max(0, k)] = v[i]
            return out
        return np.diag(v, k)
    reg(diag)
    ns["diagflat"] = lambda v, k=0: diag(_oarr(v).ravel(), k)

    # ---- elementwise ------------------------------------------------------
    for nm, fs in dict(sqrt=sym.sqrt, exp=sym.exp, log=sym.log, floor=sym.floor,
                       ceil=lambda x: x.ceil(), rint=lambda x: x.rint(), trunc=sym.trunc,
                       abs=abs, absolute=abs, fabs=abs, sign=lambda x: x.sign(),
                       square=lambda x: x * x, reciprocal=lambda x: 1 / x, negative=lambda x: -x,
                       expm1=lambda x: sym.exp(x) - 1, log1p=lambda x: sym.log(1 + x),
                       # angles: constants only (float() of a symbolic value is refused)
                       cos=lambda x: S(float(np.cos(float(x)))), sin=lambda x: S(float(np.sin(float(x))))).items():
        ns[nm] = _unary(nm, fs)
    ns["round"] = ns["around"] = lambda x, decimals=0: emap(lambda e: round(S.of(e), decimals) if decimals else S.of(e).rint(), x) if has_sym(x) else np.round(x, decimals)

    def isfinite(x):
        return _boolmap(lambda e: True if isinstance(e, (S, B)) else bool(np.isfinite(float(e))), x)
    reg(isfinite)
    ns["isnan"] = lambda x: _boolmap(lambda e: False if isinstance(e, (S, B)) else bool(np.isnan(float(e))), x)
    ns["isinf"] = lambda x: _boolmap(lambda e: False if isinstance(e, (S, B)) else bool(np.isinf(float(e))), x)

    def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
        def g(e):
            if isinstance(e, (S, B)):
                return e
            return S(float(np.nan_to_num(float(e), nan=nan, posinf=posinf, neginf=neginf)))
        r = emap(g, x)
        if not copy and isinstance(x, np.ndarray):
            if x.dtype == object:
                x[...] = r
                return x
        return r
    reg(nan_to_num)

    def _bin(name, f):
        real = getattr(np, name)

        def g(a, b, *r, **k):
            if has_sym(a) or has_sym(b):
                out = k.get("out")
                def h(x, y):
                    if isinstance(x, float) and math.isnan(x):
                        return x
                    if isinstance(y, float) and math.isnan(y):
                        return y
                    return f(x, y)
                res = emap(h, a, b)
                if out is not None:
                    out[...] = res
                    return out
                return res
            return real(a, b, *r, **k)

        def accumulate(a, axis=0):
            a = _oarr(a)
            if a.dtype != object:
                return real.accumulate(a, axis=axis)
            a2 = np.moveaxis(a, axis, 0)
            out = a2.copy()
            for i in range(1, a2.shape[0]):
                out[i] = emap(f, out[i - 1], a2[i])
            return np.moveaxis(out, 0, axis)

        def reduce(a, axis=0, **k):
            a = _oarr(a)
            if a.dtype != object:
                return real.reduce(a, axis=axis, **k)
            a2 = np.moveaxis(a, axis, 0)
            acc = a2[0]
            for i in range(1, a2.shape[0]):
                acc = emap(f, acc, a2[i])
            return acc
        g.accumulate, g.reduce = accumulate, reduce
        g.at = getattr(real, "at", None)
        g.outer = getattr(real, "outer", None)
        g.__name__ = name
        ns[name] = g
    _bin("maximum", smax)
    _bin("minimum", smin)
    _bin("fmax", smax)
    _bin("fmin", smin)

    def clip(a, a_min=None, a_max=None, out=None, **k):
        a_min = k.get("min", a_min)
        a_max = k.get("max", a_max)
        r = a
        if a_min is not None:
            r = ns["maximum"](r, a_min)
        if a_max is not None:
            r = ns["minimum"](r, a_max)
        if out is not None:
            out[...] = r
            return out
        return r.copy() if r is a and isinstance(r, np.ndarray) else r
    reg(clip)

    def where(c, *ab):
        if not ab:
            c = _oarr(c)
            if c.dtype == object:
                c = emap(bool, c).astype(bool)
            return np.where(c)
        a, b = ab
        if has_sym(c) or has_sym(a) or has_sym(b):
            def h(x, y, z):
                if isinstance(x, (B,)):
                    return ite(x, y, z)
                return y if x else z
            return emap(h, c, a, b)
        return np.where(c, a, b)
    reg(where)

    def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        def h(x, y):
            if not isinstance(x, S) and not isinstance(y, S):
                return bool(np.isclose(float(x), float(y), rtol=rtol, atol=atol, equal_nan=equal_nan))
            if isinstance(x, float) and not math.isfinite(x) or isinstance(y, float) and not math.isfinite(y):
                return False
            x, y = S.of(x), S.of(y)
            return bool(abs(x - y) <= S.of(atol) + S.of(rtol) * abs(y))
        r = emap(h, a, b)
        return r.astype(bool) if isinstance(r, np.ndarray) else r
    reg(isclose)
    ns["allclose"] = lambda a, b, rtol=1e-5, atol=1e-8, equal_nan=False: bool(np.all(isclose(a, b, rtol, atol, equal_nan)))
    ns["array_equal"] = lambda a, b, **k: _oarr(a).shape == _oarr(b).shape and bool(np.all(_boolmap(bool, _oarr(_oarr(a) == _oarr(b)))))
    ns["array_equiv"] = ns["array_equal"]

    # ---- reductions ------------------------------------------------------------
    def _axis_reduce(f):
        def g(a, axis=None, keepdims=False, **k):
            a = _oarr(a)
            if axis is None:
                v = f(list(a.reshape(-1)))
                if keepdims:
                    out = np.empty((1,) * a.ndim, dtype=object)
                    out[...] = v
                    return out
                return v
            if isinstance(axis, tuple):
                axes = sorted(x % a.ndim for x in axis)
                moved = np.moveaxis(a, axes, range(a.ndim - len(axes), a.ndim))
                moved = moved.reshape(moved.shape[: a.ndim - len(axes)] + (-1,))
                return g(moved, axis=-1)
            m = np.moveaxis(a, axis, -1)
            out = np.empty(m.shape[:-1], dtype=object)
            for idx in np.ndindex(*m.shape[:-1]):
                out[idx] = f(list(m[idx]))
            if keepdims:
                out = np.expand_dims(out, axis)
            return out if out.ndim else out[()]
        return g

    def _red(name, f):
        real = getattr(np, name)
        g = _axis_reduce(f)

        def h(a, axis=None, *r, **k):
            if type(a).__module__.startswith("pandas") and has_sym(a):
                a = a.to_numpy()
            if has_sym(a) or (isinstance(a, np.ndarray) and a.dtype == object):
                k.pop("dtype", None); k.pop("out", None)
                k = {q: v for q, v in k.items() if v is not np._NoValue}
                return g(a, axis=axis, **{q: v for q, v in k.items() if q in ("keepdims",)})
            return real(a, axis, *r, **k)
        h.__name__ = name
        ns[name] = h
        return h

    def fsum(xs):
        t = S(0)
        for x in xs:
            t = t + x
        return t

    def fprod(xs):
        t = S(1)
        for x in xs:
            t = t * x
        return t

    def fmean(xs):
        return fsum(xs) / len(xs) if xs else math.nan

    def fmax(xs):
        if not xs:
            raise ValueError("zero-size array to reduction operation maximum which has no identity")
        m = xs[0]
        for x in xs[1:]:
            m = smax(m, x)
        return m

    def fmin(xs):
        if not xs:
            raise ValueError("zero-size array to reduction operation minimum which has no identity")
        m = xs[0]
        for x in xs[1:]:
            m = smin(m, x)
        return m

    def argbest(xs, better):
        if not xs:
            raise ValueError("attempt to get argmax of an empty sequence")
        for i, x in enumerate(xs):
            if isinstance(x, float) and math.isnan(x):
                return i
        j = 0
        for i in range(1, len(xs)):
            if bool(better(S.of(xs[i]) if not sym._special(xs[i]) else xs[i], xs[j])):
                j = i
        return j

    _red("sum", fsum)
    _red("nansum", lambda xs: fsum([x for x in xs if not (isinstance(x, float) and math.isnan(x))]))
    _red("prod", fprod)
    _red("mean", fmean)
    _red("nanmean", lambda xs: fmean([x for x in xs if not (isinstance(x, float) and math.isnan(x))]))
    _red("max", fmax)
    _red("min", fmin)
    _red("nanmax", lambda xs: fmax([x for x in xs if not (isinstance(x, float) and math.isnan(x))]))
    _red("nanmin", lambda xs: fmin([x for x in xs if not (isinstance(x, float) and math.isnan(x))]))
    ns["amax"], ns["amin"] = ns["max"], ns["min"]

    def _lt(a, b):
        if sym._special(a) or sym._special(b):
            return float(a if sym._special(a) else 0) < float(b if sym._special(b) else 0)
        return S.of(a) < b

    def _arg(name, better):
        g = _axis_reduce(lambda xs: argbest(xs, better))
        real = getattr(np, name)

        def h(a, axis=None, **k):
            if type(a).__module__.startswith("pandas"):
                a = a.to_numpy()
            if has_sym(a) or (isinstance(a, np.ndarray) and a.dtype == object):
                r = g(a, axis=axis)
                return r.astype(int) if isinstance(r, np.ndarray) else r
            return real(a, axis=axis, **k)
        h.__name__ = name
        ns[name] = h
    _arg("argmax", lambda a, b: _lt(b, a))
    _arg("argmin", lambda a, b: _lt(a, b))

    def _var(a, axis, ddof, keepdims=False):
        a = _oarr(a)
        m = ns["mean"](a, axis=axis, keepdims=True) if axis is not None else fmean(list(a.ravel()))
        d = a - m
        n = a.size if axis is None else a.shape[axis]
        return ns["sum"](d * d, axis=axis, keepdims=keepdims) / (n - ddof) if n - ddof else math.nan

    def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return _var(a, axis, ddof, keepdims) if has_sym(a) else np.var(a, axis=axis, ddof=ddof)
    reg(var)

    def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return ns["sqrt"](_var(a, axis, ddof, keepdims)) if has_sym(a) else np.std(a, axis=axis, ddof=ddof)
    reg(std)

    def cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, **k):
        if not has_sym(m) and not has_sym(aweights):
            return np.cov(lower(_oarr(m)), y, rowvar, bias, ddof, fweights, aweights)
        X = lift(_oarr(m))
        if X.ndim == 1:
            X = X[None, :]
        elif not rowvar:
            X = X.T
        if y is not None:
            Y = lift(_oarr(y))
            X = np.vstack([X, Y[None, :] if Y.ndim == 1 else (Y if rowvar else Y.T)])
        if ddof is None:
            ddof = 0 if bias else 1
        n = X.shape[1]
        w = None
        if aweights is not None:
            w = lift(_oarr(aweights))
        if w is None:
            mean = ns["sum"](X, axis=1) / n
            fact = S(n - ddof)
            D = X - mean[:, None]
            c = D @ D.T
        else:
            v1 = ns["sum"](w)
            mean = (X * w).sum(axis=1) / v1
            D = X - mean[:, None]
            fact = v1 if ddof == 0 else v1 - ddof * ns["sum"](w * w) / v1
            c = (D * w) @ D.T
        c = c / fact
        return c if c.shape != (1, 1) else c.reshape(())[()]
    reg(cov)

    def corrcoef(x, rowvar=True, **k):
        c = _oarr(cov(x, rowvar=rowvar))
        if c.ndim == 0:
            return S(1)
        d = ns["sqrt"](np.diag(c))
        return c / np.outer(d, d)
    reg(corrcoef)

    def _qsorted(xs, q):
        xs = list(np.sort(np.array(xs, dtype=object)))
        n = len(xs)
        q = S.of(q)
        pos = q * (n - 1)
        if pos.c is None:
            lo = pos.floor()
            i = sym.concretise_int(lo)
        else:
            i = math.floor(pos.c)
        i = min(max(i, 0), n - 1)
        if i >= n - 1:
            return xs[n - 1]
        return xs[i] + (pos - i) * (xs[i + 1] - xs[i])

    def quantile(a, q, axis=None, **k):
        if k.get("method", "linear") != "linear" and has_sym(a):
            raise sym.Unsupported("quantile method")
        if not has_sym(a) and not has_sym(q):
            la, lq = lower(_oarr(a)), lower(_oarr(q))
            return np.quantile(la, lq, axis=axis, **k)
        qa = _oarr(q)
        if qa.ndim:
            return np.array([quantile(a, e, axis) for e in qa], dtype=object)
        return _axis_reduce(lambda xs: _qsorted(xs, qa[()]))(a, axis=axis)
    reg(quantile)
    ns["percentile"] = lambda a, q, axis=None, **k: quantile(a, _oarr(q) / 100 if np.ndim(q) else S.of(q) / 100, axis, **k)
    ns["nanquantile"] = quantile
    ns["median"] = lambda a, axis=None, **k: quantile(a, S(Fraction(1, 2)), axis) if has_sym(a) else np.median(a, axis=axis, **k)

    def average(a, axis=None, weights=None, **k):
        if not has_sym(a) and not has_sym(weights):
            return np.average(a, axis=axis, weights=weights, **k)
        a = _oarr(a)
        if weights is None:
            return ns["mean"](a, axis=axis)
        w = lift(_oarr(weights))
        if w.shape != a.shape:
            sh = [1] * a.ndim
            sh[axis] = -1
            w = w.reshape(sh)
        return ns["sum"](a * w, axis=axis) / ns["sum"](w * np.ones(a.shape, dtype=object), axis=axis)
    reg(average)

    def any_(a, axis=None, **k):
        a = _oarr(a)
        if a.dtype != object:
            return np.any(a, axis=axis, **k)
        g = _axis_reduce(lambda xs: bool(bor(*[x if isinstance(x, (B, bool, np.bool_)) else (S.of(x) != 0 if S.of(x) is not None else bool(x)) for x in xs])))
        return g(a, axis=axis)

    def all_(a, axis=None, **k):
        a = _oarr(a)
        if a.dtype != object:
            return np.all(a, axis=axis, **k)
        g = _axis_reduce(lambda xs: bool(band(*[x if isinstance(x, (B, bool, np.bool_)) else (S.of(x) != 0 if S.of(x) is not None else bool(x)) for x in xs])))
        return g(a, axis=axis)
    ns["any"], ns["all"] = any_, all_
    ns["count_nonzero"] = lambda a, axis=None, **k: np.count_nonzero(_boolmap(bool, a) if _oarr(a).dtype == object else a, axis=axis)

    def cumsum(a, axis=None, **k):
        a = _oarr(a)
        if a.dtype == object and axis is None:
            a = a.ravel()
        return np.cumsum(a, axis=axis)
    reg(cumsum)

    def interp(x, xp, fp, left=None, right=None, period=None):
        if not has_sym(x) and not has_sym(xp) and not has_sym(fp):
            g = [lower(_oarr(v)) for v in (x, xp, fp)]
            return np.interp(*g, left=left, right=right)
        xp, fp = lift(_oarr(xp)), lift(_oarr(fp))

        def one(v):
            if bool(S.of(v) < xp[0]):
                return fp[0] if left is None else left
            if bool(S.of(v) >= xp[-1]):
                return fp[-1] if right is None or bool(S.of(v) == xp[-1]) else right
            for i in range(len(xp) - 1):
                if bool(S.of(v) < xp[i + 1]):
                    if bool(xp[i] == v):
                        return fp[i]
                    return fp[i] + (fp[i + 1] - fp[i]) * (v - xp[i]) / (xp[i + 1] - xp[i])
        return emap(one, x)
    reg(interp)

    def searchsorted(a, v, side="left", sorter=None):
        a = _oarr(a)
        if not has_sym(a) and not has_sym(v):
            la, lv = lower(a), lower(_oarr(v))
            return np.searchsorted(la, lv, side=side, sorter=sorter)
        if sorter is not None:
            a = a[np.asarray(sorter)]

        def one(x):
            n = 0
            for e in a:      # monotone scan: first position where the order flips
                c = (S.of(e) < x) if side == "left" else (S.of(e) <= x)
                if not bool(c):
                    break
                n += 1
            return n
        r = emap(one, v)
        return r.astype(int) if isinstance(r, np.ndarray) else r
    reg(searchsorted)

    def einsum(spec, *ops, **k):
        ops = [_oarr(o) for o in ops]
        if not any(o.dtype == object for o in ops):
            return np.einsum(spec, *ops)
        spec = spec.replace(" ", "")
        lhs, _, rhs = spec.partition("->")
        ins = lhs.split(",")
        if "->" not in spec:
            cnt = "".join(ins)
            rhs = "".join(sorted(c for c in set(cnt) if cnt.count(c) == 1))
        dims = {}
        for s_, o in zip(ins, ops):
            for c, d in zip(s_, o.shape):
                dims[c] = d
        summed = [c for c in dims if c not in rhs]
        out = _filled(tuple(dims[c] for c in rhs), S(0))
        for oi in np.ndindex(*[dims[c] for c in rhs]):
            env = dict(zip(rhs, oi))
            acc = S(0)
            for si in np.ndindex(*[dims[c] for c in summed]):
                env.update(zip(summed, si))
                term = S(1)
                for s_, o in zip(ins, ops):
                    term = term * o[tuple(env[c] for c in s_)]
                acc = acc + term
            out[oi] = acc
        return out if out.ndim else out[()]
    reg(einsum)

    ns["outer"] = lambda a, b, **k: emap(lambda x, y: x * y, _oarr(a).ravel()[:, None], _oarr(b).ravel()[None, :]) if has_sym(a) or has_sym(b) else np.outer(a, b)
    ns["trace"] = lambda a, *r, **k: fsum(list(np.diagonal(_oarr(a)))) if _oarr(a).dtype == object else np.trace(a)

    def issubdtype(a, b):
        if a == np.dtype(object) and b in (np.number, np.floating, np.inexact):
            return True
        return np.issubdtype(a, b)
    reg(issubdtype)
    ns["isscalar"] = lambda x: isinstance(x, (S, B)) or np.isscalar(x)
    ns["float64"] = Float
    ns["float_"] = Float
    ns["isreal"] = lambda x: True
    ns["iscomplexobj"] = lambda x: False

    def nd(x):
        return 0 if isinstance(x, (S, B)) else np.ndim(x)
    ns["ndim"] = nd
    ns["shape"] = lambda x: () if isinstance(x, (S, B)) else np.shape(_oarr(x))
    ns["size"] = lambda x, axis=None: 1 if isinstance(x, (S, B)) else np.size(_oarr(x), axis)

    def fill_diagonal(a, v, wrap=False):
        for i in range(min(a.shape)):
            a[i, i] = v[i] if np.ndim(v) else v
    reg(fill_diagonal)

    def divide(a, b, out=None, where=True, **k):
        if has_sym(a) or has_sym(b):
            if where is True:
                r = _oarr(a) / _oarr(b)
            else:
                base = out if out is not None else _filled(np.broadcast(_oarr(a), _oarr(b)).shape, S(0))
                r = emap(lambda x, y, w, o: (x / y) if w else o, a, b, where, base)
            if out is not None:
                out[...] = r
                return out
            return r
        return np.divide(a, b, out=out, where=where) if out is not None else np.divide(a, b, where=where)
    ns["divide"] = ns["true_divide"] = divide
    ns["dot"] = lambda a, b: (lift(_oarr(a)) @ lift(_oarr(b))) if (has_sym(a) or has_sym(b)) and _oarr(a).ndim and _oarr(b).ndim else (_oarr(a) * _oarr(b) if has_sym(a) or has_sym(b) else np.dot(a, b))

    def unique(a, **k):
        if has_sym(a):
            raise sym.Unsupported("np.unique on symbolic values")
        return np.unique(a, **k)
    reg(unique)

    def polyfit(*a, **k):
        raise sym.Unsupported("polyfit")
    reg(polyfit)

    def _stack(name):
        real = getattr(np, name)

        def f(arrs, *a, **k):
            arrs = [_oarr(x) for x in arrs]
            return real(arrs, *a, **k)
        ns[name] = f
    for nm in ("vstack", "hstack", "column_stack", "stack", "concatenate"):
        _stack(nm)

    # ---- linalg ------------------------------------------------------------------
    la = types.SimpleNamespace()
    for nm in dir(np.linalg):
        if not nm.startswith("__"):
            setattr(la, nm, _guard(nm, getattr(np.linalg, nm)))

    def norm(x, ord=None, axis=None, keepdims=False):
        if not has_sym(x):
            return np.linalg.norm(lower(_oarr(x)), ord, axis, keepdims)
        x = _oarr(x)
        if ord in (None, 2, "fro") and (axis is not None or x.ndim == 1 or ord != 2):
            q = ns["sum"](x * x, axis=axis, keepdims=keepdims)
            return sym.sqrt(q, True) if not isinstance(q, np.ndarray) else ns["sqrt"](q)
        if ord == 1 and x.ndim == 1:
            return ns["sum"](ns["abs"](x))
        if ord == np.inf and x.ndim == 1:
            return ns["max"](ns["abs"](x))
        raise sym.Unsupported(f"norm ord={ord}")
    la.norm = norm

    def _sq(a):
        a = lift(_oarr(a))
        if a.ndim != 2 or a.shape[0] != a.shape[1]:
            raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
        return a

    def det(a):
        a = _sq(a)
        n = a.shape[0]
        if n == 1:
            return a[0, 0]
        if n == 2:
            return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
        t = S(0)
        for j in range(n):
            m = np.delete(np.delete(a, 0, 0), j, 1)
            t = t + (-1) ** j * a[0, j] * det(m)
        return t
    la.det = det

    def adj(a):
        n = a.shape[0]
        if n == 1:
            return _filled((1, 1), S(1))
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                out[j, i] = (-1) ** (i + j) * det(np.delete(np.delete(a, i, 0), j, 1))
        return out

    def inv(a):
        from . import facades
        if "inv" in facades.HOOKS:
            return facades.HOOKS["inv"](_sq(a))
        a = _sq(a)
        d = det(a)
        if bool(d == 0):
            raise np.linalg.LinAlgError("Singular matrix")
        return adj(a) / d
    la.inv = inv

    def solve(a, b):
        a = _sq(a)
        return inv(a) @ lift(_oarr(b))
    la.solve = solve
    la.slogdet = lambda a: (lambda d: (d.sign(), sym.log(abs(d))))(S.of(det(a)))

    def pinv(a, *r, **k):
        from . import facades
        if "pinv" in facades.HOOKS:
            return facades.HOOKS["pinv"](lift(_oarr(a)))
        a = lift(_oarr(a))
        if not has_var(a):
            return lift(np.linalg.pinv(lower(a)))
        if a.shape[0] != a.shape[1]:
            raise sym.Unsupported("pinv of a non-square symbolic matrix")
        try:
            return inv(a)
        except np.linalg.LinAlgError:
            raise sym.Unsupported("pinv of a singular symbolic matrix")
    la.pinv = pinv

    def cholesky(a, *r, upper=False, **k):
        a = _sq(a)
        n = a.shape[0]
        L = _filled((n, n), S(0))
        for j in range(n):
            d = a[j, j]
            for k_ in range(j):
                d = d - L[j, k_] * L[j, k_]
            if not bool(d > 0):
                raise np.linalg.LinAlgError("Matrix is not positive definite")
            L[j, j] = sym.sqrt(d)
            for i in range(j + 1, n):
                t = a[i, j]
                for k_ in range(j):
                    t = t - L[i, k_] * L[j, k_]
                L[i, j] = t / L[j, j]
        return L.T.copy() if upper else L
    la.cholesky = cholesky

    def _eigh(a, vals_only=False):
        a = _sq(a)
        n = a.shape[0]
        if not has_var(a):
            w, v = np.linalg.eigh(lower(a))
            return lift(w), lift(v)
        # symmetric part as LAPACK reads it (lower triangle)
        m = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                m[i, j] = a[max(i, j), min(i, j)]
        # nondeterministic stub: any orthonormal eigendecomposition, eigenvalues ascending
        w = np.array([sym.fresh("eig") for _ in range(n)], dtype=object)
        for i in range(n - 1):
            sym.side(w[i].t <= w[i + 1].t)
        tr = fsum(list(np.diagonal(m)))
        sym.side((fsum(list(w)) == tr).t if isinstance(fsum(list(w)) == tr, B) else True)
        v = np.array([[sym.fresh("vec") for _ in range(n)] for _ in range(n)], dtype=object)
        for i in range(n):
            for j in range(i, n):
                o = fsum([v[k, i] * v[k, j] for k in range(n)])
                sym.side(o.t == (1 if i == j else 0))
                o2 = fsum([v[i, k] * v[j, k] for k in range(n)])
                sym.side(o2.t == (1 if i == j else 0))
        rec = (v * w) @ v.T
        for i in range(n):
            for j in range(i, n):
                sym.side(rec[i, j].t == m[i, j].t)
        sym.NOTES.add("eigh is a stub: any orthonormal eigendecomposition in ascending order")
        return w, v
    def eigh(a, *r, **k):
        from . import facades
        return facades.HOOKS["eigh"](a) if "eigh" in facades.HOOKS else _eigh(a)
    la.eigh = eigh

    def cond(a, p=None):
        from . import facades
        if "cond" in facades.HOOKS:
            return facades.HOOKS["cond"](a)
        if not has_var(a):
            return S(float(np.linalg.cond(lower(_oarr(a)), p)))
        c = sym.fresh("cond")
        sym.side(c.t >= 1)
        sym.NOTES.add("cond is a stub: any number >= 1")
        return c
    la.cond = cond

    def eigvalsh(a, *r, **k):
        from . import facades
        if "eigvalsh" in facades.HOOKS:
            return facades.HOOKS["eigvalsh"](a)
        a = _sq(a)
        n = a.shape[0]
        if not has_var(a):
            return _eigh(a)[0]
        m = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                m[i, j] = a[max(i, j), min(i, j)]
        if n == 1:
            return np.array([m[0, 0]], dtype=object)
        if n == 2:
            h = (m[0, 0] + m[1, 1]) / 2
            d = (m[0, 0] - m[1, 1]) / 2
            q = sym.sqrt(d * d + m[0, 1] * m[0, 1])
            return np.array([h - q, h + q], dtype=object)
        w = np.array([sym.fresh("eig") for _ in range(n)], dtype=object)
        for i in range(n - 1):
            sym.side(w[i].t <= w[i + 1].t)
        import itertools
        for k_ in range(1, n + 1):
            e = fsum([_prod([w[i] for i in c]) for c in itertools.combinations(range(n), k_)])
            mm = fsum([det(m[np.ix_(c, c)]) for c in itertools.combinations(range(n), k_)])
            sym.side(S.of(e).t == S.of(mm).t)
        return w

    def _prod(xs):
        t = S(1)
        for x in xs:
            t = t * x
        return t
    la.eigvalsh = eigvalsh
    la.eigvals = eigvalsh

    def has_var(a):
        return any(isinstance(e, S) and e.c is None for e in np.asarray(a).ravel())
    la.matrix_power = lambda a, n: _mp(a, n)

    def _mp(a, n):
        r = eye(a.shape[0])
        for _ in range(n):
            r = r @ a
        return r
    la.LinAlgError = np.linalg.LinAlgError

    rnd = types.SimpleNamespace()
    for nm in dir(np.random):
        if not nm.startswith("__"):
            setattr(rnd, nm, getattr(np.random, nm))

    def default_rng(seed=None):
        from . import facades
        f = facades.HOOKS.get("rng")
        return f(seed) if f is not None else np.random.default_rng(seed)
    rnd.default_rng = default_rng

    mod = _Facade(ns, la, rnd)
    return mod


def _guard(name, real):
    if not callable(real) or isinstance(real, type):
        return real

    def f(*a, **k):
        if any(has_sym(x) for x in a):
            lo = [lower(_oarr(x)) if has_sym(x) else x for x in a]
            if any(x is None for x in lo):
                raise sym.Unsupported(f"numpy.linalg.{name} on symbolic values")
            a = lo
        return real(*a, **k)
    return f


class _Facade(types.ModuleType):
    def __init__(self, ns, la, rnd):
        super().__init__("numpy")
        self.__dict__.update(ns)
        self.__dict__["linalg"] = la
        self.__dict__["random"] = rnd
        self.__path__ = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(np, name)
