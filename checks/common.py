"""Small helpers shared by the property harnesses."""
from fractions import Fraction

import math

import numpy as np
import pandas as pd

from engine.harness import Case, Goal
from engine.sym import S, B, band, bor, bnot, ite, smax, smin, iff, implies
from engine import sym

QUICK = 0


def tot(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def dot(a, b):
    return tot(x * y for x, y in zip(a, b))


def probs(h, T, name="p", positive=True, uniform=False):
    """A probability vector of length T (the last entry is determined)."""
    if uniform:
        return h.const(np.full(T, 1.0 / T)) if not h.symbolic else np.array([S(Fraction(1, T))] * T, dtype=object)
    p = h.reals(name, T - 1, 0, 1)
    last = 1 - tot(p.tolist())
    for x in list(p) + [last]:
        h.assume(x > 0 if positive else x >= 0)
    q = np.empty(T, dtype=object if h.symbolic else float)
    q[:T - 1] = p
    q[T - 1] = last
    return q


def symm(h, name, n, lo=None, hi=None):
    """Symmetric matrix of inputs."""
    a = np.empty((n, n), dtype=object if h.symbolic else float)
    for i in range(n):
        for j in range(i, n):
            a[i, j] = a[j, i] = h.real(f"{name}_{i}_{j}", lo, hi)
    return a


def lower_tri(h, name, n, lo=-2, hi=2, dlo=0.1):
    a = np.zeros((n, n)) if not h.symbolic else np.array([[S(0)] * n for _ in range(n)], dtype=object)
    for i in range(n):
        for j in range(i):
            a[i, j] = h.real(f"{name}_{i}_{j}", lo, hi)
        a[i, i] = h.real(f"{name}_{i}_{i}", dlo, hi)
    return a


def pd_matrix(h, name, n, lo=-2, hi=2, dlo=0.1):
    """Positive definite matrix L L' together with its factor."""
    L = lower_tri(h, name, n, lo, hi, dlo)
    return L @ L.T, L


def raises(fn, exc=Exception):
    """The exception raised by fn, or None."""
    try:
        fn()
    except exc as e:
        return e
    return None


def arr(h, rows):
    return np.array(rows, dtype=object if h.symbolic else float)


def vals(x):
    if hasattr(x, "to_numpy"):
        x = x.to_numpy()
    x = np.asarray(x, dtype=object)
    if not any(isinstance(e, (S, B)) for e in x.reshape(-1)[:1]) and not sym.C.active:
        try:
            return x.astype(float)
        except (TypeError, ValueError):
            pass
    return x


def ex(h, x):
    return sym.exp(S.of(x)) if h.symbolic else math.exp(x)


def lg(h, x):
    return sym.log(S.of(x)) if h.symbolic else math.log(x)


def sq(h, x):
    return sym.sqrt(S.of(x)) if h.symbolic else math.sqrt(max(x, 0.0))


def psd_of(h, name, n, k=None, lo=-2, hi=2):
    """Positive semidefinite matrix A A' with A n x k."""
    A = h.reals(name, (n, k or n), lo, hi)
    return A @ A.T, A


def rot(x):
    """Another order: for three or more entries not its own inverse."""
    x = list(x)
    return x[1:] + x[:1]


def quad(w, M):
    n = len(w)
    return tot(w[i] * M[i, j] * w[j] for i in range(n) for j in range(n))


def frame(data, index=None, columns=None):
    return pd.DataFrame(np.asarray(data), index=index, columns=columns)


def lemma(h, c):
    """A universally true fact handed to the solver (no effect on replay)."""
    if h.symbolic:
        sym.side(sym._bt(c))


class Rng:
    """Stand-in for numpy's Generator: every draw is an arbitrary admissible value.

    choice forks over all index draws; log records (kind, n, size, p, draw)."""

    def __init__(self, h, log=None, tag="draw", script=None):
        self.h, self.log, self.tag, self.k = h, log if log is not None else [], tag, 0
        self.script = script

    def _ints(self, n, size):
        shape = () if size is None else ((size,) if np.ndim(size) == 0 else tuple(int(s) for s in size))
        out = np.empty(shape, dtype=int)
        for ix in np.ndindex(*shape):
            if self.script is not None:
                out[ix] = self.script(self.k, ix)
            else:
                out[ix] = self.h.choose(f"{self.tag}{self.k}_" + "_".join(map(str, ix)), list(range(n)))
        self.k += 1
        return out if shape else int(out)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        n = int(a) if np.ndim(a) == 0 else len(a)
        d = self._ints(n, size)
        self.log.append(("choice", n, size, p, d, bool(replace)))
        return d if np.ndim(a) == 0 else np.asarray(a)[d]

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        n = int(high) - int(low) + (1 if endpoint else 0)
        d = self._ints(n, size)
        self.log.append(("choice", n, size, None, d, True))
        return d + int(low)

    def permutation(self, x):
        import itertools
        n = int(x) if np.ndim(x) == 0 else len(x)
        order = self.h.choose(f"{self.tag}{self.k}_perm", list(itertools.permutations(range(n))))
        self.k += 1
        d = np.array(order, dtype=int)
        self.log.append(("permutation", n, None, None, d))
        return d if np.ndim(x) == 0 else np.asarray(x)[d]

    def shuffle(self, x):
        x[:] = self.permutation(x)

    def standard_normal(self, size=None):
        shape = () if size is None else ((size,) if np.ndim(size) == 0 else tuple(size))
        d = self.h.reals(f"{self.tag}{self.k}_z", shape, -3, 3)
        self.k += 1
        self.log.append(("normal", None, size, None, d))
        return d if shape else d.item()

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self.standard_normal(size) * scale + loc

    def multivariate_normal(self, mean, cov, size=None, **k):
        n = len(np.ravel(mean))
        shape = (n,) if size is None else ((size, n) if np.ndim(size) == 0 else tuple(size) + (n,))
        d = self.h.reals(f"{self.tag}{self.k}_mvn", shape, -3, 3)
        self.k += 1
        self.log.append(("mvn", n, size, (mean, cov), d))
        return d


def tame(h):
    """Covariances take the no-warning branch of the conditioning diagnostics."""
    h.stub("eigvalsh", lambda a: np.array([S(1)] * np.asarray(a).shape[0], dtype=object))
    h.stub("cond", lambda a: S(1))
