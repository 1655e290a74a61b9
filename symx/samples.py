"""Samples as abstract vectors.

A variable's sample is `centred part + mean * 1`.  What the code can compute from samples
(means, products, norms, covariances, least squares fits) depends only on the means, the
inner products of the centred parts (the covariance matrix) and the sample size, which
are symbolic reals.  Sums, differences and multiples stay vectors; anything else raises
Unsupported."""
from __future__ import annotations

import itertools
import math

import numpy as np
import z3

from . import core, symmath
from .core import SymInt, SymReal, Unsupported, to_real
from .symtensor import SymTensor, TorchShim, _obj

ONE = "1"


class Space:
    """cov(a, b): covariance (divisor n) of two variables; mean(a); n: sample size"""

    def __init__(self, n, cov, mean):
        self.n, self._cov, self._mean = n, cov, mean

    def var(self, a):
        return Vec(self, {a: 1, ONE: self._mean(a)})

    def dot(self, x, y):
        """<x, y> / n"""
        r = 0
        for a, c in x.co.items():
            for b, d in y.co.items():
                if ONE in (a, b):
                    g = 1 if a == b else 0
                else:
                    g = self._cov(a, b)
                if isinstance(g, (int, float)) and g == 0:
                    continue
                r = r + c * d * g
        return SymReal(core.CANON(r.t)) if isinstance(r, SymReal) else r


def _lin(co):
    return {a: c for a, c in co.items() if not (isinstance(c, (int, float)) and c == 0)}


def scalar(x):
    if isinstance(x, SymTensor) and x.a.size == 1:
        return x.item()
    if isinstance(x, (int, float, SymReal, SymInt)):
        return to_real(x)
    it = getattr(x, "item", None)
    if it is not None and getattr(x, "numel", lambda: 0)() == 1:
        return it()
    return None


class Vec:
    """a sample (1-d tensor of symbolic length), or a column of one"""

    _symx = True

    def __init__(self, space, co, column=False):
        self.space, self.co, self.column = space, _lin(co), column

    @property
    def shape(self):
        return (self.space.n, 1) if self.column else (self.space.n,)

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def numel(self):
        return self.space.n

    def dim(self):
        return len(self.shape)

    ndim = property(dim)

    def __len__(self):
        raise Unsupported("len() of a sample of symbolic size")

    def _same(self, *a, **k):
        return self

    double = float = detach = clone = contiguous = to = _same

    def view(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        if tuple(s) == (-1, 1) or (len(s) == 2 and s[1] == 1):
            return Vec(self.space, self.co, True)
        if tuple(s) == (-1,):
            return Vec(self.space, self.co)
        raise Unsupported("view of a sample")

    reshape = view

    def unsqueeze(self, d):
        if d in (1, -1):
            return Vec(self.space, self.co, True)
        raise Unsupported("unsqueeze of a sample")

    def squeeze(self, d=None):
        return Vec(self.space, self.co)

    def flatten(self):
        return Vec(self.space, self.co)

    def _comb(self, o, k, swap=False):
        if isinstance(o, Vec):
            if o.column != self.column:
                raise Unsupported("broadcast of samples")
            co = {a: c * (-1 if swap else 1) for a, c in self.co.items()} if swap else dict(self.co)
            for a, c in o.co.items():
                co[a] = co.get(a, 0) + (c if swap else k * c)
            return Vec(self.space, co, self.column)
        s = scalar(o)
        if s is None:
            return NotImplemented
        co = {a: (-c if swap else c) for a, c in self.co.items()}
        co[ONE] = co.get(ONE, 0) + (s if swap else k * s)
        return Vec(self.space, co, self.column)

    def __add__(self, o):
        return self._comb(o, 1)

    def __radd__(self, o):
        return self._comb(o, 1)

    def __sub__(self, o):
        return self._comb(o, -1)

    def __rsub__(self, o):
        return self._comb(o, -1, True)

    def __neg__(self):
        return Vec(self.space, {a: -c for a, c in self.co.items()}, self.column)

    def __mul__(self, o):
        if isinstance(o, Vec):
            return Product(self, o)
        s = scalar(o)
        if s is None:
            return NotImplemented
        return Vec(self.space, {a: c * s for a, c in self.co.items()}, self.column)

    __rmul__ = __mul__

    def __truediv__(self, o):
        s = scalar(o)
        if s is None:
            return NotImplemented
        return Vec(self.space, {a: c / s for a, c in self.co.items()}, self.column)

    def __pow__(self, k):
        if k == 2:
            return Product(self, self)
        raise Unsupported("power of a sample")

    def square(self):
        return Product(self, self)

    def mean(self, dim=None, **k):
        return SymTensor(self.co.get(ONE, 0.0))

    def sum(self, dim=None, **k):
        return SymTensor(self.co.get(ONE, 0.0) * to_real(self.space.n))

    def centred(self):
        return Vec(self.space, {a: c for a, c in self.co.items() if a != ONE}, self.column)

    def var(self, dim=None, unbiased=True, correction=None, **k):
        c = (1 if unbiased else 0) if correction is None else correction
        x = self.centred()
        n = to_real(self.space.n)
        v = self.space.dot(x, x)
        return SymTensor(v if c == 0 else v * n / (n - c))

    def std(self, dim=None, unbiased=True, correction=None, **k):
        return self.var(dim, unbiased, correction).sqrt()

    def norm(self, *a, **k):
        return SymTensor(symmath.sqrt(self.space.dot(self, self) * to_real(self.space.n)))

    def dot(self, o):
        return Product(self, o).sum()


class Product:
    """elementwise product of two samples"""

    _symx = True

    def __init__(self, x, y):
        self.x, self.y = x, y

    def mean(self, dim=None, **k):
        return SymTensor(self.x.space.dot(self.x, self.y))

    def sum(self, dim=None, **k):
        return SymTensor(self.x.space.dot(self.x, self.y) * to_real(self.x.space.n))


class Stack:
    """matrix whose rows (cols=False) or columns are samples"""

    _symx = True

    def __init__(self, vs, cols=False):
        self.vs, self.cols = list(vs), cols
        self.space = self.vs[0].space

    @property
    def T(self):
        return Stack(self.vs, not self.cols)

    def t(self):
        return self.T

    def transpose(self, a, b):
        return self.T

    @property
    def shape(self):
        n = self.space.n
        return (n, len(self.vs)) if self.cols else (len(self.vs), n)

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def _same(self, *a, **k):
        return self

    double = float = detach = clone = contiguous = to = _same

    def mean(self, dim=None, keepdim=False, **k):
        if dim is None or (dim % 2 == 0) != self.cols:
            raise Unsupported("mean across variables")
        return Means(self, keepdim)

    def __getitem__(self, i):
        if self.cols or not isinstance(i, int):
            raise Unsupported("indexing a sample matrix")
        return self.vs[i]

    def __len__(self):
        if self.cols:
            raise Unsupported("len() of a sample of symbolic size")
        return len(self.vs)

    def __iter__(self):
        if self.cols:
            raise Unsupported("iterating observations")
        return iter(self.vs)

    def __sub__(self, o):
        if isinstance(o, Means) and o.of is not None and len(o.of.vs) == len(self.vs):
            # (k,) broadcasts along rows of an (n, k) matrix; (k, 1) along an (k, n) one
            if self.cols or o.keepdim:
                return Stack([v - m for v, m in zip(self.vs, o.values())], self.cols)
        if isinstance(o, Stack) and o.cols == self.cols and len(o.vs) == len(self.vs):
            return Stack([v - w for v, w in zip(self.vs, o.vs)], self.cols)
        raise Unsupported("difference of sample matrices")


class Means:
    _symx = True

    def __init__(self, of, keepdim):
        self.of, self.keepdim = of, keepdim

    def values(self):
        return [v.mean() for v in self.of.vs]

    def unsqueeze(self, d):
        return Means(self.of, True)

    def view(self, *s):
        return Means(self.of, True)

    reshape = view


def det(M):
    """Laplace expansion"""
    n = len(M)
    if n == 1:
        return M[0][0]
    r = 0
    for j in range(n):
        if isinstance(M[0][j], (int, float)) and M[0][j] == 0:
            continue
        minor = [row[:j] + row[j + 1:] for row in M[1:]]
        r = r + (1 if j % 2 == 0 else -1) * M[0][j] * det(minor)
    return r


def fit(space, xs, y):
    """least squares coefficients of y on the vectors xs (normal equations, Cramer)"""
    G = [[space.dot(a, b) for b in xs] for a in xs]
    g = [space.dot(a, y) for a in xs]
    d = det(G)
    out = []
    for i in range(len(xs)):
        M = [[g[r] if c == i else G[r][c] for c in range(len(xs))] for r in range(len(xs))]
        q = det(M)
        if isinstance(d, SymReal) or isinstance(q, SymReal):
            if not isinstance(d, SymReal):
                out.append(q / d)
            else:
                # the Gram matrix of the fit is invertible (declared by the harness)
                out.append(SymReal(core.CANON((q.t if isinstance(q, SymReal) else core._numterm(q, True)) / d.t)))
        else:
            out.append(q / d)
    return out


class Solution:
    def __init__(self, coefs, as_columns):
        self.solution = SymTensor([[c] for c in coefs] if as_columns else list(coefs))

    def __getitem__(self, i):
        return (self.solution,)[i]


def lstsq(A, B, rcond=None, driver=None, **k):
    if not isinstance(A, Stack) or not A.cols:
        raise Unsupported("least squares with another shape")
    if isinstance(B, Stack) and B.cols and len(B.vs) == 1:
        return Solution(fit(A.space, A.vs, B.vs[0]), True)
    if isinstance(B, Vec):
        return Solution(fit(A.space, A.vs, B), B.column)
    raise Unsupported("least squares with another right hand side")


def matmul(a, b):
    if isinstance(a, SymTensor) and isinstance(b, Stack) and not b.cols and a.a.ndim == 1:
        r = None
        for c, v in zip(a.a, b.vs):
            r = v * c if r is None else r + v * c
        return r
    if isinstance(a, Stack) and a.cols and isinstance(b, SymTensor):
        col = b.a.ndim == 2
        r = None
        for c, v in zip(b.a.reshape(-1), a.vs):
            r = v * c if r is None else r + v * c
        return Vec(a.space, r.co, col)
    if isinstance(a, Vec) and isinstance(b, Vec):
        return a.dot(b)
    if isinstance(a, Stack) and isinstance(b, Stack) and not a.cols and b.cols:
        n = to_real(a.space.n)
        return SymTensor([[a.space.dot(x, y) * n for y in b.vs] for x in a.vs])
    if isinstance(a, Stack) and not a.cols and isinstance(b, Vec):
        n = to_real(a.space.n)
        return SymTensor([a.space.dot(x, b) * n for x in a.vs])
    raise Unsupported("matrix product with samples")


def stack(ts, dim=0):
    if not all(isinstance(t, Vec) and not t.column for t in ts):
        raise Unsupported("stack")
    return Stack(ts, cols=dim in (1, -1))


def cov(s, correction=1, **k):
    if isinstance(s, Stack) and not s.cols:
        n = to_real(s.space.n)
        vs = [v.centred() for v in s.vs]
        out = [[s.space.dot(a, b) * n / (n - correction) if correction else s.space.dot(a, b) for b in vs] for a in vs]
        return SymTensor(out)
    raise Unsupported("cov")


def corrcoef(s):
    c = cov(s, 0)
    k = len(s.vs)
    return SymTensor([[c.a[i, j] / (symmath.sqrt(c.a[i, i]) * symmath.sqrt(c.a[j, j])) for j in range(k)] for i in range(k)])


def _method(name):
    def f(x, *a, **k):
        m = getattr(x, name, None)
        if m is None:
            raise Unsupported(f"{name} of {type(x).__name__}")
        return m(*a, **k)

    return f


def column_stack(ts):
    return Stack([Vec(t.space, t.co) for t in ts], True)


def inverse(m):
    if not isinstance(m, SymTensor):
        raise Unsupported("inverse")
    M = m.a.tolist()
    k = len(M)
    d = det(M)
    out = [[None] * k for _ in range(k)]
    for i in range(k):
        for j in range(k):
            minor = [row[:i] + row[i + 1:] for r, row in enumerate(M) if r != j]
            q = det(minor) if minor else 1
            out[i][j] = (1 if (i + j) % 2 == 0 else -1) * q / d
    return SymTensor(out)


HOOKS = {
    "stack": stack, "column_stack": column_stack, "vstack": lambda ts: stack(ts), "cov": cov, "corrcoef": corrcoef,
    "linalg.lstsq": lstsq, "matmul": matmul, "mm": matmul, "mv": matmul, "dot": lambda a, b: a.dot(b),
    "norm": _method("norm"), "linalg.norm": _method("norm"), "mean": _method("mean"), "sum": _method("sum"),
    "std": _method("std"), "var": _method("var"), "square": _method("square"),
    "det": lambda m: SymTensor(det(m.a.tolist())), "linalg.det": lambda m: SymTensor(det(m.a.tolist())),
    "inverse": inverse, "linalg.inv": inverse, "linalg.pinv": inverse,
    "linalg.solve": lambda A, b: inverse(A).matmul(b),
    "outer": lambda a, b: symmath._unsupported("outer"),
}


def sample_shim():
    return TorchShim(HOOKS, constructors=True)


def sym_len(x):
    if isinstance(x, Vec) or isinstance(x, Stack) and x.cols:
        return x.space.n
    return len(x)


def exact_sample(cov, mean, n, seed=5):
    """n observations (rows) with exactly these means and this covariance (divisor n)"""
    k = len(cov)
    rng = np.random.default_rng(seed)
    Y = rng.normal(size=(n, k))
    Y -= Y.mean(axis=0)
    Q, _ = np.linalg.qr(Y)
    return (Q * math.sqrt(n)) @ np.linalg.cholesky(np.array(cov, dtype=float)).T + np.array(mean, dtype=float)
