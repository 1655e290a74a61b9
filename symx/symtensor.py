"""A stand-in for the parts of torch the code under test uses, over symbolic reals.

SymTensor wraps a numpy object array of floats / SymReals.  TorchShim takes the place
of the module `torch` in the namespace of the code under test: calls whose arguments
are ordinary tensors go to the real torch, calls with symbolic arguments are carried
out here, and a call it has no encoding for raises Unsupported (the path is then
decided on concrete values of that path instead)."""
from __future__ import annotations

import itertools
import math

import numpy as np
import torch as real_torch

from . import core, symmath
from .core import SymInt, SymReal, Unsupported


def _obj(x):
    if isinstance(x, SymTensor):
        return x.a
    if isinstance(x, real_torch.Tensor):
        return np.array(x.tolist(), dtype=object)
    if isinstance(x, (list, tuple)):
        if not x:
            return np.array([], dtype=object)
        parts = [_obj(v) for v in x]
        out = np.empty((len(parts),) + parts[0].shape, dtype=object)
        for i, p in enumerate(parts):
            if p.shape != parts[0].shape:
                raise ValueError("expected sequences of equal length")
            out[i] = p if p.shape else p.item()
        return out
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def _add(xs):
    it = iter(xs)
    r = next(it)
    for v in it:
        r = r + v
    return r


class SymTensor:
    __array_priority__ = 1000

    def __init__(self, a):
        self.a = a if isinstance(a, np.ndarray) else _obj(a)

    # shape -------------------------------------------------------------
    @property
    def shape(self):
        return self.a.shape

    @property
    def ndim(self):
        return self.a.ndim

    def dim(self):
        return self.a.ndim

    def size(self, d=None):
        return self.a.shape if d is None else self.a.shape[d]

    def numel(self):
        return self.a.size

    def nelement(self):
        return self.a.size

    def __len__(self):
        return len(self.a)

    @property
    def T(self):
        return SymTensor(self.a.T)

    def t(self):
        return SymTensor(self.a.T)

    mT = T
    dtype = real_torch.float64
    device = real_torch.device("cpu")

    def _same(self, *a, **k):
        return self

    double = float = detach = cpu = contiguous = to = type = requires_grad_ = _same

    def clone(self, *a, **k):
        return SymTensor(self.a.copy())

    def __deepcopy__(self, memo):
        return self.clone()

    def numpy(self):
        raise Unsupported("numpy() of a symbolic tensor")

    def tolist(self):
        return self.a.tolist()

    def item(self):
        if self.a.size != 1:
            raise ValueError("only one element tensors can be converted to Python scalars")
        return self.a.reshape(-1)[0]

    def reshape(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        return SymTensor(self.a.reshape(s))

    view = reshape

    def unsqueeze(self, d):
        return SymTensor(np.expand_dims(self.a, d))

    def squeeze(self, d=None):
        return SymTensor(np.squeeze(self.a, d))

    def flatten(self):
        return SymTensor(self.a.reshape(-1))

    def __getitem__(self, i):
        if isinstance(i, SymInt):
            i = i.concretize()
        r = self.a[i]
        return SymTensor(r if isinstance(r, np.ndarray) else _obj(r))

    def __setitem__(self, i, v):
        v = _obj(v)
        self.a[i] = v if v.shape else v.item()

    def __iter__(self):
        for i in range(len(self.a)):
            yield self[i]

    def __bool__(self):
        return bool(self.item())

    def __float__(self):
        return float(self.item())

    def __repr__(self):
        return f"<symtensor {self.a.shape}>"

    __hash__ = object.__hash__

    # arithmetic ----------------------------------------------------------
    def _bin(self, o, f):
        if not isinstance(o, (SymTensor, real_torch.Tensor, SymReal, SymInt, int, float)):
            return NotImplemented
        a, b = np.broadcast_arrays(self.a, _obj(o))
        out = np.empty(a.shape, dtype=object)
        for ix in np.ndindex(a.shape):
            out[ix] = f(a[ix], b[ix])
        return SymTensor(out)

    def __add__(self, o):
        return self._bin(o, lambda x, y: x + y)

    def __radd__(self, o):
        return self._bin(o, lambda x, y: y + x)

    def __sub__(self, o):
        return self._bin(o, lambda x, y: x - y)

    def __rsub__(self, o):
        return self._bin(o, lambda x, y: y - x)

    def __mul__(self, o):
        return self._bin(o, lambda x, y: x * y)

    def __rmul__(self, o):
        return self._bin(o, lambda x, y: y * x)

    def __truediv__(self, o):
        return self._bin(o, _tdiv)

    def __rtruediv__(self, o):
        return self._bin(o, lambda x, y: _tdiv(y, x))

    def __pow__(self, o):
        return self._bin(o, lambda x, y: x**y)

    def __neg__(self):
        return self.map(lambda x: -x)

    def __abs__(self):
        return self.map(abs)

    def abs(self):
        return self.map(abs)

    def sqrt(self):
        return self.map(_tsqrt)

    def square(self):
        return self.map(lambda x: x * x)

    def pow(self, k):
        return self**k

    def _inplace(self, o, f):
        r = self._bin(o, f)
        if r is NotImplemented:
            return r
        if r.a.shape != self.a.shape:
            raise RuntimeError("output with shape does not match the broadcast shape")
        self.a[...] = r.a
        return self

    def __iadd__(self, o):
        return self._inplace(o, lambda x, y: x + y)

    def __isub__(self, o):
        return self._inplace(o, lambda x, y: x - y)

    def __imul__(self, o):
        return self._inplace(o, lambda x, y: x * y)

    def add_(self, o):
        return self.__iadd__(o)

    def add(self, o):
        return self + o

    def mul(self, o):
        return self * o

    def map(self, f):
        out = np.empty(self.a.shape, dtype=object)
        for ix in np.ndindex(self.a.shape):
            out[ix] = f(self.a[ix])
        return SymTensor(out)

    def _cmp(self, o, f):
        if self.a.size != 1:
            raise Unsupported("elementwise comparison of symbolic tensors")
        o = o.item() if hasattr(o, "item") and not isinstance(o, SymReal) else o
        return f(self.item(), o)

    def __lt__(self, o):
        return self._cmp(o, lambda x, y: x < y)

    def __le__(self, o):
        return self._cmp(o, lambda x, y: x <= y)

    def __gt__(self, o):
        return self._cmp(o, lambda x, y: x > y)

    def __ge__(self, o):
        return self._cmp(o, lambda x, y: x >= y)

    def __eq__(self, o):
        return self._cmp(o, lambda x, y: x == y)

    def __ne__(self, o):
        return self._cmp(o, lambda x, y: x != y)

    # reductions ----------------------------------------------------------
    def sum(self, dim=None, **k):
        return self._reduce(dim, lambda v: _add(v))

    def mean(self, dim=None, **k):
        return self._reduce(dim, lambda v: _add(v) / len(v))

    def _reduce(self, dim, f):
        if dim is None:
            return SymTensor(_obj(f(list(self.a.reshape(-1)))))
        moved = np.moveaxis(self.a, dim, -1)
        out = np.empty(moved.shape[:-1], dtype=object)
        for ix in np.ndindex(out.shape):
            out[ix] = f(list(moved[ix]))
        return SymTensor(out)

    def var(self, dim=None, unbiased=True, correction=None, **k):
        c = (1 if unbiased else 0) if correction is None else correction

        def f(v):
            m = _add(v) / len(v)
            return _add([(x - m) * (x - m) for x in v]) / (len(v) - c)

        return self._reduce(dim, f)

    def std(self, dim=None, unbiased=True, correction=None, **k):
        return self.var(dim, unbiased, correction).sqrt()

    def norm(self, *a, **k):
        if a or k:
            raise Unsupported("norm with arguments")
        return (self * self).sum().sqrt()

    def dot(self, o):
        return (self * o).sum()

    def matmul(self, o):
        b = _obj(o)
        a = self.a
        if a.ndim == 1 and b.ndim == 1:
            return self.dot(o)
        A = a.reshape(1, -1) if a.ndim == 1 else a
        B = b.reshape(-1, 1) if b.ndim == 1 else b
        if A.shape[1] != B.shape[0]:
            raise RuntimeError("mat1 and mat2 shapes cannot be multiplied")
        out = np.empty((A.shape[0], B.shape[1]), dtype=object)
        for i, j in np.ndindex(out.shape):
            terms = [_mul0(x, y) for x, y in zip(A[i], B[:, j])]
            out[i, j] = _add(terms)
        if a.ndim == 1:
            out = out[0]
        elif b.ndim == 1:
            out = out[:, 0]
        return SymTensor(out)

    __matmul__ = mm = mv = matmul

    def clamp(self, lo=None, hi=None, min=None, max=None):
        lo, hi = lo if min is None else min, hi if max is None else max

        def f(x):
            if lo is not None and x < lo:
                return lo
            if hi is not None and x > hi:
                return hi
            return x

        return self.map(f)

    clip = clamp


def _mul0(x, y):
    if isinstance(x, (int, float)) and x == 0 or isinstance(y, (int, float)) and y == 0:
        return 0.0
    return x * y


def _tdiv(x, y):
    """torch division: by zero gives inf or nan instead of an exception"""
    if not (symmath.is_sym(x) or symmath.is_sym(y)):
        return float(real_torch.tensor(float(x), dtype=real_torch.float64) / y)
    try:
        return x / y
    except ZeroDivisionError:
        s = core._sign(x) if isinstance(x, SymReal) else (0.0 if x == 0 else math.copysign(1.0, x))
        return s * math.inf


def _tsqrt(x):
    try:
        return symmath.sqrt(x)
    except ValueError:
        return math.nan


class Linalg:
    def __init__(self, shim):
        self._s = shim

    def __getattr__(self, name):
        return self._s._fn("linalg." + name, getattr(real_torch.linalg, name))


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymTensor, real_torch.Tensor))


class _TensorType(metaclass=_Meta):
    pass


def _kron(a, b):
    a, b = _obj(a), _obj(b)
    out = np.empty((a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]), dtype=object)
    for i, j in np.ndindex(a.shape):
        for k, l in np.ndindex(b.shape):
            out[i * b.shape[0] + k, j * b.shape[1] + l] = _mul0(a[i, j], b[k, l])
    return SymTensor(out)


class TorchShim:
    """hooks: {qualified torch name: function(*a, **k)} override the built-in ones,
    e.g. "cov" or "linalg.lstsq" for harnesses with an abstract sample space"""

    def __init__(self, hooks=None, constructors=False):
        self._hooks = hooks or {}
        # tensors created empty and filled element by element become symbolic too
        self._constructors = constructors
        self.linalg = Linalg(self)

    def __getattr__(self, name):
        if name == "Tensor":
            return _TensorType
        real = getattr(real_torch, name)
        if not callable(real) or isinstance(real, type) or name in ("device",):
            return real
        return self._fn(name, real)

    def _fn(self, name, real):
        mine = self._hooks.get(name) or _FNS.get(name)

        if self._constructors and name in ("zeros", "ones", "eye", "full", "empty"):
            return lambda *a, **k: SymTensor(_obj(real(*a, **k)))
        if self._constructors == "all" and name in ("tensor", "as_tensor"):
            return _FNS[name]

        def call(*a, **k):
            if not any(_symbolic(x) for x in a) and not any(_symbolic(x) for x in k.values()):
                return real(*a, **k)
            if mine is None:
                raise Unsupported(f"torch.{name} of a symbolic tensor")
            return mine(*a, **k)

        return call


def _symbolic(x):
    if isinstance(x, (SymTensor, SymReal, SymInt)) or getattr(x, "_symx", False):
        return True
    if isinstance(x, (list, tuple)):
        return any(_symbolic(v) for v in x)
    return False


def _stack(ts, dim=0):
    parts = [_obj(t) for t in ts]
    return SymTensor(np.stack(parts, axis=dim))


def _cat(ts, dim=0):
    return SymTensor(np.concatenate([_obj(t) for t in ts], axis=dim))


def _m(name):
    return lambda x, *a, **k: getattr(x if isinstance(x, SymTensor) else SymTensor(_obj(x)), name)(*a, **k)


_FNS = {
    "tensor": lambda x, **k: SymTensor(_obj(x).copy()),
    "as_tensor": lambda x, **k: x if isinstance(x, SymTensor) else SymTensor(_obj(x)),
    "stack": _stack,
    "cat": _cat,
    "mean": _m("mean"), "sum": _m("sum"), "std": _m("std"), "var": _m("var"), "sqrt": _m("sqrt"),
    "abs": _m("abs"), "matmul": _m("matmul"), "mm": _m("matmul"), "dot": _m("dot"), "norm": _m("norm"),
    "square": _m("square"), "mv": _m("matmul"), "add": _m("add"), "mul": _m("mul"), "clamp": _m("clamp"),
    "reshape": _m("reshape"), "unsqueeze": _m("unsqueeze"), "flatten": _m("flatten"),
    "linalg.norm": _m("norm"), "kron": _kron,
    "diag": lambda x: SymTensor(np.diag(x.a)) if x.a.ndim == 2 else SymTensor(_diag(x.a)),
    "diagonal": lambda x, offset=0: SymTensor(np.diagonal(x.a, offset)),
    "zeros_like": lambda x, **k: real_torch.zeros(x.shape, dtype=real_torch.float64),
    "ones_like": lambda x, **k: real_torch.ones(x.shape, dtype=real_torch.float64),
    "is_tensor": lambda x: isinstance(x, SymTensor),
    "isnan": lambda x: False,
}


class symbolic_nodes:
    """lets Node carry a SymTensor (its validation only accepts real tensors)"""

    def __enter__(self):
        from causy.graph import Node

        self.init = init = Node.__dict__.get("__init__")
        base = Node.__init__

        def patched(node, **kw):
            v = kw.get("values")
            if isinstance(v, SymTensor):
                base(node, **dict(kw, values=real_torch.zeros(1, dtype=real_torch.float64)))
                node.__dict__["values"] = v
            else:
                base(node, **kw)

        Node.__init__ = patched

    def __exit__(self, *a):
        from causy.graph import Node

        if self.init is None:
            del Node.__init__
        else:
            Node.__init__ = self.init


def _diag(v):
    out = np.empty((len(v), len(v)), dtype=object)
    out[...] = 0.0
    for i, x in enumerate(v):
        out[i, i] = x
    return out
