"""Real functions over symbolic reals.

Each application f(t) becomes a fresh real constrained by facts that are true of the
real function and relate it to the other applications on this path:

  sqrt   s >= 0, s*s = t
  log    strictly increasing; log 1 = 0; log a = -log b where a*b = 1;
         log a - log b = log c where c*b = a (few applications only)
  Phi    normal cdf: strictly increasing, Phi(-z) = 1 - Phi(z), 0 < Phi < 1
  tppf   t quantile for fixed df: strictly increasing, zero at 1/2, odd around it
  round  within half a unit

A model of the solver can give such an application a value the real function does not
have; harnesses therefore place the concrete replay at the point that matters (a
threshold next to the reference p-value) instead of relying on the model's value."""
from __future__ import annotations

import contextlib
import itertools
import math as _math

import scipy.stats
import z3

from . import core
from . import ratfun
from .core import SymInt, SymReal, Unsupported, to_real


def define(name, x, lo=None, hi=None):
    """a symbolic real standing for x, whatever the code computes it as"""
    F = _cur()
    if not isinstance(x, SymReal):
        return x
    n, d = F.canon.rat(x.t)
    if len(d) == 1 and (len(n) == 0 or len(n) == 1 and (() in n or F.canon.is_def(n, d))):
        return SymReal(F.canon.canon(x.t))
    v = z3.Real("!" + name)
    F.canon.define(v, x.t)
    F.axiom(*([v > lo] if lo is not None else []), *([v < hi] if hi is not None else []))
    return SymReal(v)


class Funcs:
    """the applications on the current path"""

    current: "Funcs | None" = None

    def __init__(self, ctx):
        self.ctx = ctx
        self.apps = {}
        self.n = 0
        self.canon = ratfun.Canon()
        core.CANON = self.canon.canon
        core.FORK_ABS = True
        core.SAME = self.canon.same
        core.ENGINE.sliced = True
        Funcs.current = self

    def fresh(self, tag):
        self.n += 1
        return z3.Real(f"!{tag}{self.n}")

    def axiom(self, *ts):
        for t in ts:
            if len(core.ENGINE.frames) != 1:
                raise Unsupported("real function inside a merged computation")
            core.ENGINE.axiom(t)

    def get(self, f, t, make):
        if z3.is_real(t):
            t = self.canon.canon(t)
        lst = self.apps.setdefault(f, [])
        for a, v in lst:
            if a.eq(t):
                return v
        v = self.fresh(f)
        others = list(lst)
        lst.append((t, v))
        make(t, v, others)
        return v


def _cur():
    if Funcs.current is None:
        raise Unsupported("real function of a symbolic number outside a harness that declares them")
    return Funcs.current


def _unwrap(x):
    it = getattr(x, "item", None)
    if it is not None and not isinstance(x, (SymReal, SymInt)):
        x = it()
    return to_real(x)


def is_sym(x):
    x = _unwrap(x) if hasattr(x, "item") else x
    return isinstance(x, (SymReal, SymInt))


def _nonneg(t):
    """is t >= 0 on this path?"""
    e = core.ENGINE
    e.stats.branch_queries += 1
    return e._ask(e.frames[-1], t < 0) == z3.unsat


def sqrt(x):
    x = _unwrap(x)
    if not isinstance(x, SymReal):
        return _math.sqrt(x)
    F = _cur()
    t = F.canon.canon(x.t)
    if core.ENGINE.branch(core.fold(t < 0)):
        raise ValueError("math domain error")
    root = F.canon.monomial_root(t, _nonneg)
    if root is not None and (root[1] and any(k for _, k in root[1]) or len(root[2]) != 1 or root[0] != 1):
        c, exps, roots = root
        r = SymReal(z3.RealVal(f"{c.numerator}/{c.denominator}"))
        for a, k in exps:
            at = F.canon.atoms[a]
            for _ in range(abs(k)):
                r = SymReal(r.t * at if k > 0 else r.t / at)
        for a in roots:
            r = SymReal(r.t * sqrt(SymReal(F.canon.atoms[a])).t)
        return SymReal(F.canon.canon(r.t))

    def make(t, v, others):
        try:
            F.canon.squares[v.decl().name()] = F.canon.rat(t)
            F.canon.memo.clear()
        except ratfun.TooBig:
            pass
        F.axiom(v >= 0, v * v == t)
        for a, w in others:
            F.axiom(z3.Implies(a == t, v == w))
        for (a, w), (b, u) in itertools.combinations(others, 2):
            for (p, pv), (q, qv), (r, rv) in (((a, w), (b, u), (t, v)), ((a, w), (t, v), (b, u)), ((b, u), (t, v), (a, w))):
                if F.canon.same(p * q, r):
                    F.axiom(pv * qv == rv)

    return SymReal(F.get("sqrt", t, make))


def log(x, base=None):
    if base is not None:
        return log(x) / log(base)
    x = _unwrap(x)
    if not isinstance(x, SymReal):
        return _math.log(x)
    F = _cur()
    x = SymReal(F.canon.canon(x.t))
    if core.ENGINE.branch(core.fold(x.t <= 0)):
        raise ValueError("math domain error")

    def make(t, v, others):
        F.axiom(z3.Implies(t == 1, v == 0), z3.Implies(t > 1, v > 0), z3.Implies(t < 1, v < 0))
        for a, w in others:
            if F.canon.same(a * t, z3.RealVal(1)):
                F.axiom(v == -w)
                continue
            F.axiom(
                z3.Implies(a == t, v == w), z3.Implies(a < t, w < v), z3.Implies(a > t, w > v),
                z3.Implies(a * t == 1, v == -w),
            )
        if 2 <= len(others) <= 4:
            for (a, w), (b, u) in itertools.permutations(others, 2):
                if F.canon.same(t * b, a):
                    F.axiom(v == w - u)
                elif F.canon.same(a * b, t):
                    F.axiom(v == w + u)
            for (a, w), (b, u) in itertools.permutations(others[:0], 2):
                # t = a / b  and  a = t / b
                F.axiom(z3.Implies(t * b == a, v == w - u), z3.Implies(a * b == t, v == w + u))

    return SymReal(F.get("log", x.t, make))


def log1p(x):
    x = _unwrap(x)
    return log(1 + x) if isinstance(x, SymReal) else _math.log1p(x)


def log2(x):
    return log(x) / _math.log(2) if is_sym(x) else _math.log2(x)


def atanh(x):
    x = _unwrap(x)
    if not isinstance(x, SymReal):
        return _math.atanh(x)
    if core.ENGINE.branch(core.fold(z3.Or(x.t <= -1, x.t >= 1))):
        raise ValueError("math domain error")
    return log((1 + x) / (1 - x)) * 0.5


def phi(z):
    """normal cdf"""
    z = _unwrap(z)
    F = _cur()

    def make(t, v, others):
        F.axiom(v > 0, v < 1, z3.Implies(t == 0, v == z3.RealVal("1/2")),
                z3.Implies(t > 0, v > z3.RealVal("1/2")), z3.Implies(t < 0, v < z3.RealVal("1/2")))
        for a, w in others:
            F.axiom(
                z3.Implies(a == t, v == w), z3.Implies(a < t, w < v), z3.Implies(a > t, w > v),
                z3.Implies(a == -t, v == 1 - w),
            )

    return SymReal(F.get("phi", z.t, make))


def tppf(q, df):
    """t quantile; `df` concrete or symbolic, distinguished by its term"""
    q = _unwrap(q)
    df = _unwrap(df)
    F = _cur()
    d = core._numterm(df, True)
    qt = core._numterm(q, True)

    def make(key, v, others):
        F.axiom(z3.Implies(qt == z3.RealVal("1/2"), v == 0), z3.Implies(qt > z3.RealVal("1/2"), v > 0),
                z3.Implies(qt < z3.RealVal("1/2"), v < 0))
        for k, w in others:
            a, e = k.arg(0), k.arg(1)
            same = e == d
            F.axiom(
                z3.Implies(z3.And(same, a == qt), v == w), z3.Implies(z3.And(same, a < qt), w < v),
                z3.Implies(z3.And(same, a > qt), w > v), z3.Implies(z3.And(same, a + qt == 1), v == -w),
            )

    pair = z3.Function("tppf_key", z3.RealSort(), z3.RealSort(), z3.BoolSort())(qt, d)
    return SymReal(F.get("tppf", pair, make))


def tcdf(t, df):
    t, df = _unwrap(t), _unwrap(df)
    F = _cur()
    d, tt = core._numterm(df, True), core._numterm(t, True)

    def make(key, v, others):
        F.axiom(v > 0, v < 1, z3.Implies(tt == 0, v == z3.RealVal("1/2")))
        for k, w in others:
            a, e = k.arg(0), k.arg(1)
            same = e == d
            F.axiom(z3.Implies(z3.And(same, a == tt), v == w), z3.Implies(z3.And(same, a < tt), w < v),
                    z3.Implies(z3.And(same, a > tt), w > v), z3.Implies(z3.And(same, a == -tt), v == 1 - w))
        for k, w in F.apps.get("tppf", ()):
            # v = cdf(tt), w = ppf(a): w < tt iff a < v
            a, e = k.arg(0), k.arg(1)
            F.axiom(z3.Implies(e == d, z3.And((w < tt) == (a < v), (w > tt) == (a > v))))

    pair = z3.Function("tcdf_key", z3.RealSort(), z3.RealSort(), z3.BoolSort())(tt, d)
    return SymReal(F.get("tcdf", pair, make))


def rounded(x, nd):
    F = _cur()
    unit = z3.RealVal(f"1/{2 * 10 ** nd}")

    def make(t, v, others):
        F.axiom(v - t <= unit, t - v <= unit)
        for a, w in others:
            F.axiom(z3.Implies(a == t, v == w), z3.Implies(a < t, w <= v), z3.Implies(a > t, w >= v))

    return SymReal(F.get(f"round{nd}_", x.t, make))


class MathShim:
    """stands in for the module `math` in the namespace of the code under test"""

    _FNS = dict(sqrt=sqrt, log=log, log1p=log1p, log2=log2, atanh=atanh)

    def __getattr__(self, name):
        f = self._FNS.get(name)
        real = getattr(_math, name)
        if f is not None:
            return lambda *a: f(*a) if any(is_sym(x) for x in a) else real(*a)
        if name in ("fabs",):
            return lambda x: abs(x) if is_sym(x) else real(x)
        if name in ("isnan", "isinf"):
            return lambda x: False if is_sym(x) else real(x)
        if name == "isfinite":
            return lambda x: True if is_sym(x) else real(x)
        if name == "pow":
            return lambda x, y: x**y if is_sym(x) else real(x, y)
        if name == "isclose":
            def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
                if not (is_sym(a) or is_sym(b)):
                    return real(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
                raise Unsupported("isclose of symbolic reals")
            return isclose
        if callable(real):
            def guard(*a, **k):
                if any(is_sym(x) for x in a):
                    raise Unsupported(f"math.{name} of a symbolic real")
                return real(*a, **k)
            return guard
        return real


def _instance(dist, table):
    """replace methods of a scipy distribution object, symbolic arguments only"""
    saved = {}
    for name, f in table.items():
        saved[name] = dist.__dict__.get(name)
        real = getattr(dist, name)
        setattr(dist, name, (lambda f, real: lambda *a, **k: f(*a, **k)
                             if any(is_sym(x) for x in a) or any(is_sym(x) for x in k.values()) else real(*a, **k))(f, real))
    return saved


@contextlib.contextmanager
def distributions():
    norm, t = scipy.stats.norm, scipy.stats.t
    s1 = _instance(norm, {"cdf": phi, "sf": lambda z: 1 - phi(z), "logcdf": lambda z: log(phi(z)),
                          "ppf": lambda q: _unsupported("normal quantile of a symbolic number")})
    s2 = _instance(t, {"ppf": tppf, "isf": lambda q, df: tppf(1 - q, df), "cdf": tcdf, "sf": lambda x, df: 1 - tcdf(x, df)})
    try:
        yield
    finally:
        for dist, saved in ((norm, s1), (t, s2)):
            for k, v in saved.items():
                if v is None:
                    dist.__dict__.pop(k, None)
                else:
                    setattr(dist, k, v)
        Funcs.current = None
        core.CANON = lambda t: t
        core.FORK_ABS = False
        core.SAME = None
        core.ENGINE.sliced = False


def _unsupported(m):
    raise Unsupported(m)


@contextlib.contextmanager
def shims(*modules, **extra):
    """put MathShim (and extra names, e.g. torch=..., len=...) into module namespaces"""
    saved = []
    missing = object()
    for m in modules:
        for name, obj in dict(extra, math=MathShim() if hasattr(m, "math") else None).items():
            if obj is None or (name != "len" and not hasattr(m, name)):
                continue
            saved.append((m, name, m.__dict__.get(name, missing)))
            setattr(m, name, obj)
    try:
        with distributions():
            yield
    finally:
        for m, name, v in saved:
            if v is missing:
                delattr(m, name)
            else:
                setattr(m, name, v)
