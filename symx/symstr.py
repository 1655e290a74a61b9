"""Symbolic text: z3 strings that pass for str in isinstance tests."""
from __future__ import annotations

import z3

from . import core
from .core import SymInt, Unsupported, wrap_bool


def sterm(x):
    if isinstance(x, SymStr):
        return x.t
    if type(x) is str or (isinstance(x, str) and type(x) is not SymStr):
        return z3.StringVal(x)
    return None


def _b(t):
    c = z3.simplify(t)
    return wrap_bool(c if z3.is_true(c) or z3.is_false(c) else t)


class SymStr:
    """not a str subclass: C code must not look inside"""

    __slots__ = ("t",)
    __class__ = property(lambda self: str)

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        raise Unsupported("hash of symbolic text")

    def __eq__(self, o):
        b = sterm(o)
        if b is None:
            return False
        return _b(self.t == b)

    def __ne__(self, o):
        return core.Not(self == o)

    def __lt__(self, o):
        return wrap_bool(self.t < sterm(o))

    def __le__(self, o):
        return wrap_bool(self.t <= sterm(o))

    def __gt__(self, o):
        return wrap_bool(sterm(o) < self.t)

    def __ge__(self, o):
        return wrap_bool(sterm(o) <= self.t)

    def __add__(self, o):
        b = sterm(o)
        return NotImplemented if b is None else SymStr(z3.Concat(self.t, b))

    def __radd__(self, o):
        b = sterm(o)
        return NotImplemented if b is None else SymStr(z3.Concat(b, self.t))

    def startswith(self, p, *a):
        if a:
            raise Unsupported("startswith with positions")
        if isinstance(p, tuple):
            return core.Or(*[self.startswith(x) for x in p])
        return _b(z3.PrefixOf(sterm(p), self.t))

    def endswith(self, p, *a):
        if a:
            raise Unsupported("endswith with positions")
        if isinstance(p, tuple):
            return core.Or(*[self.endswith(x) for x in p])
        return _b(z3.SuffixOf(sterm(p), self.t))

    def __contains__(self, p):
        return bool(_b(z3.Contains(self.t, sterm(p))))

    def removeprefix(self, p):
        q = sterm(p)
        n = z3.Length(q)
        return SymStr(z3.If(z3.PrefixOf(q, self.t), z3.SubString(self.t, n, z3.Length(self.t) - n), self.t))

    def removesuffix(self, p):
        q = sterm(p)
        n = z3.Length(q)
        return SymStr(z3.If(z3.SuffixOf(q, self.t), z3.SubString(self.t, 0, z3.Length(self.t) - n), self.t))

    def length(self):
        return SymInt(z3.Length(self.t))

    def __bool__(self):
        return bool(self.length() != 0)

    def __getitem__(self, i):
        n = z3.Length(self.t)

        def pos(k, default):
            if k is None:
                return default
            v = core.term(k) if isinstance(k, SymInt) else z3.IntVal(k)
            v = z3.If(v < 0, v + n, v)
            return z3.If(v < 0, 0, z3.If(v > n, n, v))

        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("slice of symbolic text with a step")
            a, b = pos(i.start, z3.IntVal(0)), pos(i.stop, n)
            return SymStr(z3.SubString(self.t, a, z3.If(b > a, b - a, 0)))
        return SymStr(z3.SubString(self.t, pos(i, None), 1))

    def __fspath__(self):
        raise Unsupported("path operation on symbolic text")

    def __str__(self):
        return "<symbolic text>"

    __repr__ = __str__

    def __format__(self, spec):
        return "<symbolic text>"

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"str.{n} of symbolic text")
