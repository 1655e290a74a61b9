"""Harness contexts: one harness text, two executions.

SymCtx hands out proxies (every value within the declared range at once);
ConcreteCtx hands out the ordinary Python values of one solver model, and is what
replays a counterexample on the unpatched code."""
from __future__ import annotations

from fractions import Fraction

import z3

from . import core
from .core import SymBool, SymInt, SymReal, And, Or, Not, Iff, Implies


class Discard(BaseException):
    """concrete run whose assignment violates an assumption"""


class Violation:
    def __init__(self, msg, assignment, kind="assertion", detail=""):
        self.msg = msg
        self.assignment = assignment
        self.kind = kind
        self.detail = detail

    def as_dict(self):
        return {
            "msg": self.msg,
            "kind": self.kind,
            "detail": self.detail,
            "assignment": self.assignment,
        }


class StopPath(BaseException):
    pass


class SymCtx:
    symbolic = True

    def __init__(self, engine):
        self.engine = engine
        self.vars = {}  # name -> (kind, z3 var)
        self.notes = []
        self.checks = 0
        self.candidates = []
        self.unknown = []

    # inputs
    def memo(self, key, fn):
        """a formula over the inputs, built once per process (the inputs of a
        harness are the same terms on every path)"""
        m = self.engine.memo
        r = m.get(key, m)
        if r is m:
            r = m[key] = fn()
        return r

    def bool(self, name):
        hit = self.vars.get(name)
        if hit is None:
            hit = self.vars[name] = ("bool", self.memo(("bool", name), lambda: z3.Bool(name)))
        return SymBool(hit[1])

    def int(self, name, lo, hi):
        if name not in self.vars:
            v = z3.Int(name)
            self.vars[name] = ("int", v)
            self.engine.axiom(z3.And(v >= lo, v <= hi))
        return SymInt(self.vars[name][1])

    def real(self, name, lo=None, hi=None, strict=False):
        if name not in self.vars:
            v = z3.Real(name)
            self.vars[name] = ("real", v)
            cs = []
            if lo is not None:
                cs.append(v > lo if strict else v >= lo)
            if hi is not None:
                cs.append(v < hi if strict else v <= hi)
            if cs:
                self.engine.axiom(z3.And(*cs))
        return SymReal(self.vars[name][1])

    def text(self, name, alphabet, lo, hi):
        """text of lo to hi characters out of an alphabet"""
        from .symstr import SymStr

        if name not in self.vars:
            v = z3.String(name)
            self.vars[name] = ("text", v)
            self.engine.axiom(z3.And(
                z3.Length(v) >= lo, z3.Length(v) <= hi,
                z3.InRe(v, z3.Star(z3.Union(*[z3.Re(c) for c in alphabet]))),
            ))
        return SymStr(self.vars[name][1])

    def choice(self, name, options):
        options = list(options)
        for i, o in enumerate(options[:-1]):
            n = f"{name}={i}"
            if n in self.vars:
                raise core.Unsupported(f"choice {name} made twice")
            v = self.memo(("bool", n), lambda: z3.Bool(n))
            self.vars[n] = ("bool", v)
            if self.engine.fork(v):
                return o
        return options[-1]

    def flag(self, name):
        return bool(self.bool(name))

    # logic
    def assume(self, c):
        t = core.term(c)
        self.engine.axiom(t)

    def q(self, fn, key=None, keep=None):
        """value of a side-effect free boolean computation, all paths merged"""
        return self.engine.merged_bool(fn, key, keep)

    def qall(self, fn, key=None, keep=None):
        """every outcome of a side-effect free computation: [(guard, value)];
        an exception of the code under test is an outcome ('!', exc)"""
        outs = self.engine.summarize(fn, key, keep)
        return [
            (core.wrap_bool(g), v if ok else ("!", v)) for g, ok, v in outs
        ]

    def assignment(self, model):
        out = {}
        for name, (kind, v) in self.vars.items():
            val = model.eval(v, model_completion=True)
            if kind == "bool":
                out[name] = z3.is_true(val)
            elif kind == "int":
                out[name] = val.as_long()
            elif kind == "text":
                out[name] = val.as_string()
            else:
                if z3.is_rational_value(val):
                    fr = Fraction(val.numerator_as_long(), val.denominator_as_long())
                else:
                    ap = val.approx(20)
                    fr = Fraction(ap.numerator_as_long(), ap.denominator_as_long())
                out[name] = float(fr)
        return out

    def check(self, cond, msg, clearly=None):
        """`clearly`: a weaker condition; if it can be falsified as well, that model is
        replayed (it survives rounding)"""
        self.checks += 1
        t = core.term(cond)
        m = self.engine.refute(t)
        if m is None:
            return
        if clearly is not None:
            far = self.engine.refute(core.term(clearly))
            if far is not None and far != "unknown":
                m = far
        if m == "unknown":
            self.unknown.append(msg)
            raise StopPath()
        self.candidates.append(Violation(msg, self.assignment(m)))
        raise StopPath()

    def fail(self, msg):
        self.check(False, msg)

    def note(self, x):
        self.notes.append(x)


class ConcreteCtx:
    symbolic = False

    def __init__(self, assignment):
        self.a = dict(assignment)
        self.checks = 0
        self.violations = []
        self.used = {}

    def memo(self, key, fn):
        return fn()

    def bool(self, name):
        v = bool(self.a.get(name, False))
        self.used[name] = v
        return v

    def int(self, name, lo, hi):
        v = int(self.a.get(name, lo))
        self.used[name] = v
        if not lo <= v <= hi:
            raise Discard()
        return v

    def real(self, name, lo=None, hi=None, strict=False):
        d = 0.0
        if name not in self.a:
            if lo is not None and hi is not None:
                d = (lo + hi) / 2
            elif lo is not None:
                d = lo + 1.0
            elif hi is not None:
                d = hi - 1.0
        v = float(self.a.get(name, d))
        self.used[name] = v
        if lo is not None and (v < lo or (strict and v <= lo)):
            raise Discard()
        if hi is not None and (v > hi or (strict and v >= hi)):
            raise Discard()
        return v

    def text(self, name, alphabet, lo, hi):
        v = self.a.get(name, alphabet[0] * lo)
        self.used[name] = v
        if not lo <= len(v) <= hi or any(c not in alphabet for c in v):
            raise Discard()
        return v

    def choice(self, name, options):
        options = list(options)
        for i, o in enumerate(options[:-1]):
            if self.bool(f"{name}={i}"):
                return o
        return options[-1]

    flag = bool

    def assume(self, c):
        if not c:
            raise Discard()

    def q(self, fn, key=None, keep=None):
        return bool(fn())

    def qall(self, fn, key=None, keep=None):
        try:
            return [(True, fn())]
        except Exception as e:
            return [(True, ("!", e))]

    def check(self, cond, msg, clearly=None):
        self.checks += 1
        if not cond:
            self.violations.append(Violation(msg, dict(self.a)))
            raise StopPath()

    def fail(self, msg):
        self.check(False, msg)

    def note(self, x):
        pass
