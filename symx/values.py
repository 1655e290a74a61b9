"""Symbolic settings: numbers and booleans that pass for int, float and bool in
isinstance tests, and a way to carry them through pydantic, JSON and YAML.

The C code of pydantic and the parsers accept real numbers only.  There a symbolic number
is replaced by a placeholder number nobody else uses and put back afterwards: these
libraries are taken to hand a number of a given type through unchanged, whatever its
value.  Booleans are forked instead.  Concrete replays use the libraries as they are."""
from __future__ import annotations

import contextlib

import pydantic
import warnings

from .core import SymBool, SymInt, SymReal


class IntValue(SymInt):
    __slots__ = ()
    __class__ = property(lambda self: int)
    __hash__ = SymInt.__hash__


class RealValue(SymReal):
    __slots__ = ()
    __class__ = property(lambda self: float)
    __hash__ = SymReal.__hash__


class BoolValue(SymBool):
    __slots__ = ()
    __class__ = property(lambda self: bool)
    __hash__ = SymBool.__hash__


def v_int(ctx, name, lo, hi):
    x = ctx.int(name, lo, hi)
    return IntValue(x.t) if ctx.symbolic else x


def v_real(ctx, name, lo, hi):
    x = ctx.real(name, lo, hi)
    return RealValue(x.t) if ctx.symbolic else x


def v_bool(ctx, name):
    x = ctx.bool(name)
    return BoolValue(x.t) if ctx.symbolic else x


def is_symbolic(x):
    return issubclass(type(x), (SymInt, SymReal, SymBool))


class Placeholders:
    def __init__(self, decide=False):
        self.back = {}
        self.decide = decide  # equal numbers get equal placeholders

    def plain(self, x):
        if issubclass(type(x), SymBool):
            return bool(x)
        if is_symbolic(x):
            for k, v in self.back.items():
                if v is x or type(v) is type(x) and v.t.eq(x.t):
                    return k
            if self.decide:
                for k, v in self.back.items():
                    if isinstance(v, SymInt) == isinstance(x, SymInt) and bool(v == x):
                        return k
            n = len(self.back)
            k = 7000001 + n if issubclass(type(x), SymInt) else 7000000.5 + n
            self.back[k] = x
            return k
        if isinstance(x, dict):
            return {k: self.plain(v) for k, v in x.items()}
        if type(x) in (list, tuple):
            return type(x)(self.plain(v) for v in x)
        return x

    def restore(self, x):
        if type(x) in (int, float):
            v = self.back.get(x)
            if v is not None and isinstance(v, SymInt) == (type(x) is int):
                return v
            if v is not None and type(x) is float:
                # an int handed through as a float
                return RealValue((v * 1.0).t)
            return x
        if isinstance(x, dict):
            return {k: self.restore(v) for k, v in x.items()}
        if type(x) in (list, tuple):
            return type(x)(self.restore(v) for v in x)
        return x


def contains(x):
    if is_symbolic(x):
        return True
    if isinstance(x, dict):
        return any(contains(v) for v in x.values())
    if type(x) in (list, tuple):
        return any(contains(v) for v in x)
    return False


def _restore_model(m, ph, seen):
    if id(m) in seen:
        return
    seen.add(id(m))
    for k, v in list(m.__dict__.items()):
        m.__dict__[k] = _restore_deep(v, ph, seen)


def _restore_deep(v, ph, seen):
    if isinstance(v, pydantic.BaseModel):
        _restore_model(v, ph, seen)
        return v
    if type(v) in (list, tuple):
        return type(v)(_restore_deep(x, ph, seen) for x in v)
    if type(v) is dict:
        return {k: _restore_deep(x, ph, seen) for k, x in v.items()}
    return ph.restore(v)


class SymbolicTypeAdapter:
    """pydantic.TypeAdapter for data with symbolic values"""

    def __init__(self, *a, **k):
        self.real = pydantic.TypeAdapter(*a, **k)

    def validate_python(self, x, *a, **k):
        if not contains(x):
            return self.real.validate_python(x, *a, **k)
        ph = Placeholders()
        r = self.real.validate_python(ph.plain(x), *a, **k)
        return _restore_deep(r, ph, set())

    def __getattr__(self, n):
        return getattr(self.real, n)


@contextlib.contextmanager
def symbolic_models():
    """pydantic models can be made from symbolic values"""
    orig = pydantic.BaseModel.__init__

    def init(self, /, **data):
        if not any(contains(v) for v in data.values()):
            return orig(self, **data)
        ph = Placeholders()
        orig(self, **{k: ph.plain(v) for k, v in data.items()})
        _restore_model(self, ph, set())

    init.__pydantic_base_init__ = True
    pydantic.BaseModel.__init__ = init
    validate = pydantic.BaseModel.__dict__["model_validate"]

    def model_validate(cls, obj, *a, **k):
        if not contains(obj):
            return validate.__func__(cls, obj, *a, **k)
        ph = Placeholders()
        return _restore_deep(validate.__func__(cls, ph.plain(obj), *a, **k), ph, set())

    pydantic.BaseModel.model_validate = classmethod(model_validate)
    try:
        with warnings.catch_warnings():
            warnings.filterwarnings("ignore", message="Pydantic serializer warnings")
            yield
    finally:
        pydantic.BaseModel.__init__ = orig
        pydantic.BaseModel.model_validate = validate


def plain_model(m, ph):
    """copy of a pydantic model with placeholders"""
    import copy

    c = copy.deepcopy(m)

    def walk(x):
        if isinstance(x, pydantic.BaseModel):
            for k, v in list(x.__dict__.items()):
                x.__dict__[k] = walk(v)
            return x
        if type(x) in (list, tuple):
            return type(x)(walk(v) for v in x)
        if isinstance(x, dict):
            return {k: walk(v) for k, v in x.items()}
        return ph.plain(x)

    return walk(c)


@contextlib.contextmanager
def symbolic_text(ph):
    """JSON and YAML text carries symbolic numbers as placeholders"""
    import json

    import pydantic_yaml
    import yaml

    st = {"off": 0}
    saved = []

    def patch(o, n, f):
        saved.append((o, n, o.__dict__[n]))
        setattr(o, n, f)

    def off(f):
        def g(*a, **k):
            st["off"] += 1
            try:
                return f(*a, **k)
            finally:
                st["off"] -= 1

        return g

    def reader(f):
        def g(*a, **k):
            r = f(*a, **k)
            return r if st["off"] else ph.restore(r)

        return g

    def writer(f):
        def g(x, *a, **k):
            return f(x if st["off"] else ph.plain(x), *a, **k)

        return g

    dump_json = pydantic.BaseModel.model_dump_json

    def model_dump_json(self, *a, **k):
        return dump_json(plain_model(self, ph), *a, **k)

    # json.load calls loads, yaml.safe_load calls load: patched functions look the names up
    patch(json, "loads", reader(json.loads))
    patch(json, "load", lambda f, **k: json.loads(f.read(), **k))
    patch(json, "dumps", writer(json.dumps))
    patch(json, "dump", lambda x, f, **k: f.write(json.dumps(x, **k)))
    patch(yaml, "load", reader(yaml.load))
    patch(yaml, "dump", writer(yaml.dump))
    patch(pydantic.BaseModel, "model_dump_json", model_dump_json)
    to_yaml = pydantic_yaml.to_yaml_str
    import sys

    for m in list(sys.modules.values()):
        if getattr(m, "to_yaml_str", None) is to_yaml and m.__name__.startswith(("causy", "pydantic_yaml", "checks")):
            patch(m, "to_yaml_str", off(to_yaml))
    try:
        yield
    finally:
        for o, n, v in reversed(saved):
            setattr(o, n, v)
