#!/opt/venv/bin/python
"""the engine itself: solver present, forks both ways, refutes, merges"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3
from symx import core
from symx.ctx import SymCtx

e = core.Engine()
core.set_engine(e)
seen = set()


def body():
    c = SymCtx(e)
    a, b = c.bool("a"), c.bool("b")
    x = c.int("x", 0, 3)
    if a and not b:
        seen.add(("ab", x.concretize()))
        assert e.refute(core.term(core.Not(b))) is None
    else:
        seen.add("else")
        m = e.refute(core.term(b))
        assert m is None or m == "unknown" or isinstance(m, z3.ModelRef)


assert e.explore(body) == []
assert seen == {"else", ("ab", 0), ("ab", 1), ("ab", 2), ("ab", 3)}, seen
print("selftest ok, z3", z3.get_version_string())
