"""symx.core - a small symbolic execution engine for ordinary Python code.

The code under test is *run by CPython itself*; its inputs are proxies that wrap
z3 terms.  Whenever Python needs a concrete truth value of a proxy (`if`, `and`,
`in`, `while`, ...) the engine asks the solver which outcomes are feasible under
the current path condition and explores every feasible one (depth-first, by
re-execution along a recorded decision prefix).  At an assertion the solver
decides `path condition AND NOT property`: unsat = holds for every value of every
symbolic input on that path, sat = counterexample, which the driver replays on
the unpatched code with ordinary Python values.

`summarize` explores a side-effect free computation in a nested frame and merges
all of its paths into ONE term, so that a query such as `edge_exists(u, v)` does
not fork the caller.
"""
from __future__ import annotations

import time

import z3


class Unsupported(BaseException):
    """A proxy was used in a way the engine has no encoding for."""


class PathInfeasible(BaseException):
    """Raised when an assumption makes the current path infeasible."""


class Limit(BaseException):
    """Raised when a per-path budget is exceeded."""


class Stats:
    FIELDS = (
        "paths",
        "branch_queries",
        "assert_queries",
        "nested_paths",
        "summaries",
        "summary_hits",
        "infeasible",
        "unknown",
        "decisions",
    )

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.wall_s = 0.0

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["solver_s"] = round(self.solver_s, 3)
        return d

    def merge(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d.get(f, 0))
        self.solver_s += d.get("solver_s", 0.0)


class Frame:
    """One exploration level: its solver, its decisions and the literal cache."""

    __slots__ = ("solver", "decisions", "pos", "depth", "lits", "keep", "fixed", "alias", "seen")

    def __init__(self, solver, fixed=()):
        self.solver = solver
        # decision = [value, alternative_still_open]
        # (third entry: structural hash of the decided term, kept when a prefix is
        # handed to another process)
        self.decisions = [[bool(v), False, h] for v, h in fixed]
        self.fixed = len(self.decisions)
        self.pos = 0
        self.depth = 0  # number of decisions currently asserted in the solver
        self.lits = {}
        self.alias = {}
        self.keep = []
        self.seen = []  # terms of the decisions, to notice a run that does not repeat itself


class Engine:
    def __init__(self, timeout_ms=20000):
        self.timeout_ms = timeout_ms
        self.stats = Stats()
        self.axioms = []
        self.frames = []
        self.summary_cache = {}
        self.max_decisions = 4000
        self.mutations = 0
        self.in_summary = 0
        self.memo = {}
        self.merged_cache = {}
        self.sliced = False
        self.var_cache = {}

    # -- solver helpers -------------------------------------------------
    def new_solver(self):
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        for a in self.axioms:
            s.add(a)
        return s

    def _check(self, solver, *assumptions):
        t = time.time()
        r = solver.check(*assumptions)
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    # -- slicing --------------------------------------------------------
    # (harnesses with nonlinear real arithmetic) a query is decided on the asserted
    # constraints that share variables with it, directly or through others; the rest
    # of the path is satisfiable on its own and has no variable in common with them
    def _vars(self, t):
        c = self.var_cache
        k = t.get_id()
        hit = c.get(k)
        if hit is None:
            seen, out, todo = set(), set(), [t]
            while todo:
                x = todo.pop()
                i = x.get_id()
                if i in seen:
                    continue
                seen.add(i)
                if z3.is_app(x):
                    if x.num_args() == 0:
                        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                            out.add(x.decl().name())
                    else:
                        todo.extend(x.children())
            hit = c[k] = (frozenset(out), t)
        return hit[0]

    def _components(self, fr):
        """the path condition in groups without common variables"""
        groups = []
        for t in fr.keep:
            lit = t if fr.lits[t.get_id()] else z3.Not(t)
            vs = set(self._vars(t))
            terms = [lit]
            rest = []
            for g in groups:
                if g[0] & vs:
                    vs |= g[0]
                    terms = g[1] + terms
                else:
                    rest.append(g)
            groups = rest + [(vs, terms)]
        return groups

    def _sliced(self, fr, cond):
        vs = set(self._vars(cond))
        # what mentions nothing but the variables of the question may settle it
        near = [t if fr.lits[t.get_id()] else z3.Not(t) for t in fr.keep if self._vars(t) <= vs]
        if near:
            s = z3.Solver()
            s.set("timeout", self.timeout_ms // 4)
            s.add(*near)
            s.add(cond)
            if self._check(s) == z3.unsat:
                return z3.unsat, s
        terms = []
        for gvs, gts in self._components(fr):
            if gvs & vs:
                terms += gts
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        s.add(*terms)
        s.add(cond)
        return self._check(s), s

    def _merged_model(self, fr, extra=None):
        """a model of the whole path, put together from its groups; None if one of
        them is not satisfiable (or not decided)"""
        groups = self._components(fr)
        if extra is not None:
            vs = set(self._vars(extra))
            hit = [g for g in groups if g[0] & vs]
            groups = [g for g in groups if not g[0] & vs]
            groups.append((vs.union(*[g[0] for g in hit]), [t for g in hit for t in g[1]] + [extra]))
        table = {}
        for vs, terms in groups:
            s = z3.Solver()
            s.set("timeout", self.timeout_ms)
            s.add(*terms)
            if self._check(s) != z3.sat:
                return None
            m = s.model()
            for v in vs:
                table[v] = m
        return MergedModel(table)

    def _ask(self, fr, cond):
        """is cond satisfiable on this path?"""
        if self.sliced:
            return self._sliced(fr, cond)[0]
        return self._check(fr.solver, cond)

    # -- branching ------------------------------------------------------
    def branch(self, term) -> bool:
        if term is True or term is False:
            return term
        fr = self.frames[-1]
        oid = term.get_id()
        hit = fr.alias.get(oid)
        if hit is not None:
            return hit[0]
        orig = term
        neg = False
        while z3.is_not(term):
            term = term.arg(0)
            neg = not neg
        r = self._branch(term)
        if neg:
            r = not r
        fr.alias[oid] = (r, orig)
        return r

    def fork(self, var) -> bool:
        """branch on a variable nothing has been said about yet: both outcomes are
        feasible, no query needed"""
        return self._branch(var, free=True)

    def _branch(self, term, free=False) -> bool:
        if z3.is_true(term):
            return True
        if z3.is_false(term):
            return False
        fr = self.frames[-1]
        tid = term.get_id()
        hit = fr.lits.get(tid)
        if hit is not None:
            return hit
        i = fr.pos
        if i >= self.max_decisions:
            raise Limit("too many decisions on one path")
        if i < len(fr.decisions):
            val = fr.decisions[i][0]
            if i >= fr.depth:
                del fr.seen[i:]
                fr.seen.append(term)
                if fr.decisions[i][2] != term.hash():
                    raise Unsupported("the execution does not repeat itself (nondeterminism)")
                fr.solver.push()
                fr.solver.add(term if val else z3.Not(term))
                fr.depth += 1
            elif not fr.seen[i].eq(term):
                raise Unsupported("the execution does not repeat itself (nondeterminism)")
        else:
            del fr.seen[i:]
            fr.seen.append(term)
            if free:
                rt = z3.sat
            else:
                self.stats.branch_queries += 1
                rt = self._ask(fr, term)
            if rt == z3.unsat:
                val, open_ = False, False
            else:
                if free:
                    rf = z3.sat
                else:
                    self.stats.branch_queries += 1
                    rf = self._ask(fr, z3.Not(term))
                if rf == z3.unsat:
                    val, open_ = True, False
                else:
                    val, open_ = True, True
            fr.decisions.append([val, open_, term.hash()])
            fr.solver.push()
            fr.solver.add(term if val else z3.Not(term))
            fr.depth += 1
            self.stats.decisions += 1
        fr.pos = i + 1
        fr.lits[tid] = val
        fr.keep.append(term)
        return val

    def assume(self, term):
        """Constrain the current path (must be the top frame)."""
        if term is True:
            return
        if term is False or z3.is_false(term):
            raise PathInfeasible()
        if not self.branch(term):
            raise PathInfeasible()

    def axiom(self, term):
        """Constrain the symbolic inputs from here on, without a fork and without
        a feasibility query.  Nested (merged) explorations see axioms too."""
        if term is True or z3.is_true(term):
            return
        if term is False:
            term = z3.BoolVal(False)
        if len(self.frames) != 1:
            raise Unsupported("axiom inside a merged computation")
        fr = self.frames[-1]
        i = fr.pos
        if i >= len(fr.decisions):
            fr.decisions.append([True, False, term.hash()])
        if i >= fr.depth:
            del fr.seen[i:]
            fr.seen.append(term)
            if fr.decisions[i][2] != term.hash():
                raise Unsupported("the execution does not repeat itself (nondeterminism)")
            fr.solver.push()
            fr.solver.add(term)
            fr.depth += 1
        elif not fr.seen[i].eq(term):
            raise Unsupported("the execution does not repeat itself (nondeterminism)")
        fr.pos = i + 1
        self.axioms.append(term)
        fr.keep.append(term)
        fr.lits[term.get_id()] = True

    def axiom_ids(self):
        ax = self.axioms
        c = getattr(self, "_ax", None)
        if c is None or c[0] is not ax or c[1] != len(ax):
            c = self._ax = (ax, len(ax), tuple(a.get_id() for a in ax))
        return c[2]

    # -- exploration ----------------------------------------------------
    def _backtrack(self, fr):
        while len(fr.decisions) > fr.fixed and not fr.decisions[-1][1]:
            fr.decisions.pop()
        if len(fr.decisions) <= fr.fixed:
            return False
        d = fr.decisions[-1]
        d[0] = not d[0]
        d[1] = False
        n = len(fr.decisions) - 1
        while fr.depth > n:
            fr.solver.pop()
            fr.depth -= 1
        return True

    def pc(self):
        fr = self.frames[-1]
        out = []
        for t in fr.keep:
            out.append(t if fr.lits[t.get_id()] else z3.Not(t))
        return z3.And(*out) if out else z3.BoolVal(True)

    def open_prefixes(self, fr):
        """Unexplored alternatives of this frame, as decision prefixes."""
        out = []
        vals = [(d[0], d[2]) for d in fr.decisions]
        for i in range(fr.fixed, len(fr.decisions)):
            if fr.decisions[i][1]:
                out.append(vals[:i] + [(not vals[i][0], vals[i][1])])
        return out

    def explore(self, fn, prefix=(), stop=None):
        """Run fn() once per feasible path.  Returns prefixes left over when
        `stop()` said so."""
        fr = Frame(None, prefix)
        first = True
        self.frames.append(fr)
        try:
            while True:
                # inputs (and their axioms) are re-created by fn on every path
                self.axioms = []
                if first:
                    fr.solver = self.new_solver()
                    first = False
                fr.pos = 0
                fr.lits = {}
                fr.alias = {}
                fr.keep = []
                self.stats.paths += 1
                try:
                    fn()
                except PathInfeasible:
                    self.stats.infeasible += 1
                # drop decisions that this run did not reach (cannot happen for
                # deterministic code; guarded for safety)
                if len(fr.decisions) > fr.pos and fr.pos >= fr.fixed:
                    while len(fr.decisions) > fr.pos:
                        fr.decisions.pop()
                    while fr.depth > len(fr.decisions):
                        fr.solver.pop()
                        fr.depth -= 1
                if stop is not None and stop():
                    return self.open_prefixes(fr)
                if not self._backtrack(fr):
                    return []
        finally:
            self.frames.pop()

    # -- merged evaluation ----------------------------------------------
    def summarize(self, fn, key=None, keep=None):
        """Explore fn in a nested frame.  Returns [(guard, ok, value)] covering
        every feasible outcome *independently of the caller's path condition*."""
        if key is not None:
            key = (key, self.axiom_ids())
            hit = self.summary_cache.get(key)
            if hit is not None:
                self.stats.summary_hits += 1
                return hit[0]
        self.stats.summaries += 1
        fr = Frame(self.new_solver())
        self.frames.append(fr)
        self.in_summary += 1
        outcomes = []
        mut0 = self.mutations
        try:
            while True:
                fr.pos = 0
                fr.lits = {}
                fr.alias = {}
                fr.keep = []
                self.stats.nested_paths += 1
                try:
                    v = fn()
                    outcomes.append((self.pc(), True, v))
                except PathInfeasible:
                    pass
                except Unsupported:
                    raise
                except Exception as e:  # an outcome of the code under test
                    outcomes.append((self.pc(), False, e))
                if self.mutations != mut0:
                    raise Unsupported("summarised computation mutates state")
                if len(fr.decisions) > fr.pos:
                    del fr.decisions[fr.pos:]
                    while fr.depth > len(fr.decisions):
                        fr.solver.pop()
                        fr.depth -= 1
                if len(outcomes) > 20000:
                    raise Limit("summary too large")
                if not self._backtrack(fr):
                    break
        finally:
            self.in_summary -= 1
            self.frames.pop()
        if key is not None:
            self.summary_cache[key] = (outcomes, keep, list(self.axioms))
        return outcomes

    def merged_bool(self, fn, key=None, keep=None):
        """fn() -> bool, as one SymBool (or bool); exceptions are re-raised on
        the paths on which they happen."""
        if key is not None:
            mk = (key, self.axiom_ids())
            hit = self.merged_cache.get(mk)
            if hit is not None:
                self.stats.summary_hits += 1
                return hit[0]
        outs = self.summarize(fn, key, keep)
        exc = [(g, v) for g, ok, v in outs if not ok]
        for g, e in exc:
            if self.branch(g):
                raise e
        true = []
        total = 0
        for g, ok, v in outs:
            if not ok:
                continue
            total += 1
            if isinstance(v, SymBool):
                true.append(z3.And(g, v.t))
            elif v:
                true.append(g)
        if not true:
            r = False
        elif len(true) == total and not exc and all(
            not isinstance(v, SymBool) for g, ok, v in outs
        ):
            r = True
        else:
            r = wrap_bool(z3.Or(*true) if len(true) > 1 else true[0])
        if key is not None and not exc:
            # keeps the terms alive whose ids are part of the key
            self.merged_cache[mk] = (r, keep, list(self.axioms))
        return r

    # -- assertions -----------------------------------------------------
    def refute(self, cond):
        """None if `cond` holds on the current path for all values, 'unknown',
        or a z3 model that falsifies it."""
        fr = self.frames[-1]
        self.stats.assert_queries += 1
        if cond is True:
            return None
        if self.sliced:
            neg = z3.BoolVal(True) if cond is False else z3.Not(cond)
            r, s = self._sliced(fr, neg)
            if r == z3.unsat:
                return None
            return self._merged_model(fr, neg) or "unknown"
        if cond is False:
            r = self._check(fr.solver)
        else:
            r = self._check(fr.solver, z3.Not(cond))
        if r == z3.unsat:
            return None
        if r == z3.unknown:
            return "unknown"
        return fr.solver.model()

    def model(self):
        fr = self.frames[-1]
        if self.sliced:
            return self._merged_model(fr)
        r = self._check(fr.solver)
        if r == z3.sat:
            return fr.solver.model()
        return None


class MergedModel:
    def __init__(self, table):
        self.table = table

    def eval(self, v, model_completion=True):
        m = self.table.get(v.decl().name())
        if m is None:
            s = z3.Solver()
            s.check()
            m = s.model()
        return m.eval(v, model_completion=model_completion)


ENGINE: Engine | None = None


def set_engine(e):
    global ENGINE
    ENGINE = e


def engine() -> Engine:
    return ENGINE


# ----------------------------------------------------------------------------
# proxies
# ----------------------------------------------------------------------------
def wrap_bool(t):
    if isinstance(t, bool):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def term(x):
    """z3 Bool term (or python bool) of a bool-ish value."""
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, (SymReal, SymInt)):
        return x.t != 0
    return bool(x)


def zterm(x):
    t = term(x)
    return z3.BoolVal(t) if isinstance(t, bool) else t


def _conds(t, out, depth=0):
    """conditions of the if-then-else terms inside an arithmetic term"""
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c = t.arg(0)
        if not any(c.eq(o) for o in out):
            out.append(c)
    if depth > 40 or len(out) > 1:
        return
    for i in range(t.num_args()):
        a = t.arg(i)
        if not z3.is_bool(a):
            _conds(a, out, depth + 1)


def fold(t):
    """constant folding; z3.simplify orders arguments by internal ids, so its result
    is used only where it is a constant (replayed decisions have to meet the
    same terms again)"""
    out = []
    _conds(t, out)
    if len(out) == 1:
        c = out[0]
        hi = z3.simplify(z3.substitute(t, (c, z3.BoolVal(True))))
        lo = z3.simplify(z3.substitute(t, (c, z3.BoolVal(False))))
        if z3.is_true(hi) and z3.is_true(lo):
            return z3.BoolVal(True)
        if z3.is_false(hi) and z3.is_false(lo):
            return z3.BoolVal(False)
        if z3.is_true(hi) and z3.is_false(lo):
            return c
        if z3.is_false(hi) and z3.is_true(lo):
            return z3.Not(c)
        return t
    if out:
        return t
    r = z3.simplify(t)
    return r if z3.is_true(r) or z3.is_false(r) else t


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ENGINE.branch(self.t)

    def __and__(self, o):
        return And(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return Not(self)

    def __xor__(self, o):
        return wrap_bool(z3.Xor(self.t, zterm(o)))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return Iff(self, o)
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (bool, SymBool)):
            return Not(Iff(self, o))
        return NotImplemented

    def __hash__(self):
        raise Unsupported("hash of a symbolic bool")

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def __repr__(self):
        return "<symbool>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _flat(xs):
    for x in xs:
        if isinstance(x, (list, tuple)) or hasattr(x, "__next__"):
            yield from _flat(x)
        else:
            yield x


def And(*xs):
    ts = []
    for x in _flat(xs):
        t = term(x)
        if t is False:
            return False
        if t is True:
            continue
        ts.append(t)
    if not ts:
        return True
    return wrap_bool(z3.And(*ts) if len(ts) > 1 else ts[0])


def Or(*xs):
    ts = []
    for x in _flat(xs):
        t = term(x)
        if t is True:
            return True
        if t is False:
            continue
        ts.append(t)
    if not ts:
        return False
    return wrap_bool(z3.Or(*ts) if len(ts) > 1 else ts[0])


def Not(x):
    t = term(x)
    if isinstance(t, bool):
        return not t
    return wrap_bool(z3.Not(t))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    ta, tb = term(a), term(b)
    if isinstance(ta, bool) and isinstance(tb, bool):
        return ta == tb
    if isinstance(ta, bool):
        return wrap_bool(tb if ta else z3.Not(tb))
    if isinstance(tb, bool):
        return wrap_bool(ta if tb else z3.Not(ta))
    if ta.eq(tb):
        return True
    return wrap_bool(ta == tb)


def Ite(c, a, b):
    """Boolean if-then-else."""
    tc = term(c)
    if isinstance(tc, bool):
        return a if tc else b
    return wrap_bool(z3.If(tc, zterm(a), zterm(b)))


_TOKENS = {}


class _SymNum:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ENGINE.branch(self.t != 0)

    def __hash__(self):
        raise Unsupported("hash of a symbolic number")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "<symnum>"

    def __format__(self, spec):
        return "<symnum>"

    __str__ = __repr__


def _numterm(x, real):
    if isinstance(x, SymReal):
        return x.t
    if isinstance(x, SymInt):
        return z3.ToReal(x.t) if real else x.t
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.RealVal(x) if real else z3.IntVal(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float against a symbolic number")
        from fractions import Fraction

        # the decimal literal a programmer wrote, not its binary rounding
        fr = Fraction(repr(x))
        return z3.RealVal(f"{fr.numerator}/{fr.denominator}")
    return None


class SymInt(_SymNum):
    __slots__ = ()

    def _bin(self, o, f, swap=False):
        if isinstance(o, (SymReal, float)):
            a, b = z3.ToReal(self.t), _numterm(o, True)
            return SymReal(f(b, a) if swap else f(a, b))
        b = _numterm(o, False)
        if b is None:
            return NotImplemented
        return SymInt(f(b, self.t) if swap else f(self.t, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return to_real(self) / o

    def __rtruediv__(self, o):
        return o / to_real(self)

    def __pow__(self, o):
        return to_real(self) ** o

    def __neg__(self):
        return SymInt(-self.t)

    def __abs__(self):
        return SymInt(z3.If(self.t < 0, -self.t, self.t))

    def __eq__(self, o):
        b = _numterm(o, isinstance(o, (float, SymReal)))
        if b is None:
            return False
        return wrap_bool(fold(self.t == b))

    def __ne__(self, o):
        return Not(self == o)

    def _cmp(self, o, f):
        b = _numterm(o, isinstance(o, (float, SymReal)))
        if b is None:
            return NotImplemented
        return wrap_bool(fold(f(self.t, b)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    __hash__ = _SymNum.__hash__

    def concretize(self):
        """Fork over every feasible value."""
        e = ENGINE
        while True:
            fr = e.frames[-1]
            # deterministic candidate order: smallest feasible value first
            v = _smallest(e, fr, self.t)
            if e.branch(self.t == v):
                return v

    def __index__(self):
        return self.concretize()

    __int__ = __index__

    def __float__(self):
        return float(self.concretize())


def _smallest(e, fr, t):
    # during replay of a recorded prefix the candidate has to be the same one
    store = getattr(e, "_cands", None)
    if store is None:
        store = e._cands = {}
    k = (len(e.frames), tuple(d[0] for d in fr.decisions[: fr.pos]), t.get_id())
    if k in store:
        return store[k][0]
    # find the smallest feasible value under the constraints *asserted for the
    # decisions taken so far on this path*
    s = e.new_solver()
    for l in fr.keep:
        s.add(l if fr.lits[l.get_id()] else z3.Not(l))
    if e._check(s) != z3.sat:
        raise PathInfeasible()
    v = s.model().eval(t, model_completion=True).as_long()
    while True:
        s.add(t < v)
        if e._check(s) != z3.sat:
            break
        v = s.model().eval(t, model_completion=True).as_long()
    store[k] = (v, t)
    return v


def to_real(x):
    if isinstance(x, SymInt):
        return SymReal(z3.ToReal(x.t))
    return x


# set by symmath while a harness works with real functions: equal rational functions
# become the same term
CANON = lambda t: t
FORK_ABS = False
SAME = None


def _nonfinite(x):
    return type(x) is float and (x != x or x in (float("inf"), float("-inf")))


def _sign(x):
    """fork over the sign of a symbolic real"""
    if ENGINE.branch(fold(x.t > 0)):
        return 1.0
    return -1.0 if ENGINE.branch(fold(x.t < 0)) else 0.0


class SymReal(_SymNum):
    __slots__ = ()

    def _bin(self, o, f, swap=False):
        if _nonfinite(o):
            raise Unsupported("non-finite float against a symbolic number")
        b = _numterm(o, True)
        if b is None:
            return NotImplemented
        return SymReal(f(b, self.t) if swap else f(self.t, b))

    def __add__(self, o):
        if _nonfinite(o):
            return o
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if _nonfinite(o):
            return o
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        if _nonfinite(o):
            return -o
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if _nonfinite(o):
            return o
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if _nonfinite(o):
            return o * _sign(self)
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def _div(self, a, b):
        if ENGINE.branch(fold(CANON(b) == 0)):
            raise ZeroDivisionError("division by zero")
        return SymReal(a / b)

    def __truediv__(self, o):
        if _nonfinite(o):
            return 0.0 if o == o else o
        b = _numterm(o, True)
        if b is None:
            return NotImplemented
        return self._div(self.t, b)

    def __rtruediv__(self, o):
        if _nonfinite(o):
            return o * _sign(self)
        b = _numterm(o, True)
        if b is None:
            return NotImplemented
        return self._div(b, self.t)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = z3.RealVal(1)
            for _ in range(o):
                r = self.t if _ == 0 else r * self.t
            return SymReal(r)
        if isinstance(o, float) and o == 0.5:
            from . import symmath

            return symmath.sqrt(self)
        if isinstance(o, float) and o.is_integer() and 0 <= o <= 4:
            return self ** int(o)
        if isinstance(o, float) and o == -0.5:
            return 1 / (self**0.5)
        if isinstance(o, int) and -4 <= o < 0:
            return 1 / (self ** (-o))
        raise Unsupported("symbolic power")

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def __neg__(self):
        return SymReal(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        if FORK_ABS:
            return -self if self < 0 else self
        return SymReal(z3.If(self.t < 0, -self.t, self.t))

    def __round__(self, nd=None):
        from . import symmath

        return symmath.rounded(self, nd or 0)

    def __eq__(self, o):
        if _nonfinite(o):
            return False
        b = _numterm(o, True)
        if b is None:
            return False
        if SAME is not None and SAME(self.t, b):
            return True
        return wrap_bool(fold(CANON(self.t) == CANON(b)))

    def __ne__(self, o):
        return Not(self == o)

    def _cmp(self, o, f):
        if _nonfinite(o):
            return f(0.0, o)
        b = _numterm(o, True)
        if b is None:
            return NotImplemented
        return wrap_bool(fold(f(CANON(self.t), CANON(b))))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    __hash__ = _SymNum.__hash__

    def __float__(self):
        raise Unsupported("float() of a symbolic real")

    def __int__(self):
        raise Unsupported("int() of a symbolic real")

    def item(self):
        return self


# ----------------------------------------------------------------------------
# symbolic-presence dictionary
# ----------------------------------------------------------------------------
class SymMap(dict):
    """A dict over a finite key universe in which the presence of each key is a
    z3 Bool.  Every operation forks exactly on the presence bits it looks at.
    Iteration order: the universe order given, then insertion order."""

    def __init__(self, entries=()):
        dict.__init__(self)
        self._e = {}
        self._ver = 0
        for k, p, v in entries:
            self._e[k] = (p, v)

    # reads
    def _present(self, k):
        try:
            ent = self._e.get(k)
        except TypeError:
            raise
        if ent is None:
            return False
        p = ent[0]
        if p is True or p is False:
            return p
        return ENGINE.branch(p)

    def __contains__(self, k):
        return self._present(k)

    def __getitem__(self, k):
        if not self._present(k):
            raise KeyError(k)
        return self._e[k][1]

    def get(self, k, default=None):
        return self._e[k][1] if self._present(k) else default

    def __iter__(self):
        ver = self._ver
        for k in list(self._e):
            if self._ver != ver:
                raise RuntimeError("dictionary changed size during iteration")
            if self._present(k):
                yield k
        if self._ver != ver:
            raise RuntimeError("dictionary changed size during iteration")

    def keys(self):
        return _View(self, lambda k: k, True)

    def values(self):
        return _View(self, lambda k: self._e[k][1])

    def items(self):
        return _View(self, lambda k: (k, self._e[k][1]))

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __len__(self):
        return sum(1 for _ in self)

    def __bool__(self):
        return any(True for _ in self)

    def copy(self):
        m = SymMap()
        m._e = dict(self._e)
        return m

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        import copy as _c

        m = SymMap()
        memo[id(self)] = m
        m._e = {k: (p, _c.deepcopy(v, memo)) for k, (p, v) in self._e.items()}
        return m

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        a, b = dict(self.items()), dict(o.items())
        return a == b

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __or__(self, o):
        d = dict(self.items())
        d.update(o)
        return d

    def __repr__(self):
        return "<symmap>"

    # writes
    def _touch(self):
        ENGINE.mutations += 1

    def __setitem__(self, k, v):
        self._touch()
        if self._present(k):
            self._e[k] = (True, v)
        else:
            self._e.pop(k, None)
            self._e[k] = (True, v)
            self._ver += 1

    def __delitem__(self, k):
        self._touch()
        if not self._present(k):
            raise KeyError(k)
        del self._e[k]
        self._ver += 1

    _MISSING = object()

    def pop(self, k, default=_MISSING):
        if not self._present(k):
            if default is SymMap._MISSING:
                raise KeyError(k)
            return default
        self._touch()
        v = self._e.pop(k)[1]
        self._ver += 1
        return v

    def popitem(self):
        ks = list(self)
        if not ks:
            raise KeyError("popitem(): dictionary is empty")
        k = ks[-1]
        return k, self.pop(k)

    def setdefault(self, k, default=None):
        if self._present(k):
            return self._e[k][1]
        self[k] = default
        return default

    def update(self, *a, **kw):
        for k, v in dict(*a, **kw).items():
            self[k] = v

    def clear(self):
        self._touch()
        self._e.clear()
        self._ver += 1

    # engine access (no forking)
    def presence(self, k):
        ent = self._e.get(k)
        return False if ent is None else ent[0]

    def raw(self, k):
        return self._e[k][1]


class _View:
    __slots__ = ("m", "f", "k")

    def __init__(self, m, f, keys=False):
        self.m, self.f, self.k = m, f, keys

    def __iter__(self):
        for k in self.m:
            yield self.f(k)

    def __len__(self):
        return len(self.m)

    def __contains__(self, x):
        if self.k:
            return x in self.m
        return any(x == y for y in self)

    def _set(self):
        return set(self)

    def __and__(self, o):
        return self._set() & set(o)

    __rand__ = __and__

    def __or__(self, o):
        return self._set() | set(o)

    __ror__ = __or__

    def __sub__(self, o):
        return self._set() - set(o)

    def __rsub__(self, o):
        return set(o) - self._set()

    def __xor__(self, o):
        return self._set() ^ set(o)

    def isdisjoint(self, o):
        return self._set().isdisjoint(o)

    def __eq__(self, o):
        return self._set() == set(o)

    def __ne__(self, o):
        return not self == o

    def __le__(self, o):
        return self._set() <= set(o)

    def __ge__(self, o):
        return self._set() >= set(o)

    __hash__ = None
