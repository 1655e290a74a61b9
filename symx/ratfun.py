"""Canonical rational functions of z3 real terms.

Two terms that are equal as rational functions over their atoms (variables, function
applications, if-then-else), using s*s = t for square roots, get the *same* z3 term.
This only rewrites terms into equal ones (denominators are nonzero wherever the code
got past the division); what is decided stays with the solver."""
from __future__ import annotations

import hashlib
from fractions import Fraction

import z3


class TooBig(Exception):
    pass


LIMIT = 4000
BIG = 200000
PRIME = (1 << 61) - 1


class Canon:
    def __init__(self):
        self.memo = {}
        self.atoms = {}  # name -> z3 term
        self.squares = {}  # atom name of sqrt(t) -> (num poly, den poly) of t
        self.keep = []
        self.points = {}
        self.reps = {}  # fingerprint -> [(function, how it is written)]
        self.defs = {}  # canonical rational function -> atom standing for it

    def define(self, var, t):
        """from here on every term equal to t is written as `var`; the link between var
        and t is forgotten (an over-approximation)"""
        n, d = self.rat(t)
        self.atoms[var.decl().name()] = var
        one = {((var.decl().name(), 1),): Fraction(1)}
        neg = {m: -c for m, c in n.items()}
        for num, rep in ((n, one), (neg, {m: -c for m, c in one.items()})):
            self.defs[self.key(num, d)] = (rep, self.const(1))
            fp = self.fingerprint(num, d)
            if fp is not None:
                self.reps.setdefault(fp, []).insert(0, ((num, d), (rep, self.const(1))))
        self.memo.clear()

    def is_def(self, n, d):
        """one of the names introduced by define(), up to sign"""
        return any(n == rn and d == rd for rn, rd in self.defs.values())

    def fingerprint(self, n, d):
        """value at a fixed point of a finite field; equal functions have equal values"""
        x, y = self.at(n), self.at(d)
        return None if y == 0 else x * pow(y, -1, PRIME) % PRIME

    def at(self, p):
        tot = 0
        for m, c in p.items():
            v = c.numerator * (c.denominator if c.denominator == 1 else pow(c.denominator, -1, PRIME))
            for a, e in m:
                h = self.points.get(a)
                if h is None:
                    h = self.points[a] = int.from_bytes(hashlib.sha256(a.encode()).digest()[:7], "big") % PRIME
                v = v * pow(h, e, PRIME) % PRIME
            tot += v
        return tot % PRIME

    def equal(self, a, b):
        """a and b are the same function (cross multiplication)"""
        try:
            return self.pmul(a[0], b[1], BIG) == self.pmul(b[0], a[1], BIG)
        except TooBig:
            return False

    @staticmethod
    def key(n, d):
        return tuple(sorted(n.items())), tuple(sorted(d.items()))

    # polynomials: {((atom, exp), ...): Fraction}
    @staticmethod
    def const(c):
        return {(): Fraction(c)} if c else {}

    @staticmethod
    def padd(a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + k * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    @staticmethod
    def mmul(m, n):
        d = dict(m)
        for a, e in n:
            d[a] = d.get(a, 0) + e
        return tuple(sorted(d.items()))

    def pmul(self, a, b, limit=LIMIT):
        if len(a) * len(b) > limit:
            raise TooBig()
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = self.mmul(m, n)
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return r

    # rational functions: (num, den)
    def reduce(self, num, den):
        num, den = self.desquare(num, den)
        num, den = self.rationalise(num, den)
        if not num:
            return {}, self.const(1)
        # common monomial factor
        common = None
        for m in list(num) + list(den):
            d = dict(m)
            common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d}
            if not common:
                break
        if common:
            num = {self.mdiv(m, common): c for m, c in num.items()}
            den = {self.mdiv(m, common): c for m, c in den.items()}
        if num == den:
            return self.const(1), self.const(1)
        # scale: leading coefficient of den is 1
        lead = den[max(den)]
        num = {m: c / lead for m, c in num.items()}
        den = {m: c / lead for m, c in den.items()}
        # den a multiple of num?
        ln = num[max(num)]
        if set(num) == set(den) and all(c == ln * den[m] for m, c in num.items()):
            return self.const(ln), self.const(1)
        return num, den

    @staticmethod
    def mdiv(m, d):
        return tuple((a, e - d.get(a, 0)) for a, e in m if e - d.get(a, 0))

    def desquare(self, num, den):
        """s^2 -> t for square roots"""
        for _ in range(20):
            hit = None
            for m in list(num) + list(den):
                for a, e in m:
                    if e >= 2 and a in self.squares:
                        hit = a
                        break
                if hit:
                    break
            if not hit:
                return num, den
            tn, td = self.squares[hit]

            def sub(p):
                """-> (p', k): p = p' / td^k"""
                k = max((e // 2 for m in p for a, e in m if a == hit), default=0)
                out = {}
                for m, c in p.items():
                    e = dict(m).get(hit, 0)
                    q = {tuple((a, x) for a, x in m if a != hit) if e % 2 == 0 else tuple((a, x if a != hit else 1) for a, x in m): c}
                    for _ in range(e // 2):
                        q = self.pmul(q, tn)
                    for _ in range(k - e // 2):
                        q = self.pmul(q, td)
                    out = self.padd(out, q)
                return out, k

            num, kn = sub(num)
            den, kd = sub(den)
            for _ in range(kn):
                den = self.pmul(den, td)
            for _ in range(kd):
                num = self.pmul(num, td)
        raise TooBig()

    def rationalise(self, num, den):
        """monomial denominator: no square roots in it"""
        if len(den) != 1:
            return num, den
        (m, c), = den.items()
        for a, e in m:
            if a in self.squares and e % 2:
                f = {((a, 1),): Fraction(1)}
                num, den = self.pmul(num, f), self.pmul(den, f)
                num, den = self.desquare(num, den)
                return self.rationalise(num, den) if len(den) == 1 else (num, den)
        return num, den

    def rat(self, t):
        k = t.get_id()
        hit = self.memo.get(k)
        if hit is not None:
            return hit
        r = self._rat(t)
        if self.defs:
            r = self.defs.get(self.key(*r), r)
        if len(r[1]) > 1 or self.defs and len(r[0]) > 1:
            # without a polynomial gcd one function can be written in several ways
            fp = self.fingerprint(*r)
            if fp is not None:
                for f, rep in self.reps.setdefault(fp, []):
                    if f is r or self.equal(f, r):
                        r = rep
                        break
                else:
                    self.reps[fp].append((r, r))
        self.memo[k] = r
        self.keep.append(t)
        return r

    def _rat(self, t):
        if z3.is_rational_value(t):
            return self.const(Fraction(t.numerator_as_long(), t.denominator_as_long())), self.const(1)
        if z3.is_int_value(t):
            return self.const(t.as_long()), self.const(1)
        if z3.is_app(t):
            k = t.decl().kind()
            if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
                acc = self.rat(t.arg(0))
                for i in range(1, t.num_args()):
                    acc = self.radd(acc, self.rat(t.arg(i)), 1 if k == z3.Z3_OP_ADD else -1)
                return self.reduce(*acc)
            if k == z3.Z3_OP_UMINUS:
                n, d = self.rat(t.arg(0))
                return {m: -c for m, c in n.items()}, d
            if k == z3.Z3_OP_MUL:
                acc = self.rat(t.arg(0))
                for i in range(1, t.num_args()):
                    o = self.rat(t.arg(i))
                    acc = self.reduce(self.pmul(acc[0], o[0]), self.pmul(acc[1], o[1]))
                return acc
            if k == z3.Z3_OP_DIV:
                a, b = self.rat(t.arg(0)), self.rat(t.arg(1))
                if b[0]:
                    return self.reduce(self.pmul(a[0], b[1]), self.pmul(a[1], b[0]))
            if k == z3.Z3_OP_TO_REAL:
                a = t.arg(0)
                if a.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL):
                    kids = [z3.ToReal(a.arg(i)) for i in range(a.num_args())]
                    kk = a.decl().kind()
                    if kk == z3.Z3_OP_UMINUS:
                        return self.rat(-kids[0])
                    r = kids[0]
                    for x in kids[1:]:
                        r = r + x if kk == z3.Z3_OP_ADD else (r - x if kk == z3.Z3_OP_SUB else r * x)
                    return self.rat(r)
                if z3.is_int_value(a):
                    return self.const(a.as_long()), self.const(1)
            if k == z3.Z3_OP_ITE:
                t = z3.If(self.boolean(t.arg(0)), self.canon(t.arg(1)), self.canon(t.arg(2)))
        name = t.decl().name() if t.num_args() == 0 else t.sexpr()
        self.atoms[name] = t
        return {((name, 1),): Fraction(1)}, self.const(1)

    def radd(self, a, b, k):
        if a[1] == b[1]:
            return self.padd(a[0], b[0], k), a[1]
        return (
            self.padd(self.pmul(a[0], b[1]), self.pmul(b[0], a[1]), k),
            self.pmul(a[1], b[1]),
        )

    def pterm(self, p):
        if not p:
            return z3.RealVal(0)
        parts = []
        for m in sorted(p):
            c = p[m]
            fs = []
            if c != 1 or not m:
                fs.append(z3.RealVal(f"{c.numerator}/{c.denominator}"))
            for a, e in m:
                fs += [self.atoms[a]] * e
            x = fs[0]
            for f in fs[1:]:
                x = x * f
            parts.append(x)
        x = parts[0]
        for y in parts[1:]:
            x = x + y
        return x

    def canon(self, t):
        if z3.is_int(t):
            return t
        try:
            n, d = self.rat(t)
        except TooBig:
            return t
        r = self.pterm(n)
        if d != self.const(1):
            r = r / self.pterm(d)
        self.keep.append(r)
        return r

    def boolean(self, c):
        """comparisons with canonical sides"""
        if z3.is_app(c) and c.num_args() == 2 and c.decl().kind() in (
            z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE, z3.Z3_OP_EQ
        ) and z3.is_real(c.arg(0)):
            a, b = self.canon(c.arg(0)), self.canon(c.arg(1))
            return {
                z3.Z3_OP_LT: lambda: a < b, z3.Z3_OP_LE: lambda: a <= b, z3.Z3_OP_GT: lambda: a > b,
                z3.Z3_OP_GE: lambda: a >= b, z3.Z3_OP_EQ: lambda: a == b,
            }[c.decl().kind()]()
        if z3.is_not(c):
            return z3.Not(self.boolean(c.arg(0)))
        return c

    def same(self, a, b):
        try:
            n, d = self.rat(a - b)
        except TooBig:
            return False
        return not n

    def monomial_root(self, t, positive):
        """sqrt(t) for t = c^2 * m^2 (or a product of atoms `positive` says are >= 0):
        -> (Fraction, [(atom, exp)], [atoms under the root]) or None"""
        try:
            n, d = self.rat(t)
        except TooBig:
            return None
        if len(n) != 1 or len(d) != 1:
            return None
        (m, c), (q, e) = list(n.items())[0], list(d.items())[0]
        c = c / e
        if c <= 0:
            return None
        rn, rd = _isqrt(c.numerator), _isqrt(c.denominator)
        if rn is None or rd is None:
            return None
        ex = dict(m)
        for a, k in q:
            ex[a] = ex.get(a, 0) - k
        out, roots = [], []
        for a, k in sorted(ex.items()):
            if k == 0:
                continue
            if not positive(self.atoms[a]):
                return None
            if k % 2:
                roots.append(a)
                k -= 1
            out.append((a, k // 2))
        return Fraction(rn, rd), out, roots


def _isqrt(n):
    import math

    r = math.isqrt(n)
    return r if r * r == n else None
