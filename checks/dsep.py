"""shared: textbook d-separation as formulas (moralised ancestral graph)"""
import itertools

import z3

from symx import core

from symx.core import And, Or, Not, Iff, Implies
from checks.orient import acyclic, closure


def dsep_formula(names, arrow, u, v, S):
    """u and v are separated by S in the moral graph of the ancestors of
    {u, v} + S.  `arrow(a, b)`: formula of the edge a -> b."""
    reach = closure(names, arrow)
    top = {u, v} | set(S)
    inA = {n: (True if n in top else Or(reach[n, t] for t in top)) for n in names}

    def moral(a, b):
        return And(
            inA[a], inA[b],
            Or(
                arrow(a, b), arrow(b, a),
                [And(arrow(a, c), arrow(b, c), inA[c]) for c in names if c not in (a, b)],
            ),
        )

    free = [n for n in names if n not in S]
    m = {}
    for a, b in itertools.combinations(free, 2):
        m[a, b] = m[b, a] = moral(a, b)
    r = {(a, b): (m[a, b] if a != b else True) for a in free for b in free}
    for k in free:
        r = {(a, b): Or(r[a, b], And(r[a, k], r[k, b])) for a in free for b in free}
    return Not(r[u, v])


def subsets(xs):
    xs = list(xs)
    for k in range(len(xs) + 1):
        yield from itertools.combinations(xs, k)


def at_most(conds, k):
    """at most k of the conditions hold"""
    ts = [core.term(c) for c in conds]
    if all(isinstance(t, bool) for t in ts):
        return sum(ts) <= k
    return core.wrap_bool(z3.AtMost(*[core.zterm(c) for c in conds], k))


def dag_vars(ctx, names, prefix="g"):
    """arrow(a, b) over fresh bits of an arbitrary DAG"""
    ar = {}
    for a, b in itertools.permutations(names, 2):
        ar[a, b] = ctx.bool(f"{prefix}_{a}{b}")
    arrow = lambda a, b: ar[a, b]
    ctx.assume(ctx.memo(("acyclic", prefix), lambda: acyclic(names, arrow)))
    return arrow


def compelled(names, arrow):
    """comp[a, b]: the edge a - b points a -> b in every DAG with the same skeleton
    and unshielded colliders (Meek's theorem: closure of the unshielded
    colliders under three orientation rules)"""
    pairs = list(itertools.permutations(names, 2))
    adj = {(a, b): Or(arrow(a, b), arrow(b, a)) for a, b in pairs}
    c = {
        (a, b): And(
            arrow(a, b),
            Or(And(arrow(x, b), Not(adj[a, x])) for x in names if x not in (a, b)),
        )
        for a, b in pairs
    }
    n = len(names)
    for _ in range(n * (n - 1) // 2):
        old = c
        c = {}
        for a, b in pairs:
            rest = [x for x in names if x not in (a, b)]
            why = []
            for x in rest:
                why.append(And(old[x, a], Not(adj[x, b])))
                why.append(And(old[a, x], old[x, b]))
            for x, y in itertools.combinations(rest, 2):
                why.append(
                    And(
                        adj[a, x], adj[a, y], Not(old[x, a]), Not(old[y, a]), Not(old[a, x]), Not(old[a, y]),
                        old[x, b], old[y, b], Not(adj[x, y]),
                    )
                )
            c[a, b] = Or(old[a, b], And(adj[a, b], Not(old[b, a]), Or(why)))
    return c


def cpdag_live(names, arrow):
    """live[a, b]: slot (a, b) of the CPDAG (undirected edges occupy both slots)"""
    c = compelled(names, arrow)
    return {
        (a, b): And(Or(arrow(a, b), arrow(b, a)), Not(c[b, a]))
        for a, b in itertools.permutations(names, 2)
    }


def is_cpdag_of(names, live, arrow):
    """the mixed graph `live` is the CPDAG of the DAG `arrow`: same skeleton, arrows
    agree, every unshielded collider directed, closed under the orientation
    rules, and every directed edge strongly protected (Andersson, Madigan,
    Perlman 1997).  Small and local, unlike the closure in `compelled`."""
    P = list(itertools.permutations(names, 2))
    adj = {(a, b): Or(arrow(a, b), arrow(b, a)) for a, b in P}
    d = {(a, b): And(live(a, b), Not(live(b, a))) for a, b in P}
    u = {(a, b): And(live(a, b), live(b, a)) for a, b in P}
    cs = []
    for a, b in P:
        rest = [x for x in names if x not in (a, b)]
        cs.append(Iff(Or(live(a, b), live(b, a)), adj[a, b]))
        cs.append(Implies(d[a, b], arrow(a, b)))
        prot = []
        for c in rest:
            cs.append(Implies(And(arrow(a, b), arrow(c, b), Not(adj[a, c])), d[a, b]))
            cs.append(Not(And(d[c, a], u[a, b], Not(adj[c, b]))))
            cs.append(Not(And(d[a, c], d[c, b], u[a, b])))
            prot.append(And(d[c, a], Not(adj[c, b])))
            prot.append(And(d[c, b], Not(adj[c, a])))
            prot.append(And(d[a, c], d[c, b]))
        for x, y in itertools.combinations(rest, 2):
            r3 = And(u[a, x], u[a, y], d[x, b], d[y, b], Not(adj[x, y]))
            cs.append(Not(And(r3, u[a, b])))
            prot.append(r3)
        cs.append(Implies(d[a, b], Or(prot)))
    return And(cs)
