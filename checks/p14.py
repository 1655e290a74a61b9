"""P14: generators yield exactly the work items they promise."""
import collections
import itertools
import random

from symx.driver import Harness
from symx.core import And, Or, Not, Iff, Implies
from symx.graphs import MixedGraph, merged_queries
from checks import orient as O
from causy.generators import (
    AllCombinationsGenerator, PairsWithEdgesInBetweenGenerator, PairsWithNeighboursGenerator, RandomSampleGenerator,
)
from causy.models import ComparisonSettings


def skeleton(ctx, names, soft=False):
    adj = {}
    for a, b in itertools.combinations(names, 2):
        adj[a, b] = adj[b, a] = ctx.bool(f"adj_{a}{b}")
    if not soft:
        return MixedGraph(ctx, names, rows="all", types="tied", live=adj), adj
    left = {}
    for a, b in itertools.combinations(names, 2):
        left[a, b] = left[b, a] = ctx.bool(f"left_{a}{b}")
    mg = MixedGraph(ctx, names, soft=True, rows="all", types="tied",
                    live={k: Or(adj[k], left[k]) for k in adj})
    for k in adj:
        ctx.assume(Iff(mg.deleted[k], And(left[k], Not(adj[k]))))
    return mg, adj


class AllCombinations(Harness):
    def __init__(self, n):
        self.names = list("ABCDEF"[:n])
        self.n = n
        self.name = f"all-combinations/n{n}"
        self.bounds = f"{n} nodes, every min in 0..{n + 1} and max in 0 (= as many as fields)..{n + 2}"

    def run(self, ctx):
        n = self.n
        lo = ctx.choice("min", range(0, n + 2))
        hi = ctx.choice("max", range(0, n + 3))
        mg = MixedGraph(ctx, self.names, live={p: False for p in itertools.permutations(self.names, 2)})
        gen = AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=lo, max=hi))
        got = [frozenset(x) for x in gen.generate(mg.g, None)]
        sizes = range(lo, (n if hi == 0 else min(hi, n)) + 1)
        want = [frozenset(c) for k in sizes for c in itertools.combinations(self.names, k)]
        ctx.check(
            collections.Counter(got) == collections.Counter(want),
            f"every node set of size {lo}..{hi} exactly once",
        )


class EdgePairs(Harness):
    validate_max = 6

    def __init__(self, n, chunked, soft):
        self.names = list("ABCDEF"[:n])
        self.chunked, self.soft = chunked, soft
        self.name = f"edge-pairs/n{n}{'/chunked' if chunked else ''}{'/soft' if soft else ''}"
        self.bounds = f"every mixed graph on {n} nodes{', soft-deleted edges' if soft else ''}, chunk size 1..{n * n}"

    def sym_patches(self):
        return merged_queries()

    def run(self, ctx):
        mg = MixedGraph(ctx, self.names, soft=self.soft, rows="all", types="tied")
        kw = {}
        size = None
        if self.chunked:
            size = ctx.choice("chunk", [1, 2, 3, len(mg.pairs)])
            kw = {"chunked": True, "chunk_size": size}
        gen = PairsWithEdgesInBetweenGenerator(**kw)
        out = list(gen.generate(mg.g, None))
        if self.chunked:
            ctx.check(all(len(c) <= size for c in out), "no chunk exceeds the chunk size")
            out = [e for c in out for e in c]
        out = [tuple(e) for e in out]
        for p in mg.pairs:
            ctx.check(
                Iff(out.count(p) == 1, mg.live(*p)), f"edge {p} is visited exactly once iff it exists"
            )
            ctx.check(out.count(p) <= 1, f"edge {p} is not visited twice")


class Neighbours(Harness):
    validate_max = 6

    def __init__(self, n, chunked, shuffle, soft, lo=2, hi=0, removal=False):
        self.names = list("ABCDEF"[:n])
        self.chunked, self.shuffle, self.soft, self.lo, self.hi, self.removal = chunked, shuffle, soft, lo, hi, removal
        self.name = (
            f"neighbours/n{n}/{lo}-{hi}{'/chunked' if chunked else ''}{'/shuffled' if shuffle else ''}"
            f"{'/soft' if soft else ''}{'/removal' if removal else ''}"
        )
        self.bounds = (
            f"every skeleton on {n} nodes{' with soft-deleted leftovers' if soft else ''}, sizes {lo}..{hi or n}"
            f"{', one arbitrary edge removed after an arbitrary chunk' if removal else ''}"
        )

    def sym_patches(self):
        return merged_queries()

    def run(self, ctx):
        random.seed(7)
        names = self.names
        mg, adj = skeleton(ctx, names, self.soft)
        gen = PairsWithNeighboursGenerator(
            comparison_settings=ComparisonSettings(min=self.lo, max=self.hi),
            chunked=self.chunked, shuffle_combinations=self.shuffle,
        )
        hi = min(self.hi or len(names), len(names))
        if self.removal:
            return self.run_removal(ctx, mg, adj, gen, hi)
        out = list(gen.generate(mg.g, None))
        if self.chunked:
            out = [x for c in out for x in c]
        cnt = collections.Counter((x[0], x[1], frozenset(x[2:])) for x in out)
        for x in out:
            ctx.check(len(set(x)) == len(x), f"item {x} has no repeated node")
        for u, v in itertools.permutations(names, 2):
            rest = [z for z in names if z not in (u, v)]
            for k in range(0, len(rest) + 1):
                for S in itertools.combinations(rest, k):
                    want = (
                        And(adj[u, v], [adj[u, z] for z in S]) if self.lo <= k + 2 <= hi else False
                    )
                    c = cnt.pop((u, v, frozenset(S)), 0)
                    ctx.check(c <= 1, f"({u},{v}|{S}) is not tested twice")
                    ctx.check(
                        Iff(c == 1, want),
                        f"({u},{v}|{''.join(S)}) is visited iff {u}-{v} is an edge and {S} are neighbours of {u}",
                    )
        ctx.check(not cnt, "no other item is visited")

    def run_removal(self, ctx, mg, adj, gen, hi):
        """edges which a test removes in between are not offered any more, and
        pairs which stay adjacent are all visited with their remaining neighbours"""
        names = self.names
        at = ctx.choice("at", range(0, 3))
        a, b = ctx.choice("edge", list(itertools.combinations(names, 2)))
        ctx.assume(adj[a, b])
        removed = False
        seen = []
        for i, chunk in enumerate(gen.generate(mg.g, None)):
            for x in chunk:
                x = tuple(x)
                if removed:
                    ctx.check(
                        set(x[:2]) != {a, b} and not (x[0] == a and b in x[2:]) and not (x[0] == b and a in x[2:]),
                        f"{x} is offered although {a}-{b} has been removed",
                    )
                seen.append((x[0], x[1], frozenset(x[2:])))
            if i == at:
                mg.gm.remove_edge(mg.node[a], mg.node[b], soft_delete=True)
                removed = True
        if not removed:
            return
        for u, v in itertools.permutations(names, 2):
            if {u, v} == {a, b}:
                continue
            rest = [z for z in names if z not in (u, v) and {u, z} != {a, b}]
            for k in range(self.lo - 2, min(hi - 2, len(rest)) + 1):
                for S in itertools.combinations(rest, k):
                    ctx.check(
                        Implies(And(adj[u, v], [adj[u, z] for z in S]), (u, v, frozenset(S)) in seen),
                        f"({u},{v}|{''.join(S)}) stays a candidate after {a}-{b} is removed",
                    )


class Large(Harness):
    """many nodes: more items per pair and more edges than any built-in batch"""

    validate_max = 4

    def __init__(self, kind, n):
        self.kind, self.n = kind, n
        self.names = [f"N{i}" for i in range(n)]
        self.name = f"large/{kind}/n{n}"
        self.bounds = f"{n} nodes, complete graph, or without one of three edges, or a star; chunked or not, default settings otherwise"

    def sym_patches(self):
        return merged_queries()

    def run(self, ctx):
        random.seed(7)
        names = self.names
        shape = ctx.choice("shape", ("complete", ("N0", "N1"), ("N1", f"N{self.n - 1}"), (f"N{self.n - 2}", f"N{self.n - 1}"), "star"))
        chunked = ctx.flag("chunked")
        live = {
            (a, b): "N2" in (a, b) if shape == "star" else not (isinstance(shape, tuple) and {a, b} == set(shape))
            for a, b in itertools.permutations(names, 2)
        }
        mg = MixedGraph(ctx, names, rows="all", types="tied", live=live)
        nb = {u: [v for v in names if v != u and live[u, v]] for u in names}
        if self.kind == "edges":
            out = list(PairsWithEdgesInBetweenGenerator(chunked=chunked).generate(mg.g, None))
            want = [p for p in live if live[p]]
        else:
            gen = PairsWithNeighboursGenerator(
                comparison_settings=ComparisonSettings(min=4, max=0), chunked=chunked, shuffle_combinations=ctx.flag("shuffled"),
            )
            out = list(gen.generate(mg.g, None))
            want = [
                (u, v, frozenset(S)) for u in names for v in nb[u] for k in range(2, self.n - 1)
                for S in itertools.combinations([z for z in nb[u] if z != v], k)
            ]
        if chunked:
            out = [x for c in out for x in c]
        out = [tuple(x[:2]) + ((frozenset(x[2:]),) if self.kind != "edges" else ()) for x in out]
        ctx.check(collections.Counter(out) == collections.Counter(want), "every item exactly once, however many there are")


class Sampled(Harness):
    """a sample of another generator's items, decided by a coin per item"""

    validate_max = 10

    def __init__(self, nth, kind="pairs"):
        self.nth, self.kind = nth, kind
        self.name = f"sampled/every{nth}/{kind}"
        self.bounds = f"3 nodes, {kind}; per item the random number is any of 0..{nth}; ends included"

    def run(self, ctx):
        names = list("ABC")
        mg = MixedGraph(ctx, names, live={p: self.kind != "pairs" for p in itertools.permutations(names, 2)})
        inner = {
            "pairs": lambda: AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=2, max=2)),
            "edges": lambda: PairsWithEdgesInBetweenGenerator(),
            "neighbours": lambda: PairsWithNeighboursGenerator(
                comparison_settings=ComparisonSettings(min=3, max=3), chunked=False, shuffle_combinations=False),
            "chunks": lambda: PairsWithNeighboursGenerator(
                comparison_settings=ComparisonSettings(min=3, max=3), chunked=True, shuffle_combinations=False),
        }[self.kind]()
        key = (lambda x: tuple(map(tuple, x))) if self.kind == "chunks" else tuple
        gen = RandomSampleGenerator(generator=inner, every_nth=self.nth)
        drawn = []

        def draw(*a, **k):
            drawn.append(ctx.flag(f"hit{len(drawn)}"))
            return 0 if drawn[-1] else max(1, self.nth)

        saved = {n: getattr(random, n) for n in ("randint", "randrange")}
        for n in saved:
            setattr(random, n, draw)
        try:
            got = [key(x) for x in gen.generate(mg.g, None)]
        finally:
            for n, f in saved.items():
                setattr(random, n, f)
        offered = [key(x) for x in inner.generate(mg.g, None)]
        rest = list(offered)
        for x in got:
            ctx.check(x in rest, "only items of the generator are offered, none more often, in its order")
            if x not in rest:
                return
            del rest[:rest.index(x) + 1]
        if len(drawn) == len(offered):
            ctx.check(got == [x for x, d in zip(offered, drawn) if d], "an item is offered exactly if it was drawn")


def harnesses(tier):
    hs = [AllCombinations(n) for n in (0, 1, 3, 4, 5, 8)]
    hs += [Large("edges", 12), Large("neighbours", 10)] + [Sampled(100, k) for k in ("pairs", "edges", "neighbours", "chunks")]
    hs += [EdgePairs(4, False, False), EdgePairs(3, False, True), EdgePairs(3, True, True)]
    hs += [
        Neighbours(4, True, False, False),
        Neighbours(4, True, True, False, 3, 4),
        Neighbours(4, False, False, False, 2, 3),
        Neighbours(4, False, True, False, 3, 3),
        Neighbours(4, True, False, False, 4, 9),
        Neighbours(3, True, False, True),
        Neighbours(3, False, False, True),
        Neighbours(4, True, False, False, 2, 2),
        Neighbours(4, True, False, False, 3, 0, removal=True),
        Neighbours(5, True, False, False, 4, 0),
    ]
    if tier == "thorough":
        hs += [
            Neighbours(5, True, False, False), Neighbours(5, False, True, False, 3, 5),
            Neighbours(4, True, False, True), Neighbours(5, True, False, False, 3, 0, removal=True),
            EdgePairs(4, False, True), EdgePairs(4, True, False),
        ]
    return hs
