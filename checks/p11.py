"""P11: reachability and path queries are exact and terminate."""
import itertools

from symx.driver import Harness
from symx.core import And, Or, Not, Iff, Implies
from symx.graphs import MixedGraph, merged_queries
from checks import orient as O
from causy.graph import Node


def ids(nodes):
    return [n.id if isinstance(n, Node) else n for n in nodes]


def simple_paths(names, u, v):
    rest = [x for x in names if x not in (u, v)]
    for k in range(len(rest) + 1):
        for mid in itertools.permutations(rest, k):
            yield (u, *mid, v)


class Query(Harness):
    validate_max = 6

    def __init__(self, what, n, u, v, dag=False, soft=False, rows="all", form="ids"):
        self.names = list("ABCDEF"[:n])
        self.what, self.u, self.v, self.dag, self.soft, self.rows, self.form = what, u, v, dag, soft, rows, form
        self.name = (
            f"{what}/n{n}/{u}{v or ''}{'/dag' if dag else '/mixed'}{'/soft' if soft else ''}"
            f"{'/sparse' if rows != 'all' else ''}"
        )
        self.bounds = (
            f"every {'DAG' if dag else 'mixed graph (cycles and undirected edges included)'} on {n} nodes"
            f"{', edges may be soft-deleted' if soft else ''}, from {u}{' to ' + v if v else ''}, arguments as {form}"
        )

    def sym_patches(self):
        return merged_queries()

    def run(self, ctx):
        names, u, v = self.names, self.u, self.v
        mg = MixedGraph(ctx, names, soft=self.soft, rows=self.rows, types="tied")
        g = mg.g
        if self.dag:
            ctx.assume(ctx.memo("acyclic", lambda: O.acyclic(names, mg.live)))
        U = u if self.form == "ids" else mg.node[u]
        V = v if (self.form == "ids" or not v) else mg.node[v]
        if self.what == "directed_path_exists":
            want = ctx.memo("reach", lambda: O.closure(names, mg.live)[u, v])
            got = g.directed_path_exists(U, V)
            ctx.check(Iff(got, want), f"a directed path {u}..{v} is reported iff there is one")
        elif self.what == "descendants":
            reach = ctx.memo("reach", lambda: O.closure(names, mg.only))
            got = ids(g.descendants_of_node(U))
            ctx.check(len(got) == len(set(got)), "every descendant is listed once")
            for x in names:
                want = True if x == u else reach[u, x]
                ctx.check(Iff(x in got, want), f"{x} is listed iff it is {u} or a descendant of {u}")
        else:
            if self.what == "directed_paths":
                got = []
                for p in g.directed_paths(U, V):
                    es = [tuple(ids(e)) for e in p]
                    ctx.check(
                        all(es[i][1] == es[i + 1][0] for i in range(len(es) - 1)),
                        "consecutive edges of a path share a node",
                    )
                    got.append((es[0][0],) + tuple(e[1] for e in es))
                edge = mg.live
            else:
                got = [tuple(ids(p)) for p in g.all_paths_on_underlying_undirected_graph(U, V)]
                edge = mg.adj
            allp = list(simple_paths(names, u, v))
            ctx.check(all(p in allp for p in got), "only simple paths between the two nodes are listed")
            ctx.check(len(got) == len(set(got)), "no path is listed twice")
            for p in allp:
                want = ctx.memo(("p", p), lambda: And(edge(a, b) for a, b in zip(p, p[1:])))
                ctx.check(Iff(p in got, want), f"path {'-'.join(p)} is listed iff all of its edges exist")


class Far(Harness):
    """targets that are many edges away"""

    validate_max = 10

    def __init__(self, n):
        self.n = n
        self.names = [f"N{i}" for i in range(n)]
        self.name = f"far/n{n}"
        self.bounds = (
            f"a directed chain over {n} nodes numbered along, against or across it; any one link missing, undirected or "
            "turned round, any one edge between nodes two to four steps apart added; every query from the first node"
        )

    def sym_patches(self):
        return merged_queries()

    def run(self, ctx):
        names = self.names
        how = ctx.choice("numbering", ("along", "against", "across"))
        path = {"along": names, "against": names[::-1], "across": names[::2] + names[1::2][::-1]}[how]
        n = self.n
        at = ctx.choice("where", range(n - 1))
        odd = ctx.choice("odd", ("none", "missing", "undirected", "turned")) if at else "none"
        extra = ctx.choice("extra", (None, (0, 2), (1, 4), (n - 4, n - 1), (n - 1, n - 3)))
        arrows = {(path[i], path[i + 1]) for i in range(n - 1)}
        x, y = path[at], path[at + 1]
        if odd in ("missing", "turned"):
            arrows.remove((x, y))
        if odd in ("undirected", "turned"):
            arrows.add((y, x))
        if extra:
            arrows.add((path[extra[0]], path[extra[1]]))
        mg = MixedGraph(ctx, names, rows="all", types="tied", live={p: p in arrows for p in itertools.permutations(names, 2)})
        g = mg.g
        live = lambda a, b: (a, b) in arrows
        only = lambda a, b: (a, b) in arrows and (b, a) not in arrows

        def reach(a, edge):
            seen, todo = set(), [a]
            while todo:
                c = todo.pop()
                for d in names:
                    if d not in seen and d != c and edge(c, d):
                        seen.add(d)
                        todo.append(d)
            return seen

        def paths(a, b, edge):
            def go(p):
                if p[-1] == b:
                    yield tuple(p)
                    return
                for d in names:
                    if d not in p and edge(p[-1], d):
                        yield from go(p + [d])
            return sorted(go([a]))

        first, last = path[0], path[-1]
        got = ids(g.descendants_of_node(first))
        ctx.check(sorted(got) == sorted(reach(first, only) | {first}), "the descendants of a node, however far, are listed once")
        for b in names[1:] if first == names[0] else names[:-1]:
            if b != first:
                ctx.check(Iff(g.directed_path_exists(first, b), b in reach(first, live)), "a directed path is reported however long")
        got = sorted((p[0][0],) + tuple(e[1] for e in p) for p in ([tuple(ids(e)) for e in q] for q in g.directed_paths(first, last)))
        ctx.check(got == paths(first, last, live), "every directed path is listed however long")
        got = sorted(tuple(ids(p)) for p in g.all_paths_on_underlying_undirected_graph(first, last))
        ctx.check(got == paths(first, last, lambda a, b: live(a, b) or live(b, a)), "every path is listed however long")


def harnesses(tier):
    hs = [Far(8 if tier == "quick" else 12)]
    for what in ("directed_path_exists", "directed_paths", "all_paths"):
        pairs = list(itertools.permutations("ABCD", 2))
        if tier == "quick":
            pairs = [("A", "D"), ("D", "A"), ("B", "C"), ("C", "A")]
        for u, v in pairs:
            hs.append(Query(what, 4, u, v, form="ids" if u < v else "nodes"))
        hs.append(Query(what, 3, "A", "C", soft=True))
        hs.append(Query(what, 3, "B", "A", rows="sym"))
    for u in "ABCD":
        hs.append(Query("descendants", 4, u, None, form="ids" if u < "C" else "nodes"))
    hs.append(Query("descendants", 3, "B", None, soft=True))
    hs.append(Query("descendants", 3, "A", None, rows="sym"))
    n5 = ("A", "E") if tier == "quick" else ("A", "E", "C")
    for u in n5:
        hs.append(Query("descendants", 5, u, None, dag=True))
    hs.append(Query("directed_path_exists", 5, "A", "E", dag=True))
    hs.append(Query("directed_paths", 5, "A", "E", dag=True))
    hs.append(Query("all_paths", 5, "A", "E"))
    if tier != "quick":
        for u, v in itertools.permutations("ABCDE", 2):
            hs.append(Query("all_paths", 5, u, v, dag=True, form="nodes"))
            if (u, v) != ("A", "E"):
                hs.append(Query("directed_path_exists", 5, u, v, dag=True))
                hs.append(Query("directed_paths", 5, u, v, dag=True))
    return hs
