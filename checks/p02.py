"""P02: remove -> restore gives back exactly the edge."""
from symx.driver import Harness
from symx.core import And, Or, Not, Iff, Implies
from symx.graphs import MixedGraph, ensure_mixins
from causy.graph import GraphManager
from checks.p01 import TYPES, Expected, apply_op, check_point_queries

ensure_mixins()

REMOVALS = (
    "remove_edge",
    "remove_edge_soft",
    "remove_directed_edge",
    "remove_directed_edge_soft",
)
BETWEEN = (
    "none",
    "purge",
    "again",
    "harder",
    "remove_edge",
    "remove_directed_edge_soft",
    "add_edge",
    "update_directed_edge",
    "cycle",
)


class Roundtrip(Harness):
    validate_max = 25

    def __init__(self, removal, between, n=3, deep=False):
        self.deep = deep
        self.removal, self.between, self.n = removal, between, n
        self.names = list("ABC"[:n])
        self.name = f"{removal}/{between}/n{n}"
        self.bounds = (
            f"{n} nodes, arbitrary pre-state (slots absent/live/soft-deleted"
            f"{', 3 types, rows, removed-edge store' if n == 2 or deep else ''}) in which the edge is live; {removal}(A,B), then {between} "
            f"(edits on other pairs, repeated removal, purge or a full remove/restore cycle), "
            f"then the matching restore; every point query"
        )

    def run(self, ctx):
        small = self.n == 3 and not (self.deep and self.between != "purge")
        mg = MixedGraph(
            ctx, self.names, soft=True, rows="all" if small else "sym",
            types="tied" if small else "free", deleted_store=not small,
        )
        gm, N = mg.gm, mg.gm.nodes
        ex = Expected(mg)
        directed = "directed" in self.removal
        soft = self.removal.endswith("soft")
        ctx.assume(ex.live["A", "B"] if directed else And(ex.live["A", "B"], ex.live["B", "A"]))

        def remove(soft=soft):
            if directed:
                gm.remove_directed_edge(N["A"], N["B"], soft_delete=soft)
            else:
                gm.remove_edge(N["A"], N["B"], soft_delete=soft)

        def restore():
            if directed:
                gm.restore_directed_edge(N["A"], N["B"])
            else:
                gm.restore_edge(N["A"], N["B"])

        remove()
        ctx.check(
            Not(ctx.q(lambda: gm.directed_edge_exists("A", "B"))), "the removed edge is gone"
        )
        if self.between == "purge":
            gm.purge_soft_deleted_edges()
        elif self.between == "again":
            remove()
        elif self.between == "harder":
            remove(soft=False)
        elif self.between == "cycle":
            restore()
            remove()
        elif self.between != "none":
            c, d = ctx.choice("other", [("A", "C"), ("C", "B"), ("B", "C")])
            apply_op(ctx, mg, ex, self.between, c, d)
        restore()
        check_point_queries(ctx, mg, ex, f"{self.removal}/{self.between}")


METAS = (None, {}, {"w": 0.0}, {"w": "", "d": {"x": False}})


class Content(Harness):
    """an edge built with the API, one or both directions, with any type and metadata
    (also none at all), survives removing and restoring it, twice"""

    def __init__(self, shape):
        self.shape = shape
        self.name = f"content/{shape}"
        self.bounds = (
            f"3 nodes, edge A{shape}B of each of 3 types with metadata None, empty or filled, removed "
            f"{'as a whole or one direction' if shape == '--' else 'as a whole or that direction'}, "
            "softly or for good, optionally purged, and restored; twice"
        )

    def run(self, ctx):
        gm = GraphManager()
        a, b, c = (gm.add_node(x, [1.0], id_=x) for x in "ABC")
        t = ctx.choice("type", TYPES)
        meta = ctx.choice("meta", METAS)
        gm.add_directed_edge(c, b, {"w": 7.0})
        if self.shape == "--":
            gm.add_edge(a, b, meta, edge_type=t)
        else:
            gm.add_directed_edge(a, b, meta, edge_type=t)
        dirs = [(a, b), (b, a)] if self.shape == "--" else [(a, b)]
        for i in range(2):
            soft = ctx.choice(f"soft{i}", (False, True))
            if ctx.choice(f"whole{i}", (True, False)):
                x, y = ctx.choice(f"order{i}", [(a, b), (b, a)])
                gm.remove_edge(x, y, soft_delete=soft)
                if soft and ctx.choice(f"purge{i}", (False, True)):
                    gm.purge_soft_deleted_edges()
                ctx.check(not gm.edge_exists(a, b), "the removed edge is gone")
                x, y = ctx.choice(f"order{i}r", [(a, b), (b, a)])
                gm.restore_edge(x, y)
            else:
                x, y = ctx.choice(f"dir{i}", dirs)
                gm.remove_directed_edge(x, y, soft_delete=soft)
                if soft and ctx.choice(f"purge{i}", (False, True)):
                    gm.purge_soft_deleted_edges()
                ctx.check(not gm.directed_edge_exists(x, y), "the removed direction is gone")
                gm.restore_directed_edge(x, y)
            got = sorted((e.u.id, e.v.id) for e in gm.retrieve_edges())
            want = sorted([(x.id, y.id) for x, y in dirs] + [("C", "B")])
            ctx.check(got == want, f"exactly the removed directions are back (A{self.shape}B)")
            for x, y in dirs:
                ctx.check(gm.edge_type(x, y) == t, "the restored edge has its type")
                ctx.check(gm.edge_value(x, y) == meta, "the restored edge has its metadata")
            ctx.check(gm.edge_value(c, b) == {"w": 7.0}, "other edges are untouched")
            ctx.check(
                sorted(p.id for p in gm.parents_of_node(b)) == ["A", "C"]
                and [p.id for p in gm.parents_of_node(a)] == (["B"] if self.shape == "--" else []),
                "parents are the restored ones",
            )


def harnesses(tier):
    hs = [Content("--"), Content("->")]
    for r in REMOVALS:
        for b in BETWEEN:
            two = b in ("none", "purge", "again", "harder", "cycle")
            if two:
                hs.append(Roundtrip(r, b, 2))
            if tier == "thorough" or not two:
                hs.append(Roundtrip(r, b, 3, tier == "thorough"))
    return hs
