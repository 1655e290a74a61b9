"""P01: every graph edit changes exactly the addressed edge(s); all queries agree."""
import torch

from symx import core
from symx.driver import Harness
from symx.core import And, Or, Not, Iff, Implies
from symx.graphs import (
    MixedGraph, ensure_mixins, DIRECTED, UNDIRECTED, BIDIRECTED, mk_node, GraphError,
    graph_queries,
)
from causy.graph_utils import retrieve_edges as util_retrieve_edges

ensure_mixins()

TYPES = (DIRECTED, UNDIRECTED, BIDIRECTED)
ASSUMPTIONS = (
    "edge metadata is opaque: graph code does not branch on its content",
)


class Expected:
    """reference model of the post-state"""

    def __init__(self, mg):
        self.mg = mg
        self.live = {k: mg.live(*k) for k in mg.pairs}
        self.meta = {k: mg.meta[k] for k in mg.pairs}
        self.type = {k: {t.name: mg.type_is(*k, t) for t in TYPES} for k in mg.pairs}

    def put(self, a, b, meta=None, etype=None):
        self.live[a, b] = True
        if meta is not None:
            self.meta[a, b] = meta
        if etype is not None:
            self.type[a, b] = {t.name: t.name == etype.name for t in TYPES}

    def drop(self, a, b):
        self.live[a, b] = False


def views(mg):
    return (("graph manager", mg.gm), ("graph", mg.g))


def check_point_queries(ctx, mg, ex, label, full=True):
    """edge by edge: existence, type and value, addressed by node and by id"""
    L = ex.live
    for gname, g in views(mg):
        N = g.nodes
        Q = graph_queries(ctx, g, gname)
        for a, b in mg.pairs:
            for form in ("node", "id"):
                u, v = (N[a], N[b]) if form == "node" else (a, b)
                w = f"{label}: %s({a},{b}) [{form}, {gname}]"
                ctx.check(
                    Iff(Q.q(("de", a, b, form), lambda: g.directed_edge_exists(u, v)), L[a, b]),
                    w % "directed_edge_exists",
                )
                ctx.check(
                    Iff(Q.q(("ee", a, b, form), lambda: g.edge_exists(u, v)), Or(L[a, b], L[b, a])),
                    w % "edge_exists",
                )
                ctx.check(
                    Iff(Q.q(("ue", a, b, form), lambda: g.undirected_edge_exists(u, v)),
                        And(L[a, b], L[b, a])),
                    w % "undirected_edge_exists",
                )
                if gname == "graph":
                    ctx.check(
                        Iff(Q.q(("od", a, b, form), lambda: g.only_directed_edge_exists(u, v)),
                            And(L[a, b], Not(L[b, a]))),
                        w % "only_directed_edge_exists",
                    )
                if not full:
                    continue
                for t in TYPES:
                    ctx.check(
                        Iff(
                            Q.q(("et", a, b, form, t.name), lambda: g.edge_of_type_exists(u, v, t)),
                            And(L[a, b], ex.type[a, b][t.name]),
                        ),
                        w % f"edge_of_type_exists {t.name}",
                    )
            if full:
                for t in TYPES:
                    c = And(L[a, b], ex.type[a, b][t.name])
                    ctx.check(
                        Q.q(("ty", a, b, t.name, str(core.term(c))),
                            lambda: (not c) or g.edge_type(N[a], N[b]) == t),
                        f"{label}: edge_type({a},{b}) [{gname}]",
                    )
            ctx.check(
                Q.q(
                    ("ev", a, b, str(ex.meta[a, b]), str(L[a, b] if isinstance(L[a, b], bool) else L[a, b].t)),
                    lambda: (not L[a, b]) or _has_meta(g.edge_value(N[a], N[b]), ex.meta[a, b]),
                ),
                f"{label}: edge_value({a},{b}) [{gname}]",
            )
        for b in mg.names:
            outs = Q.qall(("par", b), lambda: _ids(g.parents_of_node(N[b])))
            ctx.check(
                And(
                    Implies(gd, _same_multiset(val, {a: L[a, b] for a in mg.names if a != b}))
                    for gd, val in outs
                ),
                f"{label}: parents_of_node({b}) [{gname}]",
            )
            outs = Q.qall(("sib", b), lambda: sorted(g.get_siblings(b)))
            ctx.check(
                And(
                    Implies(gd, _same_multiset(val, {a: And(L[a, b], L[b, a]) for a in mg.names if a != b}))
                    for gd, val in outs
                ),
                f"{label}: get_siblings({b}) [{gname}]",
            )


def check_listings(ctx, mg, ex, label):
    """edge lists: every live edge exactly once (forks on every slot)"""
    for gname, g in views(mg):
        ctx.check(
            _same_multiset([(e.u.id, e.v.id) for e in g.retrieve_edges()], ex.live),
            f"{label}: retrieve_edges() [{gname}]",
        )
        ctx.check(
            _same_multiset(list(util_retrieve_edges(g)), ex.live),
            f"{label}: graph_utils.retrieve_edges() [{gname}]",
        )


def _has_meta(got, want):
    return got is not None and dict(got) == want


def _ids(nodes):
    return sorted(n if isinstance(n, str) else n.id for n in nodes)


def _same_multiset(val, want):
    """val: concrete list; want: key -> condition"""
    if isinstance(val, tuple) and len(val) == 2 and val[0] == "!":
        return False
    if len(set(val)) != len(val):
        return False
    if any(x not in want for x in val):
        return False
    s = set(val)
    return And((c if k in s else Not(c)) for k, c in want.items())


OPS = (
    "none",
    "add_edge",
    "add_edge_default",
    "add_directed_edge",
    "remove_edge",
    "remove_edge_soft",
    "remove_directed_edge",
    "remove_directed_edge_soft",
    "update_edge",
    "update_directed_edge",
    "update_edge_part",
    "update_directed_edge_part",
    "update_removed",
    "purge",
    "add_node",
)
PARTS = ("metadata", "no metadata", "type")
REFUSED = ("self_loop", "self_loop_directed", "unknown_u", "unknown_v", "dup_node", "no_edge", "no_edge_directed")


def apply_op(ctx, mg, ex, op, a, b):
    """run the real operation; update the reference model"""
    gm, N = mg.gm, mg.gm.nodes
    meta = {"tag": f"new_{a}{b}"}
    if op == "none":
        return
    if op == "add_edge":
        gm.add_edge(N[a], N[b], dict(meta), BIDIRECTED)
        ex.put(a, b, meta, BIDIRECTED)
        ex.put(b, a, meta, BIDIRECTED)
    elif op == "add_edge_default":
        gm.add_edge(N[a], N[b], dict(meta))
        ex.put(a, b, meta, UNDIRECTED)
        ex.put(b, a, meta, UNDIRECTED)
    elif op == "add_directed_edge":
        gm.add_directed_edge(N[a], N[b], dict(meta))
        ex.put(a, b, meta, DIRECTED)
    elif op == "remove_edge":
        gm.remove_edge(N[a], N[b])
        ex.drop(a, b)
        ex.drop(b, a)
    elif op == "remove_edge_soft":
        gm.remove_edge(N[a], N[b], soft_delete=True)
        ex.drop(a, b)
        ex.drop(b, a)
    elif op == "remove_directed_edge":
        gm.remove_directed_edge(N[a], N[b])
        ex.drop(a, b)
    elif op == "remove_directed_edge_soft":
        gm.remove_directed_edge(N[a], N[b], soft_delete=True)
        ex.drop(a, b)
    elif op == "update_edge":
        ctx.assume(And(ex.live[a, b], ex.live[b, a]))
        gm.update_edge(N[a], N[b], metadata=dict(meta), edge_type=BIDIRECTED)
        ex.put(a, b, meta, BIDIRECTED)
        ex.put(b, a, meta, BIDIRECTED)
    elif op == "update_directed_edge":
        ctx.assume(ex.live[a, b])
        gm.update_directed_edge(N[a], N[b], metadata=dict(meta), edge_type=BIDIRECTED)
        ex.put(a, b, meta, BIDIRECTED)
    elif op in ("update_edge_part", "update_directed_edge_part"):
        # only the metadata, metadata without content, or only the type
        part = ctx.choice("part", PARTS)
        kw = {
            "metadata": {"metadata": dict(meta)},
            "no metadata": {"metadata": {}},
            "type": {"edge_type": BIDIRECTED},
        }[part]
        ctx.assume(ex.live[a, b])
        slots = [(a, b)]
        if op == "update_edge_part":
            ctx.assume(ex.live[b, a])
            slots.append((b, a))
            gm.update_edge(N[a], N[b], **kw)
        else:
            gm.update_directed_edge(N[a], N[b], **kw)
        for s in slots:
            ex.put(*s, kw.get("metadata"), kw.get("edge_type"))
    elif op == "update_removed":
        # an update does not bring a removed edge back; it may be refused
        ctx.assume(Not(ex.live[a, b]))
        part = ctx.choice("part", PARTS)
        kw = {
            "metadata": {"metadata": dict(meta)},
            "no metadata": {"metadata": {}},
            "type": {"edge_type": BIDIRECTED},
        }[part]
        try:
            if ctx.choice("directed", (True, False)):
                gm.update_directed_edge(N[a], N[b], **kw)
            else:
                ctx.assume(Not(ex.live[b, a]))
                gm.update_edge(N[a], N[b], **kw)
        except GraphError:
            pass
    elif op == "purge":
        gm.purge_soft_deleted_edges()
    elif op == "add_node":
        n = gm.add_node("Z", torch.tensor([1.0]), id_="Z")
        ctx.check(
            n.id == "Z" and n.name == "Z" and gm.nodes["Z"] is n and len(gm.nodes) == len(mg.names) + 1,
            "add_node registers the node",
        )
        for x in mg.names:
            ctx.check(
                Not(ctx.q(lambda: gm.edge_exists("Z", x) or gm.edge_exists(x, "Z"))),
                "a new node has no edges",
            )
    else:
        raise AssertionError(op)


class OneOp(Harness):
    def __init__(self, op, n, pairs=None, types="free"):
        self.op, self.n = op, n
        self.names = list("ABCDE"[:n])
        self.pairs_ = pairs
        self.types = types
        self.name = f"{op}/n{n}"
        self.bounds = (
            f"{n} nodes; arbitrary pre-state: every ordered slot absent/live/soft-deleted, "
            f"edge type any of 3, adjacency rows present or not, arbitrary removed-edge store; "
            f"one call of {op} on {'every ordered pair' if pairs is None else pairs}; "
            f"afterwards every point query on every pair"
        )

    def run(self, ctx):
        mg = MixedGraph(ctx, self.names, soft=True, rows="sym", types=self.types, deleted_store=True)
        a, b = ctx.choice("pair", self.pairs_ or mg.pairs)
        ex = Expected(mg)
        apply_op(ctx, mg, ex, self.op, a, b)
        check_point_queries(ctx, mg, ex, f"{self.op}({a},{b})")


class Listing(Harness):
    """the edge listings after one operation; forks over every slot"""

    def __init__(self, op, pairs=None, n=3):
        self.op, self.pairs_ = op, pairs
        self.names = list("ABCDE"[:n])
        self.name = f"list-{op}/n{n}"
        self.bounds = (
            f"{n} nodes; every ordered slot absent/live/soft-deleted; one call of {op} on "
            f"{'every ordered pair' if pairs is None else pairs}; then both edge listings"
        )

    def run(self, ctx):
        mg = MixedGraph(ctx, self.names, soft=True, rows="all", types="tied")
        a, b = ctx.choice("pair", self.pairs_ or mg.pairs)
        ex = Expected(mg)
        apply_op(ctx, mg, ex, self.op, a, b)
        check_listings(ctx, mg, ex, f"{self.op}({a},{b})")


class Purge(Harness):
    """purging forks over every slot by itself; two nodes with every detail, three
    nodes with tied types"""

    def __init__(self, n):
        self.n = n
        self.names = list("ABC"[:n])
        self.name = f"purge/n{n}"
        self.bounds = f"{n} nodes; every ordered slot absent/live/soft-deleted; purge; every query"

    def run(self, ctx):
        small = self.n < 3
        mg = MixedGraph(ctx, self.names, soft=True, rows="sym" if small else "all",
                        types="free" if small else "tied")
        ex = Expected(mg)
        apply_op(ctx, mg, ex, "purge", "A", "B")
        for a, b in mg.pairs:
            # what was removed for later is gone for good; live edges can be fetched
            try:
                e = mg.gm.get_edge(mg.gm.nodes[a], mg.gm.nodes[b])
            except GraphError:
                e = None
            ctx.check(Iff(e is not None, ex.live[a, b]), f"purge: the edge {a}->{b} can be fetched iff it was live")
            if e is not None:
                ctx.check((e.u.id, e.v.id) == (a, b), f"purge: the edge fetched for {a}->{b} is that edge")
        check_listings(ctx, mg, ex, "purge")
        check_point_queries(ctx, mg, ex, "purge", full=small)


class TwoOps(Harness):
    """histories of two operations on the same or overlapping pairs, starting from
    an arbitrary state (thorough)"""

    def __init__(self, op1, op2):
        self.op1, self.op2 = op1, op2
        self.name = f"{op1}+{op2}/n3"
        self.bounds = "3 nodes, arbitrary pre-state, two operations, every point query"

    def run(self, ctx):
        mg = MixedGraph(ctx, list("ABC"), soft=True, rows="sym", types="free", deleted_store=True)
        a, b = "A", "B"
        c, d = ctx.choice("pair2", [("A", "B"), ("B", "A"), ("B", "C")])
        ex = Expected(mg)
        apply_op(ctx, mg, ex, self.op1, a, b)
        apply_op(ctx, mg, ex, self.op2, c, d)
        check_point_queries(ctx, mg, ex, f"{self.op1}({a},{b}); {self.op2}({c},{d})")


class Refused(Harness):
    def __init__(self, n):
        self.n = n
        self.names = list("ABCDE"[:n])
        self.name = f"refused/n{n}"
        self.bounds = f"{n} nodes; arbitrary pre-state; self loops, unknown nodes, duplicate node ids"

    def run(self, ctx):
        mg = MixedGraph(ctx, self.names, soft=True, rows="sym", types="free", deleted_store=True)
        gm, N = mg.gm, mg.gm.nodes
        kind = ctx.choice("kind", REFUSED)
        x = mk_node("Q")
        ops = {
            "self_loop": [lambda: gm.add_edge(N["A"], N["A"], {})],
            "self_loop_directed": [lambda: gm.add_directed_edge(N["A"], N["A"], {})],
            "unknown_u": [
                lambda: gm.add_edge(x, N["A"], {}),
                lambda: gm.add_directed_edge(x, N["A"], {}),
                lambda: gm.remove_edge(x, N["A"]),
                lambda: gm.remove_directed_edge(x, N["A"]),
            ],
            "unknown_v": [
                lambda: gm.add_edge(N["A"], x, {}),
                lambda: gm.add_directed_edge(N["A"], x, {}),
                lambda: gm.remove_edge(N["A"], x),
                lambda: gm.remove_directed_edge(N["A"], x),
            ],
            "no_edge": [lambda: gm.update_edge(N["A"], N["B"], metadata={"tag": "x"})],
            "no_edge_directed": [lambda: gm.update_directed_edge(N["A"], N["B"], metadata={"tag": "x"})],
            "dup_node": [lambda: gm.add_node("other", [1.0], id_="A")],
        }[kind]
        if kind == "no_edge":
            ctx.assume(Not(And(mg.present["A", "B"], mg.present["B", "A"])))
        if kind == "no_edge_directed":
            ctx.assume(Not(mg.present["A", "B"]))
        f = ctx.choice("op_" + kind, ops)
        try:
            f()
        except (GraphError, ValueError):
            pass
        else:
            ctx.fail(f"{kind} was not refused")
        ctx.check(list(gm.nodes) == self.names, "node set unchanged")
        ex = Expected(mg)
        check_point_queries(ctx, mg, ex, kind)


def harnesses(tier):
    hs = []
    pairs = [("A", "B"), ("C", "A")] if tier == "quick" else None
    for op in OPS:
        if op == "purge":
            continue
        hs.append(OneOp(op, 3, pairs=pairs if op not in ("none", "add_node") else [("A", "B")]))
    for op in ("remove_edge", "remove_directed_edge", "remove_edge_soft", "add_edge",
               "add_directed_edge", "remove_directed_edge_soft"):
        hs.append(Listing(op, pairs=[("A", "B")] if tier == "quick" else None))
    hs += [Purge(2), Purge(3), Refused(3)]
    if tier == "thorough":
        two = [o for o in OPS if o not in ("none", "purge", "add_node", "add_edge_default",
                                           "update_edge_part", "update_directed_edge_part", "update_removed")]
        hs += [TwoOps(a, b) for a in two for b in two]
    return hs
