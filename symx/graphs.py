"""Symbolic mixed graphs in causy's own data structures.

An ordered slot (u, v) is: absent | live | soft-deleted, with an edge type and
opaque metadata.  In symbolic mode `graph.edges`, `_reverse_edges` and
`_deleted_edges` are SymMaps whose presence bits are solver variables; in concrete
mode the same state is built through the public API on a real GraphManager."""
from __future__ import annotations

import collections
import functools

import torch
import z3

from causy.edge_types import BiDirectedEdge, DirectedEdge, UndirectedEdge
from causy.graph import Edge, Graph, GraphManager, GraphError, Node
from causy.models import TestResult, TestResultAction

from . import core
from .core import And, Iff, Implies, Ite, Not, Or, SymBool, SymMap, term, wrap_bool

DIRECTED, UNDIRECTED, BIDIRECTED = DirectedEdge(), UndirectedEdge(), BiDirectedEdge()


def make_model(steps=(), **kw):
    """a graph model as users build one (PC edge types)"""
    from causy.graph_model import graph_model_factory
    from causy.models import Algorithm

    return graph_model_factory(
        Algorithm(
            pipeline_steps=list(steps),
            edge_types=[DirectedEdge(), UndirectedEdge()],
            name="verif",
            **kw,
        )
    )


def ensure_mixins():
    """building a model gives Graph the access methods of its edge types"""
    if not hasattr(Graph, "only_directed_edge_exists"):
        make_model()


class Lazy:
    """attribute value decided by forking when it is read"""

    __slots__ = ("fn", "key", "keep")

    def __init__(self, fn, key, keep=None):
        self.fn = fn
        self.key = key
        self.keep = keep

    def force(self):
        return self.fn()

    def __deepcopy__(self, memo):
        return self


_LAZY_FIELDS = frozenset(("deleted", "edge_type", "metadata"))


class SymEdge(Edge):
    def __getattribute__(self, name):
        if name in _LAZY_FIELDS:
            v = object.__getattribute__(self, "__dict__").get(name)
            if type(v) is Lazy:
                return v.force()
            return v
        return super().__getattribute__(name)

    def __setattr__(self, name, value):
        if name in _LAZY_FIELDS:
            core.ENGINE.mutations += 1
        super().__setattr__(name, value)


@functools.lru_cache(maxsize=None)
def _values(name):
    return torch.tensor([0.0], dtype=torch.float64)


def mk_node(name):
    return Node(name=f"{name} (name)", id=name, values=_values(name), metadata={})


class Slots:
    """Boolean description of an ordered-pair slot table."""

    def __init__(self, names):
        self.names = list(names)
        self.pairs = [(a, b) for a in names for b in names if a != b]


class MixedGraph:
    """An arbitrary mixed graph.

    soft:  slots may be soft-deleted
    rows:  'all' every node has (possibly empty) rows, as after
           create_all_possible_edges; 'sym' rows exist only for nodes that ever
           had an edge
    types: 'tied' (one direction -> DIRECTED, both -> UNDIRECTED) or 'free'
           (any of DIRECTED/UNDIRECTED/BIDIRECTED per slot)
    deleted_store: also make GraphManager._deleted_edges symbolic
    """

    def __init__(self, ctx, names, soft=False, rows="all", types="tied",
                 deleted_store=False, prefix="", live=None, meta=None):
        self.ctx = ctx
        self.names = list(names)
        self.pairs = [(a, b) for a in names for b in names if a != b]
        self.soft, self.rows, self.types = soft, rows, types
        self.deleted_store = deleted_store
        p = self.prefix = prefix
        self.present, self.deleted, self.tbits, self.stored = {}, {}, {}, {}
        for a, b in self.pairs:
            if live is not None:
                self.present[a, b] = live[a, b]
            else:
                self.present[a, b] = ctx.bool(f"{p}e_{a}{b}")
            self.deleted[a, b] = (
                And(ctx.bool(f"{p}d_{a}{b}"), self.present[a, b]) if soft else False
            )
            if types == "free":
                self.tbits[a, b] = (ctx.bool(f"{p}t0_{a}{b}"), ctx.bool(f"{p}t1_{a}{b}"))
            self.stored[a, b] = (
                ctx.bool(f"{p}s_{a}{b}") if deleted_store else False
            )
        self.row = {}
        for a in names:
            if rows == "all":
                self.row[a] = True
            else:
                self.row[a] = Or(
                    ctx.bool(f"{p}r_{a}"),
                    [
                        Or(self.present[x, y], self.stored[x, y])
                        for (x, y) in self.pairs
                        if a in (x, y)
                    ],
                )
        self.meta = meta or {
            (a, b): {"tag": f"{p}m_{a}{b}", "was": f"{a}{b}"} for a, b in self.pairs
        }
        self.smeta = {(a, b): {"tag": f"{p}s_{a}{b}", "stored": 1} for a, b in self.pairs}
        self.stype = {
            (a, b): (BIDIRECTED if (ord(a[0]) + ord(b[0])) % 2 else UNDIRECTED)
            for a, b in self.pairs
        }
        if ctx.symbolic:
            self._build_sym()
        else:
            self._build_concrete()

    # formulas over the pre-state -------------------------------------------
    def live(self, a, b):
        return And(self.present[a, b], Not(self.deleted[a, b]))

    def adj(self, a, b):
        return Or(self.live(a, b), self.live(b, a))

    def undirected(self, a, b):
        return And(self.live(a, b), self.live(b, a))

    def only(self, a, b):
        return And(self.live(a, b), Not(self.live(b, a)))

    def type_is(self, a, b, t):
        """slot (a,b) has type t"""
        if self.types == "free":
            t0, t1 = self.tbits[a, b]
            return {
                "DIRECTED": And(t0, t1),
                "UNDIRECTED": And(t0, Not(t1)),
                "BIDIRECTED": Not(t0),
            }[t.name]
        both = And(self.present[a, b], self.present[b, a])
        return {
            "DIRECTED": Not(both),
            "UNDIRECTED": both,
            "BIDIRECTED": False,
        }[t.name]

    def slot_type(self, a, b):
        """concrete type object (forks in symbolic mode)"""
        for t in (DIRECTED, UNDIRECTED):
            if self.type_is(a, b, t):
                return t
        return BIDIRECTED

    # construction -----------------------------------------------------------
    def _mk_manager(self):
        gm = GraphManager()
        self.node = {}
        for n in self.names:
            nd = mk_node(n)
            gm.graph.nodes[n] = nd
            self.node[n] = nd
        return gm

    def _build_sym(self):
        gm = self._mk_manager()
        edges = {}
        p = self.prefix
        for a, b in self.pairs:
            e = SymEdge(u=self.node[a], v=self.node[b], edge_type=DIRECTED, metadata={})
            d = e.__dict__
            d["metadata"] = dict(self.meta[a, b])
            dl = self.deleted[a, b]
            d["deleted"] = dl if isinstance(dl, bool) else Lazy(lambda dl=dl: bool(dl), ("d", dl.t.get_id()), dl)
            d["edge_type"] = Lazy(lambda a=a, b=b: self.slot_type(a, b), ("t", self.types, p, a, b))
            edges[a, b] = e
        pres = {k: term(v) for k, v in self.present.items()}
        row = {k: term(v) for k, v in self.row.items()}

        def inner(order):
            return SymMap([(k, pr, v) for k, pr, v in order])

        gm.graph.edges = SymMap(
            [
                (a, row[a], inner([(b, pres[a, b], edges[a, b]) for b in self.names if b != a]))
                for a in self.names
            ]
        )
        gm.graph._reverse_edges = SymMap(
            [
                (b, row[b], inner([(a, pres[a, b], edges[a, b]) for a in self.names if a != b]))
                for b in self.names
            ]
        )
        dele = []
        for a in self.names:
            ent = []
            for b in self.names:
                if a == b:
                    continue
                st = term(self.stored[a, b])
                if st is False:
                    continue
                ent.append(
                    (
                        b,
                        st,
                        Edge(
                            u=self.node[a],
                            v=self.node[b],
                            edge_type=self.stype[a, b],
                            metadata=dict(self.smeta[a, b]),
                        ),
                    )
                )
            dele.append((a, row[a], inner(ent)))
        gm.graph._deleted_edges = SymMap(dele)
        hist = {}
        for a, b in self.pairs:
            hist[a, b] = []
        gm.graph.edge_history = hist
        self.gm = gm
        self.g = gm.graph

    def _build_concrete(self):
        gm = self._mk_manager()
        N = self.node
        if self.rows == "all":
            for a, b in self.pairs:
                gm._init_edge(N[a], N[b])
        else:
            for a in self.names:
                if self.row[a] and a not in gm.edges:
                    for b in self.names:
                        if b != a and self.row[b]:
                            gm._init_edge(N[a], N[b])
        for a, b in self.pairs:
            if self.stored[a, b]:
                gm.add_directed_edge(N[a], N[b], dict(self.smeta[a, b]), self.stype[a, b])
                gm.remove_directed_edge(N[a], N[b])
        for a, b in self.pairs:
            if self.present[a, b]:
                gm.add_directed_edge(
                    N[a], N[b], dict(self.meta[a, b]), self.slot_type(a, b)
                )
        for a, b in self.pairs:
            if self.present[a, b] and self.deleted[a, b]:
                gm.remove_directed_edge(N[a], N[b], soft_delete=True)
        self.gm = gm
        self.g = gm.graph


class SymList(list):
    """list of candidate elements, each present iff its condition holds"""

    def __init__(self, items):
        list.__init__(self)
        self._items = list(items)

    def _real(self):
        return [x for c, x in self._items if c]

    def __iter__(self):
        return iter(self._real())

    def __len__(self):
        return len(self._real())

    def __bool__(self):
        return bool(self._real())

    def __contains__(self, x):
        for c, y in self._items:
            if (x is y or x == y) and c:
                return True
        return False

    def __getitem__(self, i):
        return self._real()[i]

    def __add__(self, o):
        return self._real() + list(o)

    def __radd__(self, o):
        return list(o) + self._real()

    def copy(self):
        return self._real()

    def index(self, *a):
        return self._real().index(*a)

    def count(self, x):
        return self._real().count(x)

    def __eq__(self, o):
        return self._real() == list(o)

    def __deepcopy__(self, memo):
        return self

    __hash__ = None


def cond_list(ctx, items):
    """items = [(cond, value)]"""
    if ctx.symbolic:
        return SymList(items)
    return [x for c, x in items if c]


# ---------------------------------------------------------------------------
# merged graph queries: `edge_exists` & co. as ONE term per call
# ---------------------------------------------------------------------------
def _edge_fp(e, keep):
    d, t, m = (e.__dict__[k] for k in ("deleted", "edge_type", "metadata"))
    keep.append((d, t, e))
    return (
        e.u.id,
        e.v.id,
        d.key if isinstance(d, Lazy) else d,
        t.key if isinstance(t, Lazy) else t.name,
        repr(m) if not isinstance(m, Lazy) else m.key,
    )


def _map_fp(m, keep):
    ids = []
    ents = m._e.items() if isinstance(m, SymMap) else [(k, (True, v)) for k, v in m.items()]
    for k, (p, v) in ents:
        if not isinstance(p, bool):
            keep.append(p)
            p = p.get_id()
        if isinstance(v, dict):
            v = _map_fp(v, keep)
        elif isinstance(v, Edge):
            v = _edge_fp(v, keep)
        ids.append((k, p, v))
    return tuple(ids)


def _fingerprint(g):
    """identifies the part of the symbolic graph state a query can read"""
    if not isinstance(g.edges, SymMap):
        return None, None
    keep = []
    return (
        tuple(g.nodes),
        _map_fp(g.edges, keep),
        _map_fp(g._reverse_edges, keep),
    ), keep


def _all_tracked(g):
    for m in (g.edges, g._reverse_edges):
        for _, inner in m._e.values():
            if not isinstance(inner, SymMap):
                return False
            for _, ed in inner._e.values():
                if type(ed) is not SymEdge:
                    return False
    return True


def _cached_fp(e, g):
    """fingerprint, reused while no tracked write happened"""
    if not isinstance(g.edges, SymMap):
        return None, None
    ed, rv = g.edges, g._reverse_edges
    c = getattr(e, "_fpc", None)
    if c is not None and c[0] is ed and c[1] is rv and c[2] == e.mutations:
        return c[3]
    fp, keep = _fingerprint(g)
    # a small id instead of a deep tuple: hashed on every query
    ids = e.__dict__.setdefault("_fp_ids", {})
    hit = ids.get(fp)
    if hit is None:
        hit = ids[fp] = (len(ids), keep)
    r = (("fp", hit[0]), hit[1])
    e._fpc = (ed, rv, e.mutations, r) if isinstance(rv, SymMap) and _all_tracked(g) else None
    return r


class graph_queries:
    """q/qall with results cached by graph state across paths"""

    def __init__(self, ctx, g, tag):
        self.ctx, self.tag = ctx, tag
        self.fp, self.keep = _fingerprint(g) if ctx.symbolic else (None, None)

    def q(self, key, fn):
        if self.fp is None:
            return self.ctx.q(fn)
        return self.ctx.q(fn, ("gq", self.tag, key, self.fp), self.keep)

    def qall(self, key, fn):
        if self.fp is None:
            return self.ctx.qall(fn)
        return self.ctx.qall(fn, ("gq", self.tag, key, self.fp), self.keep)


MERGED_QUERIES = (
    "edge_exists",
    "directed_edge_exists",
    "undirected_edge_exists",
    "only_directed_edge_exists",
    "edge_of_type_exists",
)


class merged_queries:
    """context manager: the pure boolean queries of Graph/GraphManager return one
    merged term instead of forking (the real bodies are what gets explored)"""

    def __init__(self, names=MERGED_QUERIES):
        self.names = names

    def __enter__(self):
        from causy.graph import GraphBaseAccessMixin

        self.saved = []
        holders = {}
        for n in self.names:
            for cls in (Graph, GraphManager):
                for k in cls.__mro__:
                    if n in k.__dict__:
                        holders[(k, n)] = k.__dict__[n]
                        break
        for (k, n), fn in holders.items():
            self.saved.append((k, n, fn))
            setattr(k, n, self._wrap(n, fn))
        return self

    def __exit__(self, *a):
        for k, n, fn in self.saved:
            setattr(k, n, fn)

    @staticmethod
    def _wrap(name, fn):
        @functools.wraps(fn)
        def w(self, *a, **kw):
            e = core.ENGINE
            if e is None or e.in_summary:
                return fn(self, *a, **kw)
            fp, keep = _cached_fp(e, self)
            if fp is None:
                return fn(self, *a, **kw)
            ka = tuple(
                x.id if isinstance(x, Node) else (x if isinstance(x, str) else getattr(x, "name", repr(x)))
                for x in a
            ) + tuple(sorted((k, str(v)) for k, v in kw.items()))
            key = (name, ka, fp)
            # one decision per query instead of one per dictionary lookup
            return bool(e.merged_bool(lambda: fn(self, *a, **kw), key, keep))

        return w
