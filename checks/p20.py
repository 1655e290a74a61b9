"""P20: data end up unchanged at the variable they belong to, however they are handed over."""
import contextlib
import importlib
import itertools
import json
import os
import sys
import tempfile

import torch

from symx import core, symmath
from symx.core import And, SymReal
from symx.driver import Harness
from symx.symtensor import SymTensor, TorchShim, symbolic_nodes
from symx.graphs import make_model
import causy.graph as G
import causy.graph_model as GM
import causy.data_loader as DL

ASSUMPTIONS = (
    "parsing of JSON text is Python's: symbolic numbers enter through placeholders in the text (replays use real files)",
    "arithmetic over mathematical reals",
)
BUDGET = {"quick": 300, "thorough": 3000}

FORMS = ("dict", "list", "loader rows", "loader dict", "json rows", "json dict", "jsonl", "dynamic")


SHARED = {}
DYNAMIC = """
import sys
from causy.data_loader import AbstractDataLoader

class DataLoader(AbstractDataLoader):
    def __init__(self, skip=0):
        self.skip = skip

    def load(self):
        yield from sys.modules["checks.p20"].SHARED["rows"][self.skip:]

    def hash(self):
        return "x"
"""
COUNT = itertools.count()


class Memory(DL.AbstractDataLoader):
    def __init__(self, rows, options=None):
        self.rows = rows

    def load(self):
        yield from self.rows

    def hash(self):
        return "x"


class Ingestion(Harness):
    validate_max = 20
    timeout_ms = 4000
    stubs = (
        "torch in the graph module -> tensors of symbolic reals (symbolic runs only)",
        "json.loads of the data loaders -> the same, with placeholders replaced by symbolic reals (symbolic runs only)",
    )

    def __init__(self, names, rows):
        self.names, self.rows = names, rows
        self.name = f"ingest/v{len(names)}/rows{rows}" + ("" if all(n.isidentifier() for n in names) else "/odd names")
        self.bounds = (
            f"{len(names)} variables, {rows} observations with any values, every order of the columns, every way of handing data over: "
            + ", ".join(FORMS)
        )

    @contextlib.contextmanager
    def sym_patches(self):
        self.tokens = {}
        tokens = self.tokens

        class Json:
            def __getattr__(self, n):
                return getattr(json, n)

            def loads(self, text, **k):
                return swap(json.loads(text, **k))

            def load(self, f, **k):
                return self.loads(f.read(), **k)

        def swap(x):
            if isinstance(x, dict):
                return {k: swap(v) for k, v in x.items()}
            if isinstance(x, list):
                return [swap(v) for v in x]
            return tokens.get(x, x) if isinstance(x, float) else x

        saved = DL.json
        DL.json = Json()
        try:
            with symmath.shims(G, GM, torch=TorchShim(constructors="all")), symbolic_nodes():
                yield
        finally:
            DL.json = saved

    def run(self, ctx):
        names = self.names
        vals = {(a, t): ctx.real(f"{a}{t}", -9, 9) for a in names for t in range(self.rows)}
        if ctx.symbolic:
            symmath.Funcs(ctx)
        else:
            # solver models are mostly whole numbers: move them to where single precision would show
            vals = {k: float(v) + 0.1 for k, v in vals.items()}
        order = ctx.choice("order", list(itertools.permutations(names)))
        # rows may list their columns in different orders
        order2 = ctx.choice("order2", [tuple(order), tuple(reversed(order))])
        form = ctx.choice("form", FORMS)
        rows = [{a: vals[a, t] for a in (order if t == 0 else order2)} for t in range(self.rows)]
        cols = {a: [vals[a, t] for t in range(self.rows)] for a in order}
        missing = None
        if form in ("list", "loader rows", "json rows", "jsonl", "dynamic") and ctx.flag("missing"):
            # a later observation lacks a variable
            missing = ctx.choice("where", [(t, a) for t in range(1, self.rows) for a in names])
            del rows[missing[0]][missing[1]]
        model = make_model([])()
        with tempfile.TemporaryDirectory(prefix="p20-") as d:
            path = os.path.join(d, "data")
            if form == "dict":
                data = cols
            elif form == "list":
                data = rows
            elif form == "loader rows":
                data = Memory(rows)
            elif form == "loader dict":
                data = Memory([{"_dict": cols}])
            elif form == "dynamic":
                SHARED["rows"] = rows
                mod = f"p20_dynamic_{os.getpid()}_{next(COUNT)}"
                with open(os.path.join(d, mod + ".py"), "w") as f:
                    f.write(DYNAMIC)
                skip = ctx.choice("options", (None, {}, {"skip": 1}))
                if skip and skip["skip"]:
                    SHARED["rows"] = [rows[0]] + rows
                sys.path.insert(0, d)
                importlib.invalidate_caches()
                try:
                    data = DL.load_data_loader(
                        DL.DataLoaderReference(type="dynamic", reference=mod + ctx.choice("suffix", ("", ".DataLoader")), options=skip)
                    )
                finally:
                    sys.path.remove(d)
                    sys.modules.pop(mod, None)
            else:
                with open(path, "w") as f:
                    if form == "jsonl":
                        f.write("\n".join(self.text(ctx, r) for r in rows) + "\n")
                    else:
                        f.write(self.text(ctx, rows if form == "json rows" else cols))
                data = DL.load_data_loader(
                    DL.DataLoaderReference(type="jsonl" if form == "jsonl" else "json", reference=path)
                )
            if missing is not None:
                try:
                    model.create_graph_from_data(data)
                except Exception:
                    return
                ctx.check(False, "an observation which lacks a variable is refused")
                return
            g = model.create_graph_from_data(data)
            model.create_all_possible_edges()
        ctx.check(model.graph is g, "the model works on the graph made from the data")
        ctx.check(sorted(g.nodes) == sorted(names), "there is exactly one node per variable, with the variable as id")
        for a in names:
            if a not in g.nodes:
                continue
            n = g.nodes[a]
            ctx.check(n.id == a and n.name == a, "a node is named after its variable")
            v = n.values
            ctx.check(tuple(v.shape) == (self.rows,), "a node has one value per observation")
            if tuple(v.shape) != (self.rows,):
                continue
            if not ctx.symbolic:
                ctx.check(v.dtype == torch.float64, "values are kept in double precision")
            ctx.check(
                And(self.same(ctx, v[t].item(), vals[a, t]) for t in range(self.rows)),
                "a node carries the values of its variable in the order of the observations",
            )
        for u, v in itertools.permutations(names, 2):
            if u in g.nodes and v in g.nodes:
                ctx.check(
                    g.undirected_edge_exists(g.nodes[u], g.nodes[v]), "every pair of variables starts out connected"
                )
        for a in names:
            if a in g.nodes:
                ctx.check(not g.edge_exists(g.nodes[a], g.nodes[a]), "no variable is connected with itself")

    def same(self, ctx, x, y):
        return x == y if ctx.symbolic else x == float(y)

    def text(self, ctx, x):
        """JSON text; symbolic numbers become placeholders"""

        def enc(v):
            if isinstance(v, dict):
                return {k: enc(w) for k, w in v.items()}
            if isinstance(v, list):
                return [enc(w) for w in v]
            if isinstance(v, SymReal):
                for k, w in self.tokens.items():
                    if w is v:
                        return k
                k = 1000.5 + len(self.tokens)
                self.tokens[k] = v
                return k
            return v

        return json.dumps(enc(x))


def harnesses(tier):
    hs = [Ingestion(["x", "B", "a"], 3), Ingestion(["x", "B"], 3), Ingestion([" a", "a ", "Ä.1"], 2), Ingestion(["x", "X"], 2)]
    if tier == "thorough":
        hs += [Ingestion(["x", "B", "a", "_"], 4)]
    return hs
