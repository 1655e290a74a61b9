"""P25: comparing results shows exactly the edges they have and where they differ."""
import contextlib
import datetime
import io
import os
import re

from symx.driver import Harness
from checks.p17 import Numbers, workspace
from checks.fakepool import fake_pool

import causy.workspaces.cli as CLI
from causy.edge_types import BiDirectedEdge, DirectedEdge, UndirectedEdge
from causy.graph import Edge, Node
from causy.models import AlgorithmReference, Result

ASSUMPTIONS = ("what the command prints is read from its table (cells between vertical bars)",)
BUDGET = {"quick": 300, "thorough": 3000}

STATES = ("none", "---", "-->", "<--", "<->")
TYPE = {"---": UndirectedEdge, "-->": DirectedEdge, "<--": DirectedEdge, "<->": BiDirectedEdge}


class Compare(Numbers):
    validate_every = 5

    def __init__(self, nodes, versions, states=STATES, pairs=None):
        super().__init__()
        self.nodes, self.versions, self.states = nodes, versions, states
        self.pairs = pairs or [(u, v) for i, u in enumerate(nodes) for v in nodes[i + 1:]]
        self.name = f"diff/{'-'.join(nodes)}/{'-'.join(versions)}"
        self.bounds = (
            f"results {versions}, each with any of {states} between every pair of {self.pairs}, edges in either order, values on the edges equal or different; all edges or differences only"
        )

    @contextlib.contextmanager
    def sym_patches(self):
        with fake_pool():
            yield

    con_patches = sym_patches

    def result(self, states, at, flip, data=0):
        node = {n: Node(name=n, id=n) for n in self.nodes}
        edges = []
        for (u, v), s in states.items():
            if s == "none":
                continue
            a, b = (v, u) if s == "<--" else (u, v)
            edges.append(Edge(u=node[a], v=node[b], edge_type=TYPE[s](), metadata={"correlation": 0.5 + data} if data else {}))
            if s in ("---", "<->"):
                edges.append(Edge(u=node[b], v=node[a], edge_type=TYPE[s](), metadata={"correlation": 0.25 - data} if data else {}))
        if flip:
            edges.reverse()
        return Result(
            algorithm=AlgorithmReference(reference="PC", type="name"), created_at=datetime.datetime.fromtimestamp(at),
            action_history=[], edges=edges, nodes=node, variables={},
        )

    def run(self, ctx):
        flip = ctx.flag("flip")
        only = ctx.flag("only differences")
        data = ctx.flag("data on edges differ")
        st = [
            {p: ctx.choice(f"{v}:{p[0]}{p[1]}", self.states) for p in self.pairs} for v in self.versions
        ]
        with self.directory():
            ws = workspace("e", "f", "e_2")
            CLI.write_to_workspace(ws)
            for i, v in enumerate(self.versions):
                m = re.fullmatch(r"(\w+)_(\d{4})", v)
                CLI._save_experiment_result(ws, m.group(1) if m else v, self.result(st[i], int(m.group(2)) if m else 5000, flip and i == 0, data and i + 1))
            text = self.printed(only)
        rows = []
        for line in text.splitlines():
            cells = [c.strip() for c in re.split("[│┃|]", line)]
            if len(cells) == len(self.versions) + 3 and re.fullmatch(r"\w+ - \w+", cells[1]):
                rows.append((cells[1], tuple(cells[2:-1])))
        want = {}
        for p in self.pairs:
            vals = tuple(s[p] for s in st)
            if all(v == "none" for v in vals) or only and len(set(vals)) == 1:
                continue
            want[p] = vals
        seen = {}
        for name, cells in rows:
            a, b = name.split(" - ")
            if (a, b) not in want:
                a, b = b, a
                turn = {"-->": "<--", "<--": "-->"}
                cells = tuple(turn.get(c, c) for c in cells)
            ctx.check((a, b) in want, f"an edge is shown that no result has or that does not differ: {name} {cells}")
            ctx.check((a, b) not in seen, f"an edge is shown twice: {name}")
            seen[a, b] = cells
        for p, vals in want.items():
            ctx.check(p in seen, f"an edge is not shown: {p} {vals}")
            got = tuple(c or "none" for c in seen[p])
            ctx.check(got == vals, f"shown {p} {got} instead of {vals}")

    def printed(self, only):
        out = io.StringIO()
        old = os.environ.get("COLUMNS")
        os.environ["COLUMNS"] = "200"
        try:
            with contextlib.redirect_stdout(out):
                CLI.diff(list(self.versions), only)
        finally:
            if old is None:
                del os.environ["COLUMNS"]
            else:
                os.environ["COLUMNS"] = old
        return out.getvalue()


def harnesses(tier):
    if tier == "quick":
        return [
            Compare(("a", "b"), ("e", "f")), Compare(("x", "X"), ("e", "f")), Compare(("x10", "x9"), ("e_1000", "f"), STATES[:4]), Compare(("b", "a"), ("e_1000", "e_2000", "f")),
            Compare(("a", "b", "c"), ("e_1000", "e_2"), STATES[:4], [("a", "b"), ("b", "c")]),
            Compare(("a", "b"), ("e_2_1000", "e_2_2000", "e")),
        ]
    return [Compare(("a", "b", "c"), ("e", "f"), STATES[:4]), Compare(("a", "b"), ("e_1000", "e_2000", "f"), STATES), Compare(("a", "b", "c"), ("e_1000", "e_2", "f"), STATES[:4], [("a", "b"), ("b", "c")])]
