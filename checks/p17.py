"""P17: the stored results of an experiment are found, newest first, loaded and cleared; nothing else is."""
import asyncio
import builtins
import contextlib
import json
import os
import tempfile

from symx.core import And, Or, Not, Implies
from symx.driver import Harness
from symx.values import IntValue, symbolic_models

import causy.ui.server as UI
import causy.workspaces.cli as CLI
from causy.data_loader import DataLoaderReference
from causy.models import AlgorithmReference, Result
from causy.workspaces.models import Experiment, Workspace

ASSUMPTIONS = (
    "file names are made of a symbolic number between fixed texts; on each path the digits in the text are those of one number of "
    "the class decided by the solver (number of digits, numeric and lexical order, equality), and turning the text into a number "
    "gives the symbolic number",
)
BUDGET = {"quick": 300, "thorough": 3000}


class Stamp(IntValue):
    """a symbolic number that prints as its representative"""

    __slots__ = ("rep",)

    def __init__(self, t, rep):
        super().__init__(t)
        self.rep = rep

    def __str__(self):
        return str(self.rep)

    __repr__ = __str__

    def __format__(self, spec):
        return format(self.rep, spec)

    def __index__(self):
        # C code that shows the number (a date)
        return self.rep

    __int__ = __index__
    __hash__ = IntValue.__hash__


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)

    def __subclasscheck__(cls, x):
        return issubclass(x, builtins.int)


class Numbers(Harness):
    """symbolic time stamps in file names"""

    validate_max = 20
    validate_every = 7

    def __init__(self):
        self.back = {}

    @contextlib.contextmanager
    def sym_patches(self):
        self.back = back = {}

        class Int(metaclass=_Meta):
            def __new__(cls, *a, **k):
                if a and isinstance(a[0], Stamp):
                    return a[0]
                v = builtins.int(*a, **k)
                return back.get(v, v)

        CLI.int = Int
        try:
            with symbolic_models(), quiet():
                yield
        finally:
            del CLI.int

    @contextlib.contextmanager
    def con_patches(self):
        with quiet():
            yield

    def stamps(self, ctx, n, digits):
        """n numbers, every number of digits in digits, every order"""
        top = 10 ** max(digits) - 1
        ts = [ctx.int(f"t{i}", 0, top) for i in range(n)]
        ds = []
        for i in range(n):
            d = ctx.choice(f"digits{i}", digits)
            ctx.assume(And(ts[i] >= (10 ** (d - 1) if d > 1 else 0), ts[i] < 10**d))
            ds.append(d)
        for i in range(n):
            for j in range(i):
                a, b = ts[j], ts[i]
                if ds[i] == ds[j]:
                    if not bool(a == b):
                        bool(a < b)
                else:
                    # order of the texts (the order of the numbers is that of the lengths)
                    k = abs(ds[i] - ds[j])
                    bool(a * 10**k <= b) if ds[j] < ds[i] else bool(b * 10**k <= a)
        if not ctx.symbolic:
            return ts
        m = ctx.engine.model()
        out = []
        for t in ts:
            rep = m.eval(t.t, model_completion=True).as_long()
            s = Stamp(t.t, rep)
            self.back.setdefault(rep, s)
            out.append(s)
        return out

    @contextlib.contextmanager
    def directory(self):
        old = os.getcwd()
        with tempfile.TemporaryDirectory(prefix="p17-") as d:
            try:
                os.chdir(d)
                yield d
            finally:
                os.chdir(old)


@contextlib.contextmanager
def quiet():
    with open(os.devnull, "w") as null, contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
        yield


def workspace(*names):
    return Workspace(
        name="n", author="a", pipelines={"p": AlgorithmReference(reference="PC", type="name")},
        dataloaders={"d": DataLoaderReference(type="json", reference="data.json")},
        experiments={n: Experiment(pipeline="p", dataloader="d") for n in names},
    )


# what else may lie in the directory: text around the number of an own file name
OTHERS = (
    ("own", "{n}_{t}.json"),
    ("longer name", "{n}_1_{t}.json"),
    ("longer name 2", "{n}_{t}_{t0}.json"),
    ("longer name 3", "{n}x_{t}.json"),
    ("shorter name", "{s}_{t}.json"),
    ("prefixed name", "x_{n}_{t}.json"),
    ("other extension", "{n}_{t}.yml"),
    ("backup", "{n}_{t}.json.bak"),
    ("two extensions", "{n}_{t}.old.json"),
    ("text", "{n}_x{t}.json"),
    ("text behind", "{n}_{t}x.json"),
    ("leading zero", "{n}_0{t}.json"),
    ("signed", "{n}_+{t}.json"),
    ("no separator", "{n}{t}.json"),
    ("blank", "{n}_ {t}.json"),
    ("extension glued", "{n}_{t}json"),
    ("no number", "{n}_.json"),
    ("only name", "{n}.json"),
    ("dash", "{n}-{t}.json"),
)


class Versions(Numbers):
    stubs = ("int() in the command line module -> gives back the symbolic number a text was made from (symbolic runs only)",)

    def __init__(self, own, digits, names=("e", "e_2", "a_b_c")):
        super().__init__()
        self.own, self.digits, self.names = own, digits, names
        self.name = f"versions/own{own}/digits{'-'.join(map(str, digits))}"
        self.bounds = (
            f"{own} results of the experiment plus one more file of {len(OTHERS)} kinds, all time stamps of {digits} digits in any order, "
            f"experiment names {names}"
        )

    def run(self, ctx):
        n = ctx.choice("name", self.names)
        shorter = n.rsplit("_", 1)[0] if "_" in n else "x"
        kind, pattern = ctx.choice("other", OTHERS)
        ts = self.stamps(ctx, self.own + 1, self.digits)
        own, extra = list(ts[: self.own]), ts[self.own]
        for i in range(self.own):
            for j in range(i):
                ctx.assume(Not(own[i] == own[j]))
        t0 = own[0] if own else 7
        if kind == "own":
            for o in own:
                ctx.assume(Not(o == extra))
            own.append(extra)
        files = {f"{n}_{t}.json": t for t in own}
        other = pattern.format(n=n, s=shorter, t=extra, t0=t0)
        if ctx.symbolic and kind in ("leading zero",):
            # another text of the same number
            self.back.setdefault(int(f"0{extra}"), extra)
        content = {f: {"result of": f} for f in list(files) + [other]}
        order = self.own < 2 and ctx.flag("reverse")
        ws = workspace(n, shorter, f"{n}_1", f"{n}x", f"x_{n}")
        with self.directory():
            for f in sorted(content, reverse=order):
                with open(f, "w") as h:
                    json.dump(content[f], h)
            got = list(CLI._load_experiment_versions(ws, n))
            ctx.check(len(got) == len(own), f"number of versions {len(got)}")
            for t in own:
                ctx.check(Or(*[g == t for g in got]), "a stored result is not listed")
            for a, b in zip(got, got[1:]):
                ctx.check(a > b, "versions are not listed newest first")
            if own:
                latest = CLI._load_latest_experiment_result(ws, n)
                for t in own:
                    newest = And(*[t >= o for o in own])
                    ctx.check(Implies(newest, latest == content[f"{n}_{t}.json"]), "latest result is not the newest one")
            else:
                try:
                    CLI._load_latest_experiment_result(ws, n)
                    ctx.fail("a result appears from nowhere")
                except ValueError:
                    pass
            for t in own:
                ctx.check(
                    CLI._load_experiment_result(ws, n, t) == content[f"{n}_{t}.json"],
                    "a version gives the result of another one",
                )
            known = any(bool(o == extra) for o in own)
            try:
                r = CLI._load_experiment_result(ws, n, extra)
                ctx.check(known, "a version that does not exist can be loaded")
                ctx.check(r == content[f"{n}_{extra}.json"], "a version gives the result of another one")
            except ValueError:
                ctx.check(not known, "a version that exists cannot be loaded")
            removed = CLI._clear_experiment(n, ws)
            ctx.check(removed == len(own), f"clear reports {removed} removed results")
            left = sorted(os.listdir())
            ctx.check(left == sorted(f for f in content if f not in files), f"after clearing: {left}")
            for f in left:
                with open(f) as h:
                    ctx.check(json.load(h) == content[f], "clearing changed another file")
            ctx.check(list(CLI._load_experiment_versions(ws, n)) == [], "a cleared experiment has results")


class Saved(Numbers):
    stubs = Versions.stubs + ("the creation time of a result is the representative of a symbolic time stamp (symbolic runs only)",)

    def __init__(self, k, digits):
        super().__init__()
        self.k, self.digits = k, digits
        self.name = f"save/k{k}/digits{'-'.join(map(str, digits))}"
        self.bounds = f"{k} results saved in any order of their creation times ({digits} digits), for one of two experiments each"

    def run(self, ctx):
        import datetime

        names = ("e", "e_2")
        ts = self.stamps(ctx, self.k, self.digits)
        for i in range(self.k):
            for j in range(i):
                ctx.assume(Not(ts[i] == ts[j]))
        frac = ctx.choice("fraction", (999999, 0) if self.k < 3 else (999999,))
        ws = workspace(*names)
        saved = {n: [] for n in names}
        with self.directory():
            for i, t in enumerate(ts):
                n = ctx.choice(f"exp{i}", names)
                at = datetime.datetime.fromtimestamp(t.rep if ctx.symbolic else t) + datetime.timedelta(microseconds=frac)
                r = Result(
                    algorithm=AlgorithmReference(reference="PC", type="name"), created_at=at, action_history=[], edges=[],
                    nodes={}, variables={"v": i}, data_loader_hash="d", algorithm_hash="a", variables_hash=f"v{i}",
                )
                CLI._save_experiment_result(ws, n, r)
                saved[n].append((t, i))
            UI._set_workspace(ws)
            try:
                shown = {x.name: x for x in asyncio.run(UI.get_experiments())}
                newest = {n: asyncio.run(UI.get_latest_experiment(n)) for n in names if saved[n]}
                each = {(n, i): asyncio.run(UI.get_experiment(n, t)) for n in names for t, i in saved[n]}
            finally:
                UI._set_workspace(None)
            ctx.check(sorted(shown) == sorted(names), "the user interface shows other experiments")
            for n in names:
                got = list(CLI._load_experiment_versions(ws, n))
                ctx.check(len(got) == len(saved[n]), f"{len(got)} results of {n} found")
                vs = [v.version for v in shown[n].versions]
                ctx.check(len(vs) == len(got) and And(*[a == b for a, b in zip(vs, got)]), "the user interface shows other versions")
                for t, i in saved[n]:
                    ctx.check(each[n, i].variables == {"v": i} and each[n, i].version == t, "the user interface serves another version")
                    if all(bool(t >= o) for o, _ in saved[n]):
                        ctx.check(
                            newest[n].variables == {"v": i} and newest[n].version == t,
                            "the user interface serves another result as the latest one",
                        )
                for a, b in zip(got, got[1:]):
                    ctx.check(a > b, "versions are not listed newest first")
                for t, i in saved[n]:
                    ctx.check(Or(*[g == t for g in got]), "a saved result is not listed under its creation time")
                    r = CLI._load_experiment_result(ws, n, t)
                    ctx.check(r["variables"] == {"v": i}, "a version gives the result of another one")
                    if all(bool(t >= o) for o, _ in saved[n]):
                        r = CLI._load_latest_experiment_result(ws, n)
                        ctx.check(r["variables"] == {"v": i}, "latest result is not the newest one")


def harnesses(tier):
    if tier == "quick":
        return [
            Versions(0, (1, 10)), Versions(1, (1, 2, 10)), Versions(2, (1, 10), ("e", "e_2")), Saved(2, (9, 10)), Saved(3, (9, 10)),
        ]
    return [Versions(k, (1, 2, 9, 10)) for k in (0, 1, 2)] + [Versions(3, (9, 10), ("e", "e_2"))] + [Saved(k, (6, 9, 10)) for k in (1, 2, 3)] + [Saved(4, (9, 10))]
