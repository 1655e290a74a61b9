"""P24: commands on a workspace change exactly what they are about and keep it consistent."""
import contextlib
import copy
import json
import os
import sys
import tempfile

import pydantic_yaml
import questionary

from symx.core import And
from symx.driver import Harness
from symx.values import Placeholders, _restore_deep, contains, plain_model, symbolic_models, symbolic_text, v_bool, v_int, v_real
from checks.fakepool import fake_pool
from checks.p15 import same
from checks.p17 import quiet

import causy.workspaces.cli as CLI
from causy.data_loader import DataLoaderReference, load_data_loader
from causy.models import Algorithm, AlgorithmReference
from causy.serialization import load_algorithm_by_reference
from causy.variables import BoolVariable, FloatVariable, IntegerVariable, StringVariable
from causy.workspaces.models import Experiment, Workspace

ASSUMPTIONS = (
    "YAML and JSON text and pydantic hand numbers of a type through unchanged (placeholders in symbolic runs; replays use real files)",
)
BUDGET = {"quick": 300, "thorough": 3000}


class _Answer:
    def __init__(self, v):
        self.v = v

    def ask(self, *a, **k):
        return self.v

    unsafe_ask = ask


@contextlib.contextmanager
def answers(given):
    """questions are answered from a dictionary: a selection by the one given answer that is among the choices, texts and paths by name"""
    saved = questionary.select, questionary.text, questionary.path

    def select(message, choices=(), **k):
        vals = [getattr(c, "value", c) for c in choices]
        hit = [v for v in vals if v in given["select"]]
        return _Answer(hit[0] if hit else None)

    questionary.select = select
    questionary.text = lambda *a, **k: _Answer(given["text"])
    questionary.path = lambda *a, **k: _Answer(given["path"])
    try:
        yield
    finally:
        questionary.select, questionary.text, questionary.path = saved


@contextlib.contextmanager
def symbolic_yaml(ph):
    """workspace files carry symbolic numbers as placeholders"""
    saved = []

    def reading(f):
        return lambda *a, **k: _restore_deep(f(*a, **k), ph, set())

    def writing(f, at):
        def g(*a, **k):
            a = list(a)
            if len(a) > at:
                a[at] = plain_model(a[at], ph)
            return f(*a, **{n: plain_model(v, ph) if n == "model" else v for n, v in k.items()})

        return g

    names = {"parse_yaml_raw_as": reading, "parse_yaml_file_as": reading,
             "to_yaml_str": lambda f: writing(f, 0), "to_yaml_file": lambda f: writing(f, 1)}
    mods = [pydantic_yaml] + [m for n, m in list(sys.modules.items()) if n.startswith("causy.")]
    for n, wrap in names.items():
        real = getattr(pydantic_yaml, n)
        new = wrap(real)
        for m in mods:
            if m.__dict__.get(n) is real:
                saved.append((m, n, real))
                setattr(m, n, new)
    try:
        yield
    finally:
        for m, n, real in saved:
            setattr(m, n, real)


class Admin(Harness):
    validate_max = 15
    validate_every = 3
    timeout_ms = 5000
    stubs = (
        "symbolic numbers pass pydantic, YAML and JSON text by placeholders (symbolic runs only)",
        "questions to the user are answered by the harness",
        "worker pool -> in-process stand-in",
    )

    @contextlib.contextmanager
    def sym_patches(self):
        ph = Placeholders()
        with symbolic_models(), symbolic_text(ph), symbolic_yaml(ph), fake_pool(), quiet():
            yield

    @contextlib.contextmanager
    def con_patches(self):
        with fake_pool(), quiet():
            yield

    @contextlib.contextmanager
    def directory(self):
        old, path, mods = os.getcwd(), list(sys.path), set(sys.modules)
        with tempfile.TemporaryDirectory(prefix="p24-") as d:
            try:
                os.chdir(d)
                yield d
            finally:
                os.chdir(old)
                sys.path[:] = path
                for m in set(sys.modules) - mods:
                    if str(getattr(sys.modules[m], "__file__", "")).startswith(d):
                        del sys.modules[m]

    def state(self, ws):
        """what a workspace says, as plain data"""
        return {
            "name": ws.name, "author": ws.author,
            "pipelines": {k: (str(p.type.value), p.reference) for k, p in (ws.pipelines or {}).items()},
            "dataloaders": {k: (str(getattr(d.type, "value", d.type)), d.reference, d.options) for k, d in (ws.dataloaders or {}).items()},
            "experiments": {k: (e.pipeline, e.dataloader, dict(e.variables or {})) for k, e in (ws.experiments or {}).items()},
        }

    def agree(self, a, b):
        if isinstance(a, dict):
            return isinstance(b, dict) and set(a) == set(b) and And(*[self.agree(a[k], b[k]) for k in a])
        if isinstance(a, (list, tuple)):
            return isinstance(b, (list, tuple)) and len(a) == len(b) and And(*[self.agree(x, y) for x, y in zip(a, b)])
        return same(a, b)


class Commands(Admin):
    def __init__(self, length, commands):
        self.length, self.commands = length, commands
        self.name = f"commands/{length}/{'-'.join(c.split()[0] + '_' + c.split()[1] for c in commands)[:60]}"
        self.bounds = (
            f"two pipelines, two data loaders, up to two experiments that use any of them with any values of their variables and options, "
            f"stored results; {length} of the commands {commands} with names that exist or not"
        )

    def run(self, ctx):
        alg = Algorithm(
            name="x", edge_types=[], pipeline_steps=[],
            variables=[FloatVariable(name="f", value=0.5), IntegerVariable(name="i", value=3), StringVariable(name="s", value="t")],
        )
        exps = {}
        for k in ("e", "e_2"):
            if k == "e" or ctx.flag("two"):
                exps[k] = (
                    ctx.choice(f"{k}.pipeline", ("p", "q")), ctx.choice(f"{k}.loader", ("d", "dd")),
                    {"f": v_real(ctx, f"{k}.f", 0, 1), "i": v_int(ctx, f"{k}.i", 0, 9)} if k == "e" else ({"b": v_bool(ctx, "b")} if ctx.flag("set") else {}),
                )
        spec = {
            "name": "my name", "author": "me",
            "pipelines": {"p": ("file", "alg.json"), "q": ("name", "PC")},
            "dataloaders": {"d": ("json", "data.json", None), "dd": ("jsonl", "data.jsonl", {"n": v_int(ctx, "option", 0, 9), "t": "x"} if exps["e"][0] == "p" else {})},
            "experiments": exps,
        }
        with self.directory():
            with open("alg.json", "w") as f:
                f.write(alg.model_dump_json())
            with open("data.json", "w") as f:
                f.write('{"a": [1.0, 2.0], "b": [0.5, 0.25]}')
            CLI.write_to_workspace(self.build(spec))
            results = [("e", 1000), ("e", 2000), ("e_2", 1000)] if exps["e"][1] == "d" else []
            for n, t in results:
                with open(f"{n}_{t}.json", "w") as f:
                    f.write("{}")
            self.look(ctx, spec, "a workspace that was written")
            for j in range(self.length):
                command = ctx.choice(f"command{j}", self.commands)
                spec, results = self.command(ctx, j, command, spec, results)
                self.look(ctx, spec, f"after '{command}' the workspace")
                for k, (p, d, _) in spec["experiments"].items():
                    ctx.check(p in spec["pipelines"] and d in spec["dataloaders"], "harness: the expectation is consistent")
                left = sorted(f for f in os.listdir() if f.startswith("e") and f.endswith(".json"))
                ctx.check(left == sorted(f"{n}_{t}.json" for n, t in results), f"after '{command}' there are results {left}")

    def build(self, spec):
        return Workspace(
            name=spec["name"], author=spec["author"],
            pipelines={k: AlgorithmReference(type=t, reference=r) for k, (t, r) in spec["pipelines"].items()},
            dataloaders={k: DataLoaderReference(type=t, reference=r, options=o) for k, (t, r, o) in spec["dataloaders"].items()},
            experiments={k: Experiment(pipeline=p, dataloader=d, variables=v) for k, (p, d, v) in spec["experiments"].items()},
        )

    def look(self, ctx, spec, what):
        got = self.state(CLI._current_workspace())
        for part in spec:
            ctx.check(self.agree(spec[part], got[part]), f"{what} has other {part}")

    def command(self, ctx, j, command, spec, results):
        spec = {k: dict(v) if isinstance(v, dict) else v for k, v in spec.items()}
        exps = spec["experiments"]
        if command == "rm pipeline":
            n = ctx.choice(f"which{j}", ("p", "q", "zz"))
            CLI.remove_pipeline(n)
            if n in spec["pipelines"] and all(e[0] != n for e in exps.values()):
                del spec["pipelines"][n]
        elif command == "rm dataloader":
            n = ctx.choice(f"which{j}", ("d", "dd", "zz"))
            CLI.remove_data_loader(n)
            if n in spec["dataloaders"] and all(e[1] != n for e in exps.values()):
                del spec["dataloaders"][n]
        elif command == "rm experiment":
            n = ctx.choice(f"which{j}", ("e", "e_2", "zz"))
            CLI.remove_experiment(n)
            if n in exps:
                del exps[n]
                results = [r for r in results if r[0] != n]
        elif command == "clear experiment":
            n = ctx.choice(f"which{j}", ("e", "e_2", "zz"))
            CLI.clear_experiment(n)
            if n in exps:
                results = [r for r in results if r[0] != n]
        elif command == "update variable":
            n = ctx.choice(f"which{j}", ("e", "zz"))
            v, text, value = ctx.choice(f"value{j}", (("f", "0.25", 0.25), ("i", "7", 7), ("s", "1e3", "1e3"), ("s", "no", "no"), ("i", "x", None), ("zz", "1", None)))
            CLI.update_experiment_variable(n, v, text)
            if n in exps and value is not None and exps[n][0] == "p":
                exps[n] = (exps[n][0], exps[n][1], {**exps[n][2], v: value})
        elif command == "add experiment":
            if not spec["pipelines"] or not spec["dataloaders"]:
                return spec, results
            p = ctx.choice(f"p{j}", tuple(spec["pipelines"]))
            d = ctx.choice(f"d{j}", tuple(spec["dataloaders"]))
            with answers({"select": (p, d), "text": f"New {j}", "path": None}):
                CLI.create_experiment()
            defaults = {"f": 0.5, "i": 3, "s": "t"} if p == "p" else {v.name: v.value for v in load_algorithm_by_reference("name", "PC").variables}
            exps[f"new_{j}"] = (p, d, defaults)
        elif command == "add dataloader":
            kind = ctx.choice(f"kind{j}", ("json", "jsonl"))
            with answers({"select": (kind,), "text": f"More data {j}", "path": "some where.json"}):
                CLI.create_data_loader()
            spec["dataloaders"][f"more_data_{j}"] = (kind, "some where.json", None)
        elif command == "add pipeline":
            chosen = ctx.choice(f"alg{j}", ("PC", "ParallelPC"))
            with answers({"select": ("PRECONFIGURED", chosen), "text": f"My pc {j}", "path": None}):
                CLI.create_pipeline()
            spec["pipelines"][f"my_pc_{j}"] = ("name", chosen)
        return spec, results


class Created(Admin):
    """what was added can be used"""

    name = "created"
    bounds = "every kind of pipeline and data loader the commands can add, names with blanks and capitals, text that looks like a number"

    def run(self, ctx):
        name = ctx.choice("name", ("Mine", "my Pipe", "x1"))
        kind = ctx.choice("kind", ("PRECONFIGURED", "EJECT", "SKELETON", "dynamic"))
        alg = ctx.choice("algorithm", ("PC", "ParallelPC"))
        author = ctx.choice("author", ("me", "1e3", "no", "12", "a: b # c", "", None))
        slug = name.lower().replace(" ", "_")
        with self.directory():
            CLI.write_to_workspace(Workspace(name=author or "n", author=author, pipelines={}, dataloaders={}, experiments={}))
            with answers({"select": (kind, alg), "text": name, "path": None}):
                CLI.create_data_loader() if kind == "dynamic" else CLI.create_pipeline()
            ws = CLI._current_workspace()
            ctx.check(ws.author == author and ws.name == (author or "n"), "name and author of the workspace are kept")
            if kind == "dynamic":
                ctx.check(list(ws.dataloaders) == [slug] and not ws.pipelines and not ws.experiments, "only the data loader was added")
                # module names stay in the interpreter: load under a name of its own
                rows = list(load_data_loader(ws.dataloaders[slug]).load())
                ctx.check(rows == [{"column1": 1.0, "column2": 2.0}], "the data loader that was added gives its rows")
                return
            ctx.check(len(ws.pipelines) == 1 and not ws.dataloaders and not ws.experiments, "only the pipeline was added")
            p = list(ws.pipelines.values())[0]
            got = load_algorithm_by_reference(p.type, p.reference)
            if kind == "SKELETON":
                ctx.check(got.name == name and got.pipeline_steps == [], "the skeleton that was added can be loaded")
            else:
                want = load_algorithm_by_reference("name", alg)
                ctx.check(got.model_dump() == want.model_dump(), "the pipeline that was added is the one that was chosen")


class Init(Admin):
    """a new workspace is the one that was asked for; an existing one is only replaced with consent"""

    name = "init"
    bounds = "with or without an existing workspace, consent or not, each kind of pipeline and data loader or none, experiment or none, names and authors that look like something else"

    @contextlib.contextmanager
    def dialogue(self, given):
        import click
        import typer

        def confirm(text, *a, abort=False, **k):
            t = str(text).lower()
            key = next(w for w in ("overwrite", "experiment", "loader", "pipeline") if w in t)
            if not given[key] and abort:
                raise click.exceptions.Abort()
            return given[key]

        def prompt(text, *a, **k):
            return given["author" if "author" in str(text).lower() else "name"]

        saved = [(m, n, getattr(m, n)) for m in (typer, click) for n in ("confirm", "prompt")]
        try:
            for m, n, _ in saved:
                setattr(m, n, confirm if n == "confirm" else prompt)
            yield
        finally:
            for m, n, f in saved:
                setattr(m, n, f)

    def run(self, ctx):
        import click

        exists = ctx.flag("exists")
        overwrite = ctx.flag("overwrite") if exists else True
        name, author = ctx.choice("names", (("w", "me"), ("1e3", "no"), ("12", "a: b # c"), ("null", "0x1F")))
        pipe = ctx.choice("pipeline", (None, "PRECONFIGURED", "EJECT"))
        loader = ctx.choice("loader", (None, "json", "jsonl", "dynamic"))
        experiment = ctx.flag("experiment") if pipe and loader else False
        with self.directory():
            old = Workspace(name="old", author="x", pipelines={"p": AlgorithmReference(reference="PC", type="name")}, dataloaders={}, experiments={})
            if exists:
                CLI.write_to_workspace(old)
            text = open("workspace.yml").read() if exists else None
            given = {"overwrite": overwrite, "pipeline": pipe is not None, "loader": loader is not None, "experiment": experiment, "name": name, "author": author}
            refused = False
            with self.dialogue(given), answers({"select": (pipe, loader, "PC", "thing"), "text": "thing", "path": "data.json"}):
                try:
                    CLI.init()
                except (click.exceptions.Abort, SystemExit, click.exceptions.Exit):
                    refused = True
            if exists and not overwrite:
                ctx.check(refused and open("workspace.yml").read() == text, "a workspace is not replaced without consent")
                ctx.check(sorted(os.listdir()) == ["workspace.yml"], "nothing else is written without consent")
                return
            ctx.check(not refused, "a workspace is made")
            ws = CLI._current_workspace()
            ctx.check(ws.name == name and ws.author == author, "name and author are those that were given")
            ctx.check(list(ws.pipelines) == (["thing"] if pipe else []), "the pipeline that was asked for, and none else")
            if pipe:
                p = ws.pipelines["thing"]
                got, want = load_algorithm_by_reference(p.type, p.reference), load_algorithm_by_reference("name", "PC")
                ctx.check(got.model_dump() == want.model_dump(), "the pipeline is the one that was chosen")
            ctx.check(list(ws.dataloaders) == (["thing"] if loader else []), "the data loader that was asked for, and none else")
            if loader:
                d = ws.dataloaders["thing"]
                ctx.check(d.type == loader and not d.options, "the data loader is of the chosen kind")
                if loader == "dynamic":
                    ctx.check(list(load_data_loader(d).load()) == [{"column1": 1.0, "column2": 2.0}], "the data loader gives its rows")
                else:
                    ctx.check(d.reference == "data.json", "the data loader reads the chosen file")
            ctx.check(list(ws.experiments) == (["thing"] if experiment else []), "the experiment that was asked for, and none else")
            if experiment:
                e = ws.experiments["thing"]
                ctx.check(e.pipeline == "thing" and e.dataloader == "thing" and dict(e.variables or {}) == {v.name: v.value for v in want.variables}, "the experiment is set up with the chosen parts and the defaults")


def harnesses(tier):
    rm = ("rm pipeline", "rm dataloader", "rm experiment")
    ex = ("clear experiment", "update variable", "rm experiment")
    add = ("add experiment", "add dataloader", "add pipeline")
    if tier == "quick":
        return [Commands(1, rm), Commands(1, ex), Commands(1, add), Commands(2, rm), Commands(2, ("add experiment", "rm pipeline")), Created(), Init()]
    return [Commands(2, rm + ex[:2]), Commands(2, add + rm), Commands(3, rm), Created(), Init()]
