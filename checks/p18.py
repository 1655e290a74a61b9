"""P18: a file reference to an algorithm is followed exactly if the file lies inside the working directory."""
import contextlib
import io
import json
import os
import shutil
import tempfile

import yaml
import z3

from symx.core import And, Not, Or, Unsupported, wrap_bool
from symx.driver import Harness
from symx.symstr import SymStr, sterm
import causy.serialization as S
from causy.models import AlgorithmReferenceType

ASSUMPTIONS = (
    "os.path.realpath gives the normalised path a reference leads to, os.path.commonpath, commonprefix, abspath, normpath, join, "
    "isabs and relpath do what the standard library documents (symbolic runs; replays use real directories, files and links)",
)
BUDGET = {"quick": 300, "thorough": 3000}

ALG = {"name": "inside reference", "pipeline_steps": [], "edge_types": [], "extensions": [], "variables": []}


def inside(r, base):
    return r.startswith(base if base.endswith("/") else base + "/")


class Containment(Harness):
    validate_max = 40
    timeout_ms = 10000
    stubs = (
        "working directory, path functions and open() of the serialization module for the symbolic path (symbolic runs only)",
    )

    def __init__(self, base, depth, size):
        self.base, self.depth, self.size = base, depth, size
        self.name = f"file/base{base.replace('/', '.')}/depth{depth}"
        self.bounds = (
            f"working directory {base} (below a scratch root in replays), the file at any path of {depth} components of 1-{size} characters "
            "below the root, referred to absolutely, relatively, through a link to the file or to its directory, as JSON or YAML"
        )

    def run(self, ctx):
        comps = [ctx.text(f"c{i}", "aw.", 1, self.size) for i in range(self.depth)]
        for c in comps:
            ctx.assume(And(Not(c == "."), Not(c.startswith(".."))))
        fmt = ctx.choice("format", ("json", "yaml"))
        how = ctx.choice("how", ("absolute", "relative", "link", "directory link"))
        text = json.dumps(ALG) if fmt == "json" else yaml.safe_dump(ALG)
        if ctx.symbolic:
            root = "/T"
            body = self.symbolic
        else:
            root = os.path.realpath(tempfile.mkdtemp(prefix="p18-"))
            body = self.concrete
        try:
            base = "/" if self.base == "/" else root + self.base
            r = root
            for c in comps:
                r = r + "/" + c
            # a file is not a directory above the working directory
            ctx.assume(Not((base + "/").startswith(r + "/") if not ctx.symbolic else
                           wrap_bool(z3.PrefixOf(sterm(r + "/"), z3.StringVal(base + "/")))))
            # the three cases are told apart before the code runs
            ins = bool(inside(r, base))
            if not ins and base != "/":
                bool(r.startswith(base))
            got = body(r, base, root, how, ins, text)
            if ins:
                ctx.check(got is not None, "a file inside the working directory is refused")
                ctx.check(getattr(got, "name", None) == ALG["name"], "another algorithm was loaded")
            else:
                ctx.check(got is None, "a file outside of the working directory is loaded")
        finally:
            if not ctx.symbolic:
                shutil.rmtree(root, ignore_errors=True)

    def load(self, ref, ins):
        try:
            return S.load_algorithm_by_reference(AlgorithmReferenceType.FILE, ref)
        except Exception:
            if ins:
                raise
            return None

    def concrete(self, r, base, root, how, ins, text):
        old = os.getcwd()
        os.makedirs(base, exist_ok=True)
        os.makedirs(os.path.dirname(r), exist_ok=True)
        with open(r, "w") as f:
            f.write(text)
        try:
            os.chdir(base)
            if how == "absolute":
                ref = r
            elif how == "relative":
                ref = r[len(base):].lstrip("/") if ins else "../" * base.count("/") + r[1:]
            else:
                link = "__link__"
                if base == "/":
                    # nothing is written to the real root
                    link = os.path.join(root, link)
                if os.path.lexists(link):
                    return self.load(r, ins)
                os.symlink(r if how == "link" else os.path.dirname(r), link)
                ref = link if how == "link" else link + "/" + os.path.basename(r)
            return self.load(ref, ins)
        finally:
            os.chdir(old)

    def symbolic(self, r, base, root, how, ins, text):
        if how == "absolute":
            ref = r
        elif how == "relative":
            ref = r[len(base.rstrip("/")) + 1:] if ins else "../" * base.count("/") + r[1:]
        elif how == "link":
            ref = "__link__" if base != "/" else root + "/__link__"
        else:
            ref = ("__link__" if base != "/" else root + "/__link__") + "/__file__"
        # path texts that lead to the file: text -> absolute normalised form (links not followed)
        alias = [(ref, r if how in ("absolute", "relative") else os.path.join(base, ref))]

        def lead(p):
            if isinstance(p, SymStr):
                if p.t.eq(sterm(r)):
                    return r
            for a, full in alias:
                if isinstance(a, SymStr) and isinstance(p, SymStr) and a.t.eq(p.t):
                    return full
                if type(a) is str and type(p) is str and a == p:
                    return full
            if type(p) is str and how in ("link", "directory link") and p == os.path.join(base, ref):
                return p
            return None

        class Path:
            def __getattr__(self, n):
                f = getattr(os.path, n)

                def g(*a, **k):
                    def sym(x):
                        return isinstance(x, SymStr) or isinstance(x, (list, tuple)) and any(map(sym, x))

                    if any(map(sym, a)):
                        raise Unsupported(f"os.path.{n} of symbolic text")
                    return f(*a, **k)

                return g if callable(f) else f

            def realpath(self, p, **k):
                if lead(p) is not None:
                    return r
                if isinstance(p, SymStr):
                    raise Unsupported("realpath of unknown symbolic text")
                return p if p.startswith("/") else os.path.normpath(os.path.join(base, p))

            def abspath(self, p):
                q = lead(p)
                if q is not None:
                    return q
                if isinstance(p, SymStr):
                    raise Unsupported("abspath of unknown symbolic text")
                return os.path.normpath(os.path.join(base, p))

            normpath = abspath

            def isabs(self, p):
                return p.startswith("/")

            def exists(self, p):
                return lead(p) is not None or not isinstance(p, SymStr) and (base + "/").startswith(p.rstrip("/") + "/")

            isfile = exists

            def islink(self, p):
                return how == "link" and not isinstance(p, SymStr) and lead(p) is not None

            def join(self, a, *b):
                if len(b) == 1 and type(a) is str and isinstance(b[0], SymStr):
                    if bool(b[0].startswith("/")):
                        return b[0]
                    j = (a if a.endswith("/") else a + "/") + b[0]
                    if a == base and lead(b[0]) is not None:
                        alias.append((j, lead(b[0])))
                    return j
                if any(isinstance(x, SymStr) for x in (a, *b)):
                    raise Unsupported("join of symbolic text")
                return os.path.join(a, *b)

            def split2(self, ps):
                ps = list(ps)
                sy = [p for p in ps if isinstance(p, SymStr)]
                co = [p for p in ps if not isinstance(p, SymStr)]
                if not sy:
                    return None
                if len(sy) != 1 or len(co) != 1 or lead(sy[0]) is not r:
                    raise Unsupported("common part of symbolic texts")
                return co[0]

            def commonpath(self, ps):
                ps = list(ps)
                c = self.split2(ps)
                if c is None:
                    return os.path.commonpath(ps)
                parts = [x for x in c.split("/") if x]
                out = z3.StringVal("/")
                cur = ""
                for x in parts:
                    cur += "/" + x
                    out = z3.If(z3.Or(z3.PrefixOf(z3.StringVal(cur + "/"), r.t), r.t == cur), z3.StringVal(cur), out)
                return SymStr(out)

            def commonprefix(self, ps):
                ps = list(ps)
                c = self.split2(ps)
                if c is None:
                    return os.path.commonprefix(ps)
                out = z3.StringVal("")
                for k in range(1, len(c) + 1):
                    out = z3.If(z3.PrefixOf(z3.StringVal(c[:k]), r.t), z3.StringVal(c[:k]), out)
                return SymStr(out)

            def relpath(self, p, start=None):
                p = lead(p) if lead(p) is not None else p
                if (start is None or start == base) and isinstance(p, SymStr):
                    return r[len(base.rstrip("/")) + 1:] if ins else "../" + r[1:]
                if isinstance(p, SymStr):
                    raise Unsupported("relpath of symbolic text")
                return os.path.relpath(p, base if start is None else start)

            def dirname(self, p):
                if isinstance(p, SymStr):
                    raise Unsupported("dirname of symbolic text")
                return os.path.dirname(p)

        class Os:
            path = Path()

            def __getattr__(self, n):
                return getattr(os, n)

            def getcwd(self):
                return base

        def opener(p, *a, **k):
            if lead(p) is None:
                if isinstance(p, SymStr):
                    raise Unsupported("open of unknown symbolic text")
                raise FileNotFoundError(p)
            return io.StringIO(text)

        saved = S.os
        S.os = Os()
        S.open = opener
        try:
            return self.load(ref, ins)
        finally:
            S.os = saved
            del S.open


def harnesses(tier):
    if tier == "quick":
        return [Containment(b, d, 3) for b in ("/wa", "/w/a", "/") for d in (1, 2, 3)]
    return [Containment(b, d, 4) for b in ("/wa", "/w/a", "/a/w/a", "/") for d in (1, 2, 3, 4, 5)]
