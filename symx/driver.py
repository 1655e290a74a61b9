"""Explores harnesses in parallel, replays candidates, writes evidence."""
from __future__ import annotations

import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, FIRST_COMPLETED, wait

import z3

from . import core
from .core import Engine, Limit, PathInfeasible, Unsupported
from .ctx import ConcreteCtx, Discard, StopPath, SymCtx, Violation

REPO = os.environ.get("VERIF_REPO", "/repo")


class Harness:
    """One bounded symbolic check.

    name      unique within the property
    run(ctx)  the harness body
    bounds    text: what is symbolic and up to which size
    patches() context manager installed around symbolic runs only
    """

    name = "harness"
    bounds = ""
    stubs = ()
    validate_every = 1  # cross-check every k-th path concretely
    validate_max = 40
    timeout_ms = 20000
    exceptions_are_violations = True

    def run(self, ctx):
        raise NotImplementedError

    def sym_patches(self):
        import contextlib

        return contextlib.nullcontext()

    def con_patches(self):
        """stand-ins also needed for a concrete replay (environment only)"""
        import contextlib

        return contextlib.nullcontext()

    def falsify(self):
        """extra concrete assignments to try when the solver cannot decide or
        its model does not reproduce (uninterpreted functions)."""
        return ()


def run_concrete(h, assignment):
    """-> (status, Violation|None); status in ok/violation/discard"""
    c = ConcreteCtx(assignment)
    try:
        with h.con_patches():
            h.run(c)
    except StopPath:
        pass
    except Discard:
        return "discard", None
    except RecursionError as e:
        if h.exceptions_are_violations:
            return "violation", Violation(
                "the code does not terminate (recursion limit)", dict(assignment), "exception", repr(e)
            )
    except Exception as e:
        if h.exceptions_are_violations:
            return "violation", Violation(
                f"unexpected {type(e).__name__}: {e}",
                dict(assignment),
                "exception",
                traceback.format_exc(limit=-6),
            )
        return "ok", None
    if c.violations:
        return "violation", c.violations[0]
    return "ok", None


class _Alarm(BaseException):
    pass


def _alarm(signum, frame):
    raise _Alarm()


def guarded_concrete(h, assignment, seconds=60):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    try:
        return run_concrete(h, assignment)
    except _Alarm:
        return "violation", Violation(
            f"the code did not finish within {seconds} s", dict(assignment), "nontermination"
        )
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


HARNESSES = []
KNOWN = []
_PROFILED = set()


def _profile_into(acc):
    root = os.path.join(REPO, "causy")

    def prof(frame, event, arg):
        if event == "call":
            co = frame.f_code
            if co.co_filename.startswith(root):
                acc.add(
                    f"{os.path.relpath(co.co_filename, REPO)}:{co.co_qualname}"
                )

    return prof


def explore_task(idx, prefix, slice_s, deadline):
    """worker: explore harness idx from prefix for about slice_s seconds"""
    h = HARNESSES[idx]
    eng = Engine(timeout_ms=h.timeout_ms)
    core.set_engine(eng)
    res = {
        "idx": idx,
        "violation": None,
        "spurious": [],
        "unknown": [],
        "concretised": [],
        "validated": 0,
        "reached": 0,
        "checks": 0,
        "functions": [],
        "samples": [],
        "left": [],
        "known": [],
    }

    def report(cv):
        """-> True when it is a listed known finding"""
        for hn, msg in KNOWN:
            if hn == h.name and msg in cv.msg:
                res["known"].append(f"{hn}: {msg}")
                return True
        res["violation"] = cv.as_dict()
        return False

    t0 = time.time()
    funcs = set()
    state = {"n": 0}

    def confirm(v):
        st, cv = guarded_concrete(h, v.assignment)
        if st == "violation":
            return cv
        return None

    def one():
        state["n"] += 1
        ctx = SymCtx(eng)
        profiling = idx not in _PROFILED and state["n"] <= 3
        err = None
        try:
            with h.sym_patches():
                if profiling:
                    sys.setprofile(_profile_into(funcs))
                try:
                    h.run(ctx)
                finally:
                    if profiling:
                        sys.setprofile(None)
        except StopPath:
            pass
        except PathInfeasible:
            raise
        except (Exception, Unsupported, Limit, RecursionError) as e:
            err = e
        res["checks"] += ctx.checks
        if err is not None:
            # either the code under test raises here, or a proxy was out of its
            # depth: decide on concrete values of this path
            m = eng.model()
            if m is None:
                return
            a = ctx.assignment(m)
            if os.environ.get("SYMX_DEBUG"):
                traceback.print_exception(err)
            tried = 0
            fr = eng.frames[-1]
            s = eng.new_solver()
            for l in fr.keep:
                s.add(l if fr.lits[l.get_id()] else z3.Not(l))
            while tried < 8:
                st, cv = guarded_concrete(h, a)
                if st == "violation":
                    report(cv)
                    return
                tried += 1
                block = []
                for name, (kind, var) in ctx.vars.items():
                    if kind != "real":
                        block.append(var != (z3.BoolVal(a[name]) if kind == "bool" else z3.StringVal(a[name]) if kind == "text" else a[name]))
                if not block:
                    break
                s.add(z3.Or(*block))
                if s.check() != z3.sat:
                    break
                a = ctx.assignment(s.model())
            res["concretised"].append(f"{type(err).__name__}: {str(err)[:160]} ({tried} concrete runs)")
            return
        if ctx.candidates:
            for v in ctx.candidates:
                cv = confirm(v)
                if cv is not None:
                    report(cv)
                    return
                res["spurious"].append(v.as_dict())
        if ctx.unknown:
            res["unknown"].extend(ctx.unknown)
        if (ctx.candidates or ctx.unknown) and not res.get("falsified"):
            res["falsified"] = True
            for a in h.falsify():
                st, cv = guarded_concrete(h, a)
                if st == "violation":
                    if not report(cv):
                        return
                if time.time() > deadline:
                    break
        if ctx.checks and not ctx.candidates and not ctx.unknown:
            res["reached"] += 1
            if (
                res["validated"] < h.validate_max
                and state["n"] % h.validate_every == 0
            ):
                m = eng.model()
                if m is not None:
                    a = ctx.assignment(m)
                    st, cv = guarded_concrete(h, a)
                    if st == "violation":
                        report(cv)
                        return
                    if st == "ok":
                        res["validated"] += 1
                        if len(res["samples"]) < 2:
                            res["samples"].append({"harness": h.name, "path_model": a})

    def stop():
        return (
            res["violation"] is not None
            or time.time() - t0 > slice_s
            or time.time() > deadline
        )

    try:
        left = eng.explore(one, prefix, stop)
    finally:
        core.set_engine(None)
    _PROFILED.add(idx)
    res["left"] = left
    res["functions"] = sorted(funcs)
    res["stats"] = eng.stats.as_dict()
    res["wall"] = time.time() - t0
    return res


def _init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        import torch

        torch.set_num_threads(1)
    except Exception:
        pass
    sys.setrecursionlimit(3000)


def run_property(prop, harnesses, tier, seed, budget_s, level="model_checking",
                 assumptions=(), known=(), slice_s=4.0, procs=None, out_dir=None):
    global HARNESSES, KNOWN
    t0 = time.time()
    KNOWN = list(known)
    deadline = t0 + budget_s
    HARNESSES = list(harnesses)
    procs = procs or min(8, os.cpu_count() or 1)
    per = [
        {
            "harness": h.name,
            "bounds": h.bounds,
            "stubs": list(h.stubs),
            "stats": core.Stats(),
            "validated": 0,
            "reached": 0,
            "checks": 0,
            "functions": set(),
            "concretised": {},
            "spurious": [],
            "unknown": [],
            "unexplored_prefixes": 0,
            "cpu_s": 0.0,
        }
        for h in HARNESSES
    ]
    samples = []
    violation = None
    known_hits = {}
    errors = []

    def absorb(r):
        nonlocal violation
        p = per[r["idx"]]
        p["stats"].merge(r["stats"])
        p["validated"] += r["validated"]
        p["reached"] += r["reached"]
        p["checks"] += r["checks"]
        p["functions"].update(r["functions"])
        for c in r["concretised"]:
            p["concretised"][c] = p["concretised"].get(c, 0) + 1
        p["spurious"].extend(r["spurious"][:5])
        p["unknown"].extend(r["unknown"][:5])
        p["cpu_s"] += r["wall"]
        if len(samples) < 6:
            samples.extend(r["samples"][:1])
        if r["violation"] is not None:
            v = dict(r["violation"])
            v["harness"] = HARNESSES[r["idx"]].name
            violation = v
        for k in r["known"]:
            known_hits[k] = known_hits.get(k, 0) + 1

    tasks = [(i, ()) for i in range(len(HARNESSES))]
    ctxm = mp.get_context("fork")
    serial = os.environ.get("SYMX_SERIAL")
    if serial:
        _init_worker()
        while tasks and violation is None:
            i, pre = tasks.pop()
            r = explore_task(i, pre, 1e9, deadline)
            absorb(r)
            per[i]["unexplored_prefixes"] += len(r["left"]) if violation is None else 0
    else:
        with ProcessPoolExecutor(procs, mp_context=ctxm, initializer=_init_worker) as ex:
            pending = {}

            def submit(i, pre, sl):
                f = ex.submit(explore_task, i, pre, sl, deadline)
                pending[f] = (i, pre)

            queue = list(tasks)
            while (queue or pending) and violation is None:
                while queue and len(pending) < procs * 2:
                    i, pre = queue.pop(0)
                    # short slices while there is little to distribute
                    submit(i, pre, slice_s if len(queue) > procs else 1.0)
                done, _ = wait(list(pending), timeout=5, return_when=FIRST_COMPLETED)
                for f in done:
                    i, pre = pending.pop(f)
                    try:
                        r = f.result()
                    except Exception as e:
                        errors.append(f"{HARNESSES[i].name}: worker failed: {e!r}")
                        continue
                    absorb(r)
                    if time.time() > deadline:
                        per[i]["unexplored_prefixes"] += len(r["left"])
                    else:
                        queue.extend((i, l) for l in r["left"])
                if time.time() > deadline + 60:
                    for f, (i, pre) in pending.items():
                        per[i]["unexplored_prefixes"] += 1
                    break
            for i, pre in queue:
                per[i]["unexplored_prefixes"] += 1
            if violation is not None or time.time() > deadline + 60:
                for p in list(getattr(ex, "_processes", {}).values()):
                    p.kill()
    if violation is None:
        # paths the solver left open are at least attacked with concrete candidates
        t1 = time.time()
        for i, h in enumerate(HARNESSES):
            p = per[i]
            if not (p["unexplored_prefixes"] or p["concretised"] or p["unknown"] or p["spurious"]):
                continue
            for a in h.falsify():
                if time.time() - t1 > 60 or violation is not None:
                    break
                st, cv = guarded_concrete(h, a)
                if st == "violation" and not any(hn == h.name and m in cv.msg for hn, m in KNOWN):
                    violation = {**cv.as_dict(), "harness": h.name}
    return {
        "per": per,
        "samples": samples,
        "violation": violation,
        "errors": errors,
        "known_hits": known_hits,
        "wall_s": time.time() - t0,
    }
