#!/opt/venv/bin/python
"""run_check.py --property P01 --tier quick|thorough     decide one property
   run_check.py --replay FILE                            re-run one counterexample

exit 0  the property held on everything explored
exit 1  VIOLATION (a solver counterexample that reproduces on the unpatched code)
exit 2  the check itself could not come to an answer
"""
import argparse
import hashlib
import importlib
import json
import logging
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")

if os.environ.get("PYTHONHASHSEED") != "0":
    # set iteration order of strings is a declared bound of the checks
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    os.execve(sys.executable, [sys.executable, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
os.environ.setdefault("OMP_NUM_THREADS", "1")
logging.disable(logging.CRITICAL)

OUT = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
BUDGET = {"quick": 600, "thorough": 3000}


def load(prop):
    return importlib.import_module("checks." + prop.lower())


def known_findings(prop):
    """lines 'finding: property=<id> harness=<name> message=<text>' suppress that
    one violation; 'fixed: ...' lines suppress nothing"""
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f"finding: property={prop} "):
                rest = line.split(" harness=", 1)[1]
                harness, msg = rest.split(" message=", 1)
                out.append((harness, msg))
    return out


def replay(path):
    from symx import driver

    d = json.load(open(path))
    mod = load(d["property"])
    h = {h.name: h for h in mod.harnesses(d.get("tier", "quick"))}[d["harness"]]
    st, v = driver.guarded_concrete(h, d["assignment"])
    print(json.dumps({"status": st, "violation": v.as_dict() if v else None}, indent=1, default=str))
    return 1 if st == "violation" else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--only", help="substring of harness names (development)")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    prop = a.property
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    from symx import driver
    import z3

    z3.set_param("smt.random_seed", seed)
    mod = load(prop)
    hs = mod.harnesses(a.tier)
    if a.only:
        hs = [h for h in hs if a.only in h.name]
    budget = a.budget or getattr(mod, "BUDGET", {}).get(a.tier, BUDGET[a.tier])
    r = driver.run_property(prop, hs, a.tier, seed, budget, known=known_findings(prop))

    per = []
    tot = {"paths": 0, "decisions": 0, "branch_queries": 0, "assert_queries": 0,
           "nested_paths": 0, "unknown": 0, "infeasible": 0}
    solver_s = 0.0
    funcs = set()
    vac, inconclusive, incomplete = [], [], []
    for p in r["per"]:
        s = p["stats"].as_dict()
        for k in tot:
            tot[k] += s[k]
        solver_s += s["solver_s"]
        funcs |= p["functions"]
        per.append({
            "harness": p["harness"], "bounds": p["bounds"], "stubs": p["stubs"],
            "paths": s["paths"], "infeasible_paths": s["infeasible"],
            "merged_subpaths": s["nested_paths"],
            "queries_branch": s["branch_queries"], "queries_assert": s["assert_queries"],
            "asserts_checked": p["checks"], "paths_reaching_assert": p["reached"],
            "solver_s": s["solver_s"], "cpu_s": round(p["cpu_s"], 2),
            "concrete_cross_checks": p["validated"],
            "paths_decided_concretely_only": p["concretised"],
            "unreproduced_candidates": p["spurious"][:3],
            "solver_unknown": p["unknown"][:3],
            "unexplored_prefixes": p["unexplored_prefixes"],
        })
        known = any(k.startswith(p["harness"] + ": ") for k in r["known_hits"])
        if p["checks"] == 0 and not p["concretised"] and not p["unexplored_prefixes"] and not r["violation"] and not known:
            vac.append(p["harness"])
        if p["spurious"] or p["unknown"]:
            inconclusive.append(p["harness"])
        if p["unexplored_prefixes"]:
            incomplete.append(p["harness"])
    v = r["violation"]
    exhaustive = not (v or incomplete or inconclusive or r["errors"] or vac
                      or any(p["paths_decided_concretely_only"] for p in per))
    ev = {
        "property": prop, "tier": a.tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"],
            "transitions": tot["decisions"],
            "traces_validated_against_impl": sum(p["concrete_cross_checks"] for p in per),
            "samples": r["samples"],
            "exhaustive": exhaustive,
            "functions_encoded": sorted(funcs),
            "queries_discharged": tot["branch_queries"] + tot["assert_queries"],
            "assert_queries": tot["assert_queries"],
            "merged_subpaths": tot["nested_paths"],
            "solver_unknown": tot["unknown"],
            "solver_s": round(solver_s, 2),
            "solver": "z3 " + z3.get_version_string(),
            "harnesses": per,
            "known_findings_hit": r["known_hits"],
            "meaning": "states = symbolic paths explored to their end, transitions = branch decisions "
                       "made by the solver along them, traces_validated = solver models re-run on the "
                       "unpatched code with ordinary Python values",
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())) + [
            "strings hash with PYTHONHASHSEED=0",
            "proxies model Python bool/int exactly; symbolic reals are mathematical reals",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if v else 0,
    }
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in r["known_hits"]:
        print(f"KNOWN-FINDING: property={prop} {k}")
    if v:
        rp = dict(v, property=prop, tier=a.tier)
        blob = json.dumps(rp, indent=1, default=str, sort_keys=True)
        d = os.path.join(OUT, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}-{hashlib.sha256(blob.encode()).hexdigest()[:12]}.json")
        with open(path, "w") as f:
            f.write(blob)
        print(f"harness: {v['harness']}\nwhat: {v['msg']}\ninput: {json.dumps(v['assignment'], default=str)}")
        if v.get("detail"):
            print(v["detail"])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    for e in r["errors"]:
        print("ERROR", e)
    print(f"{prop} {a.tier}: {tot['paths']} paths, {tot['decisions']} decisions, "
          f"{tot['branch_queries'] + tot['assert_queries']} queries, "
          f"{ev['coverage']['traces_validated_against_impl']} cross-checks, "
          f"solver {solver_s:.1f} s, wall {ev['wall_s']} s, exhaustive within bounds: {exhaustive}")
    if incomplete:
        print("INCOMPLETE (time budget): " + ", ".join(incomplete))
    if vac:
        print("VACUOUS: " + ", ".join(vac))
    if inconclusive:
        print("INCONCLUSIVE (solver candidate that does not reproduce, or unknown): " + ", ".join(inconclusive))
    undecided = [p["harness"] for p in per if p["paths_decided_concretely_only"]]
    if undecided:
        print("PARTLY CONCRETE (code the engine could not encode, tried on concrete values): " + ", ".join(undecided))
    if r["errors"] or vac:
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
