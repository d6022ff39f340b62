#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough] [--replay FILE] [--only HARNESS] [-v]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

_G = {}


def _work(job):
    from symex import runner

    harness, cfg = job
    if _G.get("import_error"):
        return runner.run_concrete(_G["prop"], harness, cfg, _G["opts"])
    return runner.run_config(_G["prop"], _G["mod"], harness, cfg, _G["opts"])


def do_replay(path):
    from symex import runner

    d = json.load(open(path))
    rep = runner.replay(d["prop"], d["harness"], d["cfg"], d["inputs"])
    print(json.dumps({"case": {k: d[k] for k in ("prop", "harness", "cfg", "inputs")}, "real": rep}, indent=1))
    runner.CLIENT.close()
    if rep["status"] in runner.BAD:
        print("VIOLATION property=%s replay=%s" % (d["prop"], path))
        return 1
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--cfg", help="substring of the JSON of the configuration")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--max-viol", type=int, default=12, help="stop after so many violations")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return do_replay(a.replay)
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    prop = a.prop.upper()
    mod = importlib.import_module("symex.props." + prop.lower())
    jobs = list(mod.configs(tier))
    if a.only:
        jobs = [j for j in jobs if j[0] == a.only]
    if a.cfg:
        jobs = [j for j in jobs if a.cfg in json.dumps(j[1])]
    total = 780 if tier == "quick" else 840
    opts = dict(getattr(mod, "OPTS", {}).get(tier, {}))
    opts.setdefault("budget", 300 if tier == "quick" else 600)
    opts.setdefault("validate", 6 if tier == "quick" else 20)
    opts["seed"] = seed
    _G.update(prop=prop, mod=mod, opts=opts)
    from symex import loader
    try:
        loader.install()
    except BaseException as e:  # noqa: BLE001 - the tree under test cannot be loaded
        import traceback
        _G["import_error"] = "".join(traceback.format_exception(e))[-1500:]
        print("NOT DECIDED: cannot load the repository under the symbolic models; running each configuration on "
              "concrete inputs instead:\n" + _G["import_error"])
    results, stopped = [], False
    ctx = mp.get_context("fork")
    nproc = max(1, min(a.jobs, len(jobs)))
    with ctx.Pool(nproc) as pool:
        it = pool.imap_unordered(_work, jobs, chunksize=1)
        while len(results) < len(jobs):
            try:
                r = it.next(timeout=max(1, total - (time.time() - t0)))
            except mp.TimeoutError:
                stopped = True
                break
            results.append(r)
            if a.v:
                print("%-14s %-70s %-9s paths=%-6d %6.1fs und=%d val=%d mis=%d inex=%d q=%d sol=%.1f" % (
                    r.harness, json.dumps(r.cfg)[:70], r.status, r.paths, r.wall, r.undecided, r.validated,
                    r.mismatch, r.inexact, r.queries, r.solver_s))
                for n in r.notes[:3]:
                    print("     note:", n)
                for k, v in r.unsupported.items():
                    print("     unsupported:", k, v)
                for u in r.unconfirmed:
                    print("     unconfirmed:", u)
                sys.stdout.flush()
            nv = sum(len(x.violations) for x in results)
            if nv >= a.max_viol or (nv and time.time() - t0 > 120):
                stopped = True
                break
        pool.terminate()
    return report(prop, tier, seed, mod, jobs, results, stopped, t0, opts, a)


def report(prop, tier, seed, mod, jobs, results, stopped, t0, opts, a):
    viols = [v for r in results for v in r.violations]
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    lines = []
    for i, v in enumerate(viols):
        p = os.path.join(rdir, "%s-%d.json" % (prop, i))
        with open(p, "w") as f:
            json.dump(v, f, indent=1, default=str)
        lines.append((v, p))
    S = lambda k: sum(getattr(r, k) for r in results)  # noqa: E731
    funcs = sorted({f for r in results for f in r.funcs})
    unsup, unconf = {}, []
    for r in results:
        for k, n in r.unsupported.items():
            unsup[k] = unsup.get(k, 0) + n
        unconf += [dict(u, harness=r.harness, cfg=r.cfg) for u in r.unconfirmed]
    incomplete = [[r.harness, r.cfg, r.status, r.notes[:1]] for r in results if r.status in ("budget", "error")]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": S("paths"), "transitions": S("branches"),
            "traces_validated_against_impl": S("validated"),
            "samples": [s for r in results for s in r.samples][:5],
            "obligations": S("obligations"), "obligations_discharged_by_solver": S("proofs"),
            "obligations_closed_by_rewriting": S("trivial"),
            "solver_queries": S("queries"), "solver_seconds": round(S("solver_s"), 2),
            "configurations": len(jobs), "configurations_completed": sum(r.status == "ok" for r in results),
            "functions_encoded": funcs, "bounds": getattr(mod, "BOUNDS", {}).get(tier, ""),
            "undecided_paths": S("undecided"), "unencodable_operations": unsup,
            "concrete_fallback_runs": S("fallback"),
            "counterexamples_not_reproduced": unconf[:5], "encoding_mismatches": S("mismatch"),
            "path_models_not_exact": S("inexact"), "incomplete_configurations": incomplete[:10],
            "explanation": "states = feasible symbolic paths through the real source, each standing for all real "
                           "values of its inputs; transitions = solver-decided branch outcomes; traces = path models "
                           "replayed on the real pandas with identical observations",
        },
        "assumptions": ["numbers are mathematical reals plus NaN/inf (no rounding, overflow or signed zero)",
                        "the numpy/pandas models in symex/npshim.py, pdshim.py, pdframe.py (validated by the "
                        "replayed traces)", "operands and histories within the stated bounds"],
        "violations": len(viols), "wall_s": round(time.time() - t0, 2),
    }
    if stopped:
        ev["coverage"]["stopped_early"] = "%d of %d configurations finished" % (len(results), len(jobs))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    seen = set()
    for v, p in lines:
        key = (v["harness"], str(v["labels"])[:80])
        if key in seen:
            continue
        seen.add(key)
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(p, HERE)))
        print("  %s %s inputs=%s\n  %s; real code: %s %s %s" % (
            v["harness"], json.dumps(v["cfg"]), v["inputs"], v["kind"], v["real"]["status"], v["labels"],
            v["real"]["exc"]))
    print("%s %s: %d configurations (%d complete), %d paths, %d queries, %.1fs solver, undecided=%d mismatches=%d "
          "validated=%d inexact=%d unsupported=%d violations=%d wall=%.1fs" % (
              prop, tier, len(jobs), ev["coverage"]["configurations_completed"], S("paths"), S("queries"),
              S("solver_s"), S("undecided"), S("mismatch"), S("validated"), S("inexact"), sum(unsup.values()),
              len(viols), time.time() - t0))
    for x in incomplete[:3]:
        print("  incomplete:", x)
    for k, n in list(unsup.items())[:5]:
        print("  unsupported:", k, n)
    for u in unconf[:3]:
        print("  not reproduced:", u)
    return 1 if viols else 0


if __name__ == "__main__":
    sys.exit(main())
