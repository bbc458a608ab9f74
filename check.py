"""check.py PROP [--tier quick|thorough] [--only SCENARIO] [--replay FILE]"""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True


def load_harness():
    d = os.path.join(HERE, "harness")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("harness." + f[:-3])


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get("findings", []) if k["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--param")
    ap.add_argument("--replay")
    ap.add_argument("--lines", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--ncpu", type=int)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from symx import runner
    import openturns  # noqa: F401  (shared by the forked workers)
    import statsmodels.regression.linear_model  # noqa: F401
    import scipy.interpolate  # noqa: F401
    load_harness()
    kn = known_findings(a.prop)
    known = {}
    for k in kn:
        known.setdefault(k["scenario"], []).append(k["label"])
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        sc = next(s for s in runner.SCENARIOS[r["property"]] if s["name"] == r["scenario"])
        param = next(p for p in sc["params"] if runner.ptag(p) == r["param"])
        st, lab, info, _ = runner.run_concrete(sc, param, r["model"], r.get("seed", 1), known.get(sc["name"], ()))
        print("replay:", st, lab)
        print(info)
        if st == "fail":
            print("VIOLATION property=%s replay=%s" % (r["property"], a.replay))
            return 1
        return 0
    jobs = []
    for sc in runner.SCENARIOS.get(a.prop, []):
        if sc["tier"] == "thorough" and a.tier != "thorough":
            continue
        if a.only and a.only not in sc["name"]:
            continue
        for p in sc["params"]:
            if a.param and a.param != runner.ptag(p):
                continue
            jobs.append((sc, p))
    if not jobs:
        print("no scenario for", a.prop)
        return 2
    scale = 4.0 if a.tier == "thorough" else 1.0
    res = runner.run_all(jobs, a.tier, seed, known, scale=scale, lines=a.lines, ncpu=a.ncpu)
    viol = []
    hits = []
    agg = {k: 0 for k in ("paths", "ok", "infeasible", "validated", "skipped", "queries", "branches", "checks", "discharged",
                          "trivial", "unknown", "concretised")}
    solver_s = 0.0
    funcs, lines, notes, samples, bounds = set(), {}, [], [], {}
    complete = True
    cov = {}
    for r in res:
        key = r["scenario"] + "(" + r["param"] + ")"
        if "crash" in r:
            notes.append(key + ": crash " + r["crash"][-600:])
            complete = False
            continue
        for k in agg:
            agg[k] += r[k]
        solver_s += r["solver_s"]
        funcs |= set(r["functions"])
        for f, ls in r["lines"].items():
            lines.setdefault(f, set()).update(ls)
        if not r["complete"]:
            complete = False
            notes.append(key + ": search cut at %d paths" % r["paths"])
        for x in sorted(set(r["inconclusive"]))[:4]:
            notes.append(key + ": inconclusive " + x)
        for x in r["unrepro"][:3]:
            notes.append(key + ": solver counterexample not reproduced: " + json.dumps(x)[:1200])
        for x in r["val_issues"][:2]:
            notes.append(key + ": validation " + x)
        if r["unknown_labels"]:
            notes.append(key + ": solver unknown on " + ", ".join(r["unknown_labels"]))
        cov.setdefault(r["scenario"], set()).update(r["covered"])
        samples += r["samples"][:1]
        for h in r["known"]:
            if (r["scenario"], h) not in hits:
                hits.append((r["scenario"], h))
        for v in r["violations"]:
            viol.append((r, v))
        if a.v:
            print("%-60s paths %4d ok %4d inf %3d val %3d skip %2d q %5d t %.1fs solver %.1fs chk %d/%d triv %d unk %d %s" % (
                key, r["paths"], r["ok"], r["infeasible"], r["validated"], r["skipped"], r["queries"], r["wall"], r["solver_s"],
                r["discharged"], r["checks"], r["trivial"], r["unknown"], "" if r["complete"] else "CUT"))
    vac = []
    for sc, _ in jobs:
        bounds[sc["name"]] = sc["bounds"]
        miss = [c for c in sc["require"] if c not in cov.get(sc["name"], ())]
        if miss and not any(v[0]["scenario"] == sc["name"] for v in viol):
            m = sc["name"] + ": not reached: " + ", ".join(miss)
            if m not in vac:
                vac.append(m)
    notes += ["vacuity: " + m for m in vac]
    for k in kn:
        if (k["scenario"], k["label"]) in hits:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    evd = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evd, "replay"), exist_ok=True)
    seen = set()
    code = 0
    for r, v in viol:
        kk = (r["scenario"], v["label"])
        if kk in seen:
            continue
        seen.add(kk)
        path = os.path.join(evd, "replay", "%s-%d.json" % (a.prop, len(seen)))
        with open(path, "w") as f:
            json.dump(dict(property=a.prop, scenario=r["scenario"], param=r["param"], label=v["label"], info=v["info"],
                           model=v["model"], seed=seed), f, indent=1)
        print("%s: scenario %s(%s): %s" % (a.prop, r["scenario"], r["param"], v["label"]))
        if v["info"]:
            print("   " + v["info"].replace("\n", "\n   ")[-1200:])
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        code = 1
    wall = time.time() - t0
    ev = dict(property=a.prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=seed, level="model_checking",
              coverage=dict(
                  states=agg["paths"], transitions=agg["branches"], traces_validated_against_impl=agg["validated"],
                  samples=samples[:12] or ["none"], exhaustive=bool(complete and not notes),
                  explanation="states = feasible symbolic paths of the real code explored to the end; transitions = symbolic branch "
                              "decisions taken by the solver; each path covers all values satisfying its path condition",
                  functions_encoded=sorted(funcs), scenarios=sorted(set(sc["name"] for sc, _ in jobs)), jobs=len(jobs),
                  bounds=bounds, solver_queries=agg["queries"], solver_seconds=round(solver_s, 2),
                  assertions=agg["checks"], assertions_discharged_by_solver=agg["discharged"],
                  assertions_closed_by_simplification=agg["trivial"], assertions_undecided=agg["unknown"],
                  infeasible_paths=agg["infeasible"], concretisations=agg["concretised"],
                  replays_skipped_by_rounding=agg["skipped"], witnesses={k: sorted(v) for k, v in cov.items()},
                  notes=notes),
              assumptions=["real arithmetic for floating point", "library contracts of symx/sot.py and symx/env.py"],
              wall_s=round(wall, 2), violations=len(seen))
    if not a.no_evidence:
        with open(os.path.join(evd, a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if a.lines:
        with open(os.path.join(evd, a.prop + ".lines.json"), "w") as f:
            json.dump({k: sorted(v) for k, v in lines.items()}, f)
    print("%s %s: %d jobs, %d paths, %d queries, %d/%d assertions by solver (+%d trivial), %d undecided, %d validated, %.1fs (solver %.1fs)%s"
          % (a.prop, a.tier, len(jobs), agg["paths"], agg["queries"], agg["discharged"], agg["checks"], agg["trivial"], agg["unknown"],
             agg["validated"], wall, solver_s, "" if complete else " INCOMPLETE"))
    for n in notes[:60 if a.v else 12]:
        print("  note:", n)
    return code


if __name__ == "__main__":
    sys.exit(main())
