"""Runs the scenarios of a property: depth-first symbolic exploration of the real
code, solver verdicts per assertion, concrete replay of every counterexample and
of one model per finished path."""
import json
import multiprocessing as mp
import os
import random
import re
import sys
import time
import traceback
from multiprocessing.connection import wait
from . import core, world, load
from .world import EnvGap, Candidate, CheckFailed, Skip
from .core import Control, PathInfeasible, PathBudget, SolverUnknown, Unsupported

SYMX = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(SYMX)
SCENARIOS = {}


def scenario(prop, name, params=((),), tier="quick", bounds="", budget=60.0, max_paths=4000, timeout_ms=15000,
             validate=40, require=()):
    """register f(W, *param) as a scenario of `prop`"""
    props = [prop] if isinstance(prop, str) else list(prop)

    def deco(f):
        for p in props:
            SCENARIOS.setdefault(p, []).append(dict(prop=p, name=name, f=f, params=list(params), tier=tier, bounds=bounds,
                                                    budget=budget, max_paths=max_paths, timeout_ms=timeout_ms,
                                                    validate=validate, require=tuple(require)))
        return f
    return deco


def ptag(p):
    return ",".join(str(x) for x in (p if isinstance(p, tuple) else (p,)))


class Ctx:
    def __init__(self):
        self.unknown = []

    def note_unknown(self, label):
        self.unknown.append(label)


def code_frames(e):
    tb = traceback.extract_tb(e.__traceback__)
    repo = os.path.join(load.REPO, "otpod") + os.sep
    inrepo = [f for f in tb if f.filename.startswith(repo)]
    return tb, inrepo


_SIG = re.compile(r"unexpected keyword argument|positional argument|required keyword|got multiple values")


def classify(e):
    """'code' when the exception comes from otpod (or a library it called), 'harness' otherwise"""
    tb, inrepo = code_frames(e)
    if not inrepo:
        return "harness"
    last = tb[-1]
    if last.filename.startswith(SYMX) and not getattr(e, "_sx_ok", False):
        return "harness"
    if isinstance(e, TypeError) and _SIG.search(str(e)):
        name = str(e).split("(")[0].split(".")[0]
        from . import env, env2
        if hasattr(env, name) or hasattr(env2, name):
            return "harness"
    return "code"


def run_concrete(sc, param, model, seed=1, known=()):
    """-> (status, label, info); status: ok | fail | skip | gap | harness"""
    core.activate(None)
    W = world.ConWorld(snap(model), seed)
    W.known = known
    W.known_hit = []
    try:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import numpy as np
            with np.errstate(all="ignore"):
                sc["f"](W, *(param if isinstance(param, tuple) else (param,)))
    except CheckFailed as e:
        if W.gaps:
            return "gap", W.gaps[-1], "", W
        return "fail", e.label, e.info, W
    except Skip:
        return "skip", "", "", W
    except (EnvGap, Unsupported) as e:
        return "gap", str(e), "", W
    except Control as e:
        return "gap", repr(e), "", W
    except RecursionError as e:
        return "fail", "exception:RecursionError", str(e), W
    except Exception as e:
        if W.gaps:
            return "gap", W.gaps[-1], "", W
        if classify(e) == "harness":
            return "harness", "%s: %s" % (type(e).__name__, e), traceback.format_exc()[-1500:], W
        return "fail", "exception:%s" % type(e).__name__, "%s\n%s" % (e, "".join(traceback.format_tb(e.__traceback__)[-4:])), W
    return "ok", "", "", W


def snap(model):
    """numerically fragile inputs (tiny values, near ties) are made exact"""
    vals = dict(model["inputs"])
    done = []
    for n, v in vals.items():
        if isinstance(v, float):
            if abs(v) < 1e-6:
                v = 0.0
            for w in done:
                if v != w and abs(v - w) < 1e-6:
                    v = w
                    break
            done.append(v)
            vals[n] = v
    return {"inputs": vals, "ufs": model["ufs"]}


def perturb(model, rng, k):
    m = {"inputs": dict(model["inputs"]), "ufs": model["ufs"]}
    for n, v in m["inputs"].items():
        if isinstance(v, float):
            if k % 3 == 0:
                v = v + rng.uniform(-0.2, 0.2)
            elif k % 3 == 1:
                if rng.random() < 0.5:
                    v = v + rng.uniform(-2, 2)
            else:
                v = rng.uniform(-4, 4) if rng.random() < 0.5 else v
            m["inputs"][n] = round(v * 1024) / 1024.0
    if k % 2:
        m["ufs"] = {}
    return m


FUNCS = {}


def start_monitor(lines=False):
    mon = sys.monitoring
    try:
        mon.use_tool_id(4, "symx")
    except ValueError:
        return
    repo = os.path.join(load.REPO, "otpod") + os.sep

    def on_start(code, off):
        fn = code.co_filename
        if fn.startswith(repo) and code.co_name not in ("<module>", "<lambda>"):
            FUNCS.setdefault(os.path.basename(fn) + ":" + code.co_qualname, set())
        return mon.DISABLE

    def on_line(code, line):
        fn = code.co_filename
        if fn.startswith(repo):
            FUNCS.setdefault("L:" + os.path.basename(fn), set()).add(line)
        return mon.DISABLE
    mon.register_callback(4, mon.events.PY_START, on_start)
    ev = mon.events.PY_START
    if lines:
        mon.register_callback(4, mon.events.LINE, on_line)
        ev |= mon.events.LINE
    mon.set_events(4, ev)


def run_job(sc, param, tier, seed, known, deadline, verbose=False):
    t0 = time.time()
    ctx = Ctx()
    eng = core.Engine(timeout_ms=sc["timeout_ms"], max_paths=sc["max_paths"], deadline=deadline)
    res = dict(scenario=sc["name"], param=ptag(param), paths=0, ok=0, infeasible=0, inconclusive=[], violations=[], known=[],
               validated=0, skipped=0, complete=False, covered=set(), samples=[], val_issues=[], unrepro=[])
    rng = random.Random(seed)
    labels = set()
    vtime, vmax = 0.0, 0.15 * max(1.0, deadline - t0)
    while True:
        if time.time() > deadline or res["paths"] >= sc["max_paths"]:
            break
        eng._reset_path()
        core.activate(eng)
        W = world.SymWorld(eng, ctx)
        W.known = known
        W.known_hit = []
        status, cand = "ok", None
        nunk = len(ctx.unknown)
        try:
            sc["f"](W, *(param if isinstance(param, tuple) else (param,)))
        except Candidate as e:
            status, cand = "cand", (e.label, e.models, e.info)
        except PathInfeasible:
            status = "infeasible"
        except PathBudget as e:
            status = "budget"
            if "deadline" in str(e):
                break
        except SolverUnknown:
            status = "unknown"
        except (Unsupported, EnvGap) as e:
            status = "unsupported"
            why = str(e)
            if os.environ.get("SYMX_TRACE"):
                traceback.print_exc()
        except Control as e:
            status, why = "unsupported", repr(e)
        except Exception as e:
            if W.gaps:
                status, why = "unsupported", W.gaps[-1]
            else:
                status = "cand"
                if os.environ.get("SYMX_TRACE"):
                    traceback.print_exc()
                try:
                    # a decision may have been over-approximated: require a model
                    ms = W.models_for(core.z3.BoolVal(True), 3)
                except Control:
                    ms = []
                cand = ("exception:%s" % type(e).__name__, ms, "%s: %s\n%s" % (type(e).__name__, e, "".join(
                    traceback.format_tb(e.__traceback__)[-3:])))
        if status == "infeasible":
            res["infeasible"] += 1
            if not eng.next_path():
                res["complete"] = True
                break
            continue
        res["paths"] += 1
        eng.stats.paths += 1
        vacuous = False
        for h in W.known_hit:
            if h not in res["known"]:
                res["known"].append(h)
        try:
            model = None
            if status == "cand":
                models = [m for m in cand[1] if m]
                hit = None
                outcomes = []
                for m in models:
                    st, lab, info, cw = run_concrete(sc, param, m, seed, known)
                    outcomes.append((st, lab, info[-300:]))
                    if st == "fail":
                        hit = (m, lab, info)
                        break
                if hit is None and models:
                    for k in range(24):
                        m = perturb(models[k % len(models)], rng, k)
                        st, lab, info, cw = run_concrete(sc, param, m, seed, known)
                        if st == "fail":
                            hit = (m, lab, info)
                            break
                if hit is not None:
                    if hit[1] not in labels:
                        labels.add(hit[1])
                        res["violations"].append(dict(label=hit[1], info=str(hit[2])[-2500:], model=hit[0], sym_label=cand[0]))
                    if len(labels) >= 3:
                        break
                else:
                    res["unrepro"].append(dict(label=cand[0], info=str(cand[2])[-800:], outcomes=outcomes[:3], nmodels=len(models)))
            else:
                if status == "ok":
                    res["ok"] += 1
                else:
                    res["inconclusive"].append("%s: %s" % (status, why if status == "unsupported" else ""))
                if (res["validated"] + res["skipped"] < sc["validate"] or status != "ok" or len(ctx.unknown) > nunk) and \
                        (vtime < vmax or not res["validated"] and vtime < 2 * vmax):
                    tv = time.time()
                    core.activate(eng)
                    eng.deadline = max(deadline, time.time() + 5)
                    eng.inconsistent = False
                    model = W.path_model()
                    vacuous = model is None and eng.inconsistent
                    eng.deadline = deadline
                    vtime += time.time() - tv
                if model is not None:
                    tries = [model]
                    if status != "ok" or len(ctx.unknown) > nunk:
                        tries += [perturb(model, rng, k) for k in range(10)]
                    for m in tries:
                        st, lab, info, cw = run_concrete(sc, param, m, seed, known)
                        for h in cw.known_hit:
                            if h not in res["known"]:
                                res["known"].append(h)
                        if st == "ok":
                            res["validated"] += 1
                            if len(res["samples"]) < 2:
                                res["samples"].append(dict(scenario=sc["name"], param=ptag(param), inputs={
                                    k: v for k, v in list(m["inputs"].items())[:12]}, checks=cw.checked))
                        elif st == "skip":
                            res["skipped"] += 1
                        elif st == "fail":
                            if lab not in labels:
                                labels.add(lab)
                                res["violations"].append(dict(label=lab, info=str(info)[-2500:], model=m, sym_label="(concrete validation)"))
                        else:
                            res["val_issues"].append("%s: %s %s" % (st, lab, info[-600:]))
        except Control as e:
            res["inconclusive"].append("post: %r" % e)
        if vacuous:                       # over-approximated decisions led to an impossible path
            res["infeasible"] += 1
            res["ok"] -= status == "ok"
        else:
            res["covered"] |= W.covered
        if not eng.next_path():
            res["complete"] = True
            break
    core.activate(None)
    s = eng.stats
    res.update(queries=s.queries, solver_s=s.solver_s, branches=s.branches, checks=s.checks, discharged=s.discharged,
               trivial=s.trivial, unknown=s.unknown, concretised=s.concretised, wall=time.time() - t0,
               unknown_labels=sorted(set(ctx.unknown)))
    res["covered"] = sorted(res["covered"])
    res["functions"] = sorted(k for k in FUNCS if not k.startswith("L:"))
    res["lines"] = {k[2:]: sorted(v) for k, v in FUNCS.items() if k.startswith("L:")}
    return res


def _child(conn, sc, param, tier, seed, known, budget, lines, mem):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        sys.setrecursionlimit(20000)
        import warnings
        warnings.simplefilter("ignore")
        import numpy
        numpy.seterr(all="ignore")
        import openturns
        openturns.Log.Show(openturns.Log.NONE)
        start_monitor(lines)
        r = run_job(sc, param, tier, seed, known, time.time() + budget)
    except BaseException as e:
        r = dict(scenario=sc["name"], param=ptag(param), crash="%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-2000:]))
    conn.send(r)
    conn.close()


def run_all(jobs, tier, seed, known, scale=1.0, lines=False, ncpu=None, quiet=True):
    ncpu = ncpu or max(1, min(8, os.cpu_count() or 1))
    mem = 6 * 2 ** 30
    todo = list(jobs)
    todo.sort(key=lambda j: -j[0]["budget"])
    live = {}
    out = []
    ctx = mp.get_context("fork")
    while todo or live:
        while todo and len(live) < ncpu:
            sc, param = todo.pop(0)
            a, b = ctx.Pipe(duplex=False)
            bud = sc["budget"] * scale
            p = ctx.Process(target=_child, args=(b, sc, param, tier, seed, known.get(sc["name"], ()), bud, lines, mem))
            p.start()
            b.close()
            live[a] = (p, sc, param, time.time() + bud + 60)
        ready = wait(list(live), timeout=1.0)
        for a in ready:
            p, sc, param, _ = live.pop(a)
            try:
                out.append(a.recv())
            except EOFError:
                out.append(dict(scenario=sc["name"], param=ptag(param), crash="worker died"))
            a.close()
            p.join(5)
        now = time.time()
        for a in list(live):
            p, sc, param, dl = live[a]
            if now > dl:
                p.kill()
                live.pop(a)
                a.close()
                out.append(dict(scenario=sc["name"], param=ptag(param), crash="hard timeout"))
    return out
