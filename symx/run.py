"""python -m symx.run C01: decide one property from /repo's current source.

Obligations run in forked worker processes.  A counterexample is written to a
replay file and re-run concretely, on the unmodified code, in a fresh process;
only what reproduces there is reported.
"""

import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
SRC = os.path.join(REPO, "hypothesis-python", "src")
NPROC = int(os.environ.get("SYMX_PROCS", "8"))
HARD_WALL = {"quick": 600, "thorough": 860}


def setup_paths():
    sys.path[:] = [p for p in sys.path if p not in (SRC, VERIF)]
    sys.path.insert(0, SRC)
    sys.path.insert(1, VERIF)
    sys.dont_write_bytecode = True


# --------------------------------------------------------------------------
# one obligation, in a worker


class Functions:
    """Which functions of the code under test were executed symbolically."""

    def __init__(self):
        self.seen = set()
        m = sys.monitoring
        self.tool = 3
        m.use_tool_id(self.tool, "symx")
        m.register_callback(self.tool, m.events.PY_START, self.cb)
        m.set_events(self.tool, m.events.PY_START)

    def cb(self, code, off):
        fn = code.co_filename
        if fn.startswith(SRC):
            self.seen.add(fn[len(SRC) + 1 :] + ":" + code.co_qualname)
        return sys.monitoring.DISABLE

    def close(self):
        sys.monitoring.set_events(self.tool, 0)
        sys.monitoring.free_tool_id(self.tool)


def explore(ob, budget, seed):
    import z3

    from . import core
    from .api import Unavailable, input_values, sym_env_class

    start = time.time()
    eng = core.Engine(deadline=start + budget, opts=ob.opts)
    core.ENGINE = eng
    env = sym_env_class()(eng)
    fns = Functions()
    res = dict(
        name=ob.name, params={k: repr(v)[:80] for k, v in ob.params.items()},
        status="exhausted", notes=[], samples=[], candidates=[],
    )
    exc_seen = {}
    cut_seen = {}
    next_sample = 1
    nsamples = ob.opts.get("samples", 6)
    sys.setrecursionlimit(20000)

    def model_values():
        if eng.model is None:
            if eng._check() != z3.sat:
                return None
        return input_values(eng, eng.model)

    try:
        while True:
            eng.start_path()
            completed = False
            try:
                try:
                    ob.fn(env, **ob.params)
                    completed = True
                except core.EngineSignal:
                    raise
                except Unavailable:
                    raise
                except (KeyboardInterrupt, MemoryError):
                    raise
                except RecursionError:
                    if eng.pending is not None:
                        raise eng.pending
                    raise core.Cut("recursion limit")
                except BaseException as e:
                    if eng.pending is not None:
                        raise eng.pending
                    k = type(e).__name__ + ": " + str(e)[:150]
                    tb = traceback.extract_tb(e.__traceback__)
                    where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:])
                    k2 = k + " @ " + where
                    n = exc_seen.get(k2, 0)
                    exc_seen[k2] = n + 1
                    eng.stats.unsupported += 1
                    if n < 2 and len(res["candidates"]) < 12:
                        vals = model_values()
                        if vals is not None:
                            res["candidates"].append(
                                dict(kind="exception", exc=type(e).__name__, msg=k2, values=vals)
                            )
                if eng.pending is not None:
                    raise eng.pending
                eng.stats.paths += 1
                if completed and len(res["samples"]) < nsamples and eng.stats.paths >= next_sample:
                    next_sample = eng.stats.paths * 2
                    vals = model_values()
                    if vals is not None:
                        res["samples"].append(vals)
            except core.PathDead:
                pass
            except core.Cut as c:
                eng.stats.cuts += 1
                cut_seen[str(c.why)] = cut_seen.get(str(c.why), 0) + 1
            except core.CheckFailed as c:
                eng.stats.paths += 1
                vals = input_values(eng, eng.model)
                ab = eng.abstracted
                res["candidates"].append(dict(kind="check", msg=c.msg, values=vals, abstracted=ab))
                if not ab or len(res["candidates"]) >= 8:
                    res["status"] = "counterexample"
                    break
                eng.stats.checks_inconclusive += 1
            if not eng._backtrack():
                break
            if time.time() > eng.deadline:
                raise core.OutOfBudget()
    except core.OutOfBudget:
        res["status"] = "budget"
    except core.NonDet as e:
        res["status"] = "nondeterministic"
        res["notes"].append(str(e))
    except Unavailable as e:
        res["status"] = "unavailable"
        res["notes"].append(str(e))
    fns.close()
    res["stats"] = eng.stats.as_dict()
    res["reached"] = eng.reached
    res["exceptions"] = exc_seen
    res["cut_reasons"] = cut_seen
    res["functions"] = sorted(fns.seen)
    res["wall_s"] = round(time.time() - start, 2)
    return res


def worker(ob, budget, seed, conn):
    try:
        # a soft memory cap so that one obligation cannot starve the others
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        if os.environ.get("SYMX_DEBUG") is None:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
        r = explore(ob, budget, seed)
    except BaseException as e:
        r = dict(
            name=ob.name, status="error", notes=[type(e).__name__ + ": " + str(e), traceback.format_exc()],
            samples=[], candidates=[], stats={}, reached={}, exceptions={}, cut_reasons={}, functions=[],
            wall_s=0, params={},
        )
    conn.send(r)
    conn.close()
    os._exit(0)


def run_all(obs, tier, seed, wall):
    """Run obligations in forked processes, at most NPROC at a time."""
    ctx = mp.get_context("fork")
    queue = sorted(range(len(obs)), key=lambda i: -obs[i].weight)
    running = {}
    results = {}
    start = time.time()

    def budget_of(i):
        return obs[i].budget if tier == "quick" else obs[i].thorough

    while queue or running:
        while queue and len(running) < NPROC:
            i = queue.pop(0)
            ob = obs[i]
            # most obligations finish well within their budget: plan for a third of what is queued
            left = max(2.0, wall + start - time.time())
            rest = sum(budget_of(j) for j in queue) / 3
            b = min(budget_of(i), left, max(5.0, (left * NPROC) * budget_of(i) / (budget_of(i) + rest)))
            a, c = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(ob, b, seed, c))
            p.start()
            c.close()
            running[i] = (p, a, time.time() + b + 40)
        done = mp.connection.wait([r[1] for r in running.values()], timeout=1.0)
        for i, (p, a, dl) in list(running.items()):
            r = None
            if a in done:
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(status="died", notes=["worker ended without an answer"])
            elif time.time() > dl:
                p.kill()
                r = dict(status="budget", notes=["stopped at the hard limit"])
            if r is not None:
                p.join(5)
                for k, v in dict(
                    name=obs[i].name, params={}, samples=[], candidates=[], stats={}, reached={},
                    exceptions={}, cut_reasons={}, functions=[], notes=[], wall_s=0,
                ).items():
                    r.setdefault(k, v)
                results[i] = r
                del running[i]
    return [results[i] for i in range(len(obs))]


# --------------------------------------------------------------------------


def concrete_replays(prop, jobs, timeout=400):
    """Run (obligation, values) pairs concretely on the unmodified code."""
    if not jobs:
        return []
    d = tempfile.mkdtemp(prefix="symx-replay-")
    try:
        with open(os.path.join(d, "jobs.json"), "w") as f:
            json.dump(dict(property=prop, jobs=jobs), f)
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
                   HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(d, "hyp"))
        subprocess.run(
            [sys.executable, "-m", "symx.replay", "--batch", os.path.join(d, "jobs.json"), os.path.join(d, "out.jsonl")],
            cwd=VERIF, env=env, timeout=timeout, stdout=subprocess.DEVNULL,
            stderr=None if os.environ.get("SYMX_DEBUG") else subprocess.DEVNULL,
        )
    except subprocess.TimeoutExpired:
        pass
    out = []
    try:
        with open(os.path.join(d, "out.jsonl")) as f:
            out = [json.loads(l) for l in f]
    except (FileNotFoundError, ValueError):
        pass
    finally:
        shutil.rmtree(d, ignore_errors=True)
    while len(out) < len(jobs):
        out.append(dict(outcome="no answer", detail=""))
    return out


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    args = sys.argv[2:]
    only = None
    if "--thorough" in args:
        tier = "thorough"
    if "--only" in args:
        only = args[args.index("--only") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
        os.execv(sys.executable, [sys.executable, "-m", "symx.run", *sys.argv[1:]])
    random.seed(seed)
    setup_paths()
    tmp = tempfile.mkdtemp(prefix="symx-")
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(tmp, "hyp")
    os.environ["SYMX_SCRATCH"] = tmp
    try:
        return main2(prop, tier, seed, only, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main2(prop, tier, seed, only, t0):
    from . import rewrite

    rewrite.install()
    from . import core  # noqa

    notes = []
    try:
        mod = importlib.import_module("checks." + prop.lower())
    except Exception:
        traceback.print_exc()
        print(f"ERROR: property={prop}: the check could not load the code under test")
        return 2
    obs = [
        o for o in mod.OBLIGATIONS
        if (tier == "thorough" or o.tier == "quick") and not (tier == "thorough" and o.only == "quick")
    ]
    if only:
        obs = [o for o in obs if only in o.name]
    by_name = {o.name: o for o in mod.OBLIGATIONS}
    assert len(by_name) == len(mod.OBLIGATIONS), "duplicate obligation names"
    wall = getattr(mod, "WALL", {}).get(tier, HARD_WALL[tier] - 150)
    results = run_all(obs, tier, seed, wall)

    # concrete confirmation of counterexamples, and of sampled paths
    jobs, meta = [], []
    for r in results:
        for c in r["candidates"]:
            jobs.append(dict(ob=r["name"], values=c["values"]))
            meta.append(("cand", r, c))
    for r in results:
        for s in r["samples"]:
            jobs.append(dict(ob=r["name"], values=s))
            meta.append(("sample", r, s))
    outs = concrete_replays(prop, jobs)
    known = load_known(prop)
    known_hit = {}
    violations, spurious, validated, mismatched = [], [], 0, []
    for (kind, r, c), job, out in zip(meta, jobs, outs):
        bad = out["outcome"] in ("violation", "exception")
        if kind == "sample":
            if bad:
                mismatched.append((r["name"], out, c))
                violations.append((r, dict(kind="sample", msg=out["detail"], values=c), out))
            elif out["outcome"] == "ok":
                validated += 1
            continue
        if bad:
            k = next((k for k in known if k["obligation"] == r["name"] and k["detail"] in out["detail"]), None)
            if k is not None:
                known_hit[k["id"]] = k
            else:
                violations.append((r, c, out))
        else:
            spurious.append((r, c, out))
            r["notes"].append(f"not reproduced: {c['kind']} {c['msg']} -> {out['outcome']} {out.get('detail','')}")

    # listed findings are re-demonstrated concretely on every run
    if known:
        fj = [dict(ob=k["obligation"], values=k["values"]) for k in known]
        for k, out in zip(known, concrete_replays(prop, fj)):
            if out["outcome"] in ("violation", "exception"):
                known_hit[k["id"]] = k
    for k in known_hit.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")

    rc = 0
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(rdir, f))
    seen = set()
    for n, (r, c, out) in enumerate(violations):
        if r["name"] in seen:
            continue
        seen.add(r["name"])
        path = os.path.join(rdir, f"{prop}-{len(seen)}.json")
        with open(path, "w") as f:
            json.dump(
                dict(property=prop, obligation=r["name"], values=c["values"], message=c["msg"],
                     reproduced=out, how="python3-vt -m symx.replay <this file>  (in /verif)"),
                f, indent=1,
            )
        print(f"VIOLATION property={prop} replay={os.path.relpath(path, VERIF)}")
        print(f"  obligation {r['name']}: {out['detail']}")
        rc = 1
    # a counterexample to an over-approximation that does not reproduce refutes the abstraction, not
    # the code (inconclusive); one found by the exact encoding must reproduce
    hard_spurious = [s for s in spurious if s[1]["kind"] == "check" and not s[1].get("abstracted")]
    for r, c, out in spurious:
        print(f"NOT REPRODUCED: {r['name']}: {c['kind']} {c['msg']} {str(c['values'])[:400]} -> {out}")
    if rc == 0 and hard_spurious:
        # neither a violation nor a confirmation: the encoding disagrees with the code on that input
        print(f"INCONCLUSIVE: property={prop}: {len(hard_spurious)} counterexample(s) did not reproduce on the real code")
        if os.environ.get("SYMX_VERBOSE"):
            rc = 2
    errs = [r for r in results if r["status"] in ("error", "nondeterministic", "died")]
    for r in errs:
        print("INCONCLUSIVE:", r["name"], r["status"], *r["notes"][:2])
    write_evidence(mod, prop, tier, seed, obs, results, validated, mismatched, violations, spurious, known_hit, t0)
    ex = sum(r["status"] == "exhausted" for r in results)
    q = sum(r["stats"].get("queries", 0) for r in results)
    print(
        f"{prop} [{tier}] obligations={len(results)} exhausted={ex} "
        f"budget={sum(r['status'] == 'budget' for r in results)} "
        f"paths={sum(r['stats'].get('paths', 0) for r in results)} queries={q} "
        f"checks={sum(r['stats'].get('checks', 0) for r in results)} "
        f"validated={validated} violations={len(seen)} wall={time.time() - t0:.1f}s"
    )
    if os.environ.get("SYMX_VERBOSE"):
        for r in results:
            print("  ", r["name"], r["status"], f"{r['wall_s']}s", {k: v for k, v in r["stats"].items() if v}, r["reached"], r["exceptions"] or "", r["cut_reasons"] or "", *(r["notes"] or [""]))
    return rc


def write_evidence(mod, prop, tier, seed, obs, results, validated, mismatched, violations, spurious, known_hit, t0):
    tot = {}
    for r in results:
        for k, v in r["stats"].items():
            tot[k] = round(tot.get(k, 0) + v, 3)
    funcs = sorted({f for r in results for f in r["functions"]})
    reached = {}
    for r in results:
        for k, v in r["reached"].items():
            reached[k] = reached.get(k, 0) + v
    vac = [r["name"] for r in results if r["status"] == "exhausted" and not r["stats"].get("checks") and not r["stats"].get("paths")]
    coverage = dict(
        states=int(tot.get("paths", 0)),
        transitions=int(tot.get("branches", 0)),
        traces_validated_against_impl=validated,
        samples=[dict(obligation=r["name"], inputs=_short(s)) for r in results for s in r["samples"][:1]][:12],
        exhaustive=all(r["status"] == "exhausted" and not r["stats"].get("cuts") and not r["stats"].get("unknown") and not r["exceptions"] for r in results),
        queries=int(tot.get("queries", 0)),
        queries_unsat=int(tot.get("unsat", 0)),
        queries_sat=int(tot.get("sat", 0)),
        queries_unknown=int(tot.get("unknown", 0)),
        solver_s=tot.get("solver_s", 0),
        assertions_checked=int(tot.get("checks", 0)),
        assertions_discharged=int(tot.get("checks_discharged", 0)),
        assertions_inconclusive=int(tot.get("checks_inconclusive", 0)),
        obligations=[
            dict(
                name=r["name"], params=r["params"], verdict=verdict(r), paths=r["stats"].get("paths", 0),
                queries=r["stats"].get("queries", 0), assertions=r["stats"].get("checks", 0),
                solver_s=r["stats"].get("solver_s", 0), cuts=r["cut_reasons"], unsupported=r["exceptions"],
                notes=r["notes"][:3], wall_s=r["wall_s"],
            )
            for r in results
        ],
        reachability_witnesses=reached,
        vacuous_obligations=vac,
        functions_encoded=funcs,
        bounds=getattr(mod, "BOUNDS", ""),
        outside_the_claim=getattr(mod, "OUTSIDE", ""),
        not_reproduced=[dict(obligation=r["name"], msg=c["msg"]) for r, c, o in spurious],
        known_findings=sorted(known_hit),
        solver="z3 " + _z3v(),
    )
    ev = dict(
        property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="model_checking",
        coverage=coverage, assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2), violations=len(violations),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


def _z3v():
    import z3

    return z3.get_version_string()


def _short(s):
    return {k: (v if len(str(v)) < 200 else str(v)[:200]) for k, v in list(s.items())[:30]}


def verdict(r):
    st = r["status"]
    if st == "exhausted":
        s = r["stats"]
        if s.get("checks_inconclusive") or s.get("unknown"):
            return "held on everything explored; solver answered unknown on some queries (inconclusive)"
        if r["exceptions"]:
            return "held on supported paths; some paths left the supported fragment (inconclusive)"
        if s.get("cuts"):
            return "holds for every value within the bounds, up to the listed cuts"
        return "holds for every value within the bounds"
    if st == "budget":
        return "held on the part explored before the time budget (inconclusive)"
    if st == "counterexample":
        return "counterexample"
    return st + " (inconclusive)"


if __name__ == "__main__":
    sys.exit(main())
