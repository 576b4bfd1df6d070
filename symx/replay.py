"""Concrete re-run of a harness on the unmodified code.

python -m symx.replay evidence/replays/C01-1.json
"""

import importlib
import json
import os
import re
import sys
import tempfile
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
SRC = os.path.join(REPO, "hypothesis-python", "src")


def run_one(mod, job):
    from symx.api import AssumptionFailed, ConcreteEnv, Unavailable, Violation

    obs = {o.name: o for o in mod.OBLIGATIONS}
    ob = obs.get(job["ob"])
    if ob is None:
        return dict(outcome="unavailable", detail="no such obligation")
    env = ConcreteEnv(job["values"])
    try:
        ob.fn(env, **ob.params)
    except Violation as e:
        return dict(outcome="violation", detail=str(e))
    except AssumptionFailed:
        return dict(outcome="assumption", detail="left the assumptions", reached=env.reached)
    except Unavailable as e:
        return dict(outcome="unavailable", detail=str(e))
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        if tb and os.path.dirname(tb[-1].filename) == os.path.join(VERIF, "checks") and (
            isinstance(e, AttributeError)
            or (isinstance(e, TypeError) and re.search(r"keyword argument|positional argument|abstract (class|method)", str(e)))
        ):
            # the harness itself no longer fits the code it drives
            return dict(outcome="unavailable", detail=f"{type(e).__name__}: {e}")
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in tb[-3:])
        return dict(outcome="exception", detail=f"{type(e).__name__}: {e} @ {where}")
    return dict(outcome="ok", detail="", reached=env.reached, checks=env.nchecks)


def main():
    sys.path[:] = [p for p in sys.path if p not in (SRC, VERIF, "")]
    sys.path.insert(0, SRC)
    sys.path.insert(1, VERIF)
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(10000)
    os.environ.setdefault("HYPOTHESIS_STORAGE_DIRECTORY", tempfile.mkdtemp(prefix="symx-r-"))
    os.environ.setdefault("SYMX_SCRATCH", tempfile.gettempdir())
    if sys.argv[1] == "--batch":
        spec = json.load(open(sys.argv[2]))
        mod = importlib.import_module("checks." + spec["property"].lower())
        with open(sys.argv[3], "w") as f:
            for job in spec["jobs"]:
                f.write(json.dumps(run_one(mod, job)) + "\n")
                f.flush()
        return 0
    spec = json.load(open(sys.argv[1]))
    mod = importlib.import_module("checks." + spec["property"].lower())
    out = run_one(mod, dict(ob=spec["obligation"], values=spec["values"]))
    print(json.dumps(out, indent=1))
    return 1 if out["outcome"] in ("violation", "exception") else 0


if __name__ == "__main__":
    sys.exit(main())
