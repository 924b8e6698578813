"""Driver of the run-time contract checks.

run.py ID --tier T --seed S --budget SECONDS --out FILE   explore
run.py --replay FILE                                      re-run one case
"""
import argparse
import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
CASE_LIMIT = 150


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def one(mod, spec):
    """Run a case; returns None or the description of the violation."""
    from rt.common import Broken

    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        mod.check(spec)
        return None
    except Broken as e:
        return str(e)
    except Hang:
        return f"no result within {CASE_LIMIT} s"
    except Exception as e:  # the code raised where the property wants a result
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/properimage/" in f.filename]
        if not where:
            return "HARNESS " + traceback.format_exc()
        return f"raised {type(e).__name__}: {e} at {where[-1].name}"
    finally:
        signal.alarm(0)


def _work(a):
    name, spec = a
    mod = importlib.import_module("rt." + name)
    t = time.time()
    return spec, one(mod, spec), time.time() - t


def main():
    p = argparse.ArgumentParser()
    p.add_argument("id", nargs="?")
    p.add_argument("--tier", default="quick")
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--budget", type=float, default=40)
    p.add_argument("--jobs", type=int, default=8)
    p.add_argument("--out")
    p.add_argument("--hint")
    p.add_argument("--replay")
    a = p.parse_args()
    if a.replay:
        rec = json.load(open(a.replay))
        mod = importlib.import_module("rt." + rec["module"])
        r = one(mod, rec["case"])
        print("case:", json.dumps(rec["case"]))
        print("violation: " + r if r else "the property holds on this case")
        return 1 if r else 0

    name = a.id.lower()
    mod = importlib.import_module("rt." + name)
    import multiprocessing as mp

    t0 = time.time()
    res = {"evaluations": 0, "distinct_nontrivial": 0, "rule": mod.RULE,
           "samples": [], "violations": [], "errors": [], "max_case_s": 0.0}
    seen = set()
    specs = mod.cases(a.seed, a.tier)
    hints = json.load(open(a.hint)) if a.hint else []

    def gen():
        for h in hints:
            yield name, h
        for s in specs:
            if time.time() - t0 > a.budget:
                return
            yield name, s

    ctx = mp.get_context("fork")
    a.jobs = getattr(mod, "JOBS", a.jobs)
    with ctx.Pool(a.jobs) as pool:
        # keep the number of queued cases small so that the budget is obeyed
        it = gen()
        pend = []
        done = False
        while not done or pend:
            while not done and len(pend) < 2 * a.jobs:
                try:
                    pend.append(pool.apply_async(_work, (next(it),)))
                except StopIteration:
                    done = True
            if not pend:
                break
            ready = [r for r in pend if r.ready()]
            if not ready:
                time.sleep(0.005)
                continue
            for r in ready:
                pend.remove(r)
                spec, v, dt = r.get()
                res["evaluations"] += 1
                res["max_case_s"] = max(res["max_case_s"], dt)
                if v and v.startswith("HARNESS"):
                    res["errors"].append({"case": spec, "what": v})
                elif v:
                    res["violations"].append({"case": spec, "what": v})
                key = hashlib.md5(
                    json.dumps(spec, sort_keys=True).encode()).hexdigest()
                if key not in seen:
                    seen.add(key)
                    if getattr(mod, "nontrivial", lambda s: True)(spec):
                        res["distinct_nontrivial"] += 1
                        if len(res["samples"]) < 3:
                            res["samples"].append(spec)
            if len(res["violations"]) >= 12 or len(res["errors"]) >= 5:
                done = True
        pool.terminate()
    res["violations"].sort(key=lambda v: len(json.dumps(v["case"])))
    res["wall_s"] = round(time.time() - t0, 2)
    json.dump(res, open(a.out, "w") if a.out else sys.stdout, indent=1)
    return 0


if __name__ == "__main__":
    sys.exit(main())
