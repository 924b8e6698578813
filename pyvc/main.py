"""Prove a property: run its contracts and report the obligations."""
import argparse
import importlib
import json
import os
import re
import sys
import time
import traceback

from . import core, expr, prove, shims
from .core import C, Infeasible, Unsupported, explore
from .instrument import DROPPED, World, repo_dir


class Report:
    def __init__(self, seconds):
        self.ob = {}            # (function, name) -> dict
        self.order = []
        self.covers = {}
        self.functions = {}
        self.assumptions = []
        self.end = time.time() + seconds
        self.bounded = []

    def world(self):
        return World(shims.importer, shims.BT)

    def function(self, nm, contract):
        """Put a function under contract (for the evidence)."""
        self.functions[nm] = contract

    def assume_text(self, t):
        if t not in self.assumptions:
            self.assumptions.append(t)

    def add(self, fn, name, result, by="", detail="", cases=()):
        k = (fn, name)
        if k not in self.ob:
            self.ob[k] = {"function": fn, "name": name, "result": "proved",
                          "by": [], "detail": "", "instances": 0,
                          "cases": []}
            self.order.append(k)
        o = self.ob[k]
        o["instances"] += 1
        for b in (by if isinstance(by, (tuple, list, set)) else [by]):
            if b and b not in o["by"]:
                o["by"].append(b)
        rank = {"proved": 0, "unknown": 1, "refuted": 2}
        if rank[result] > rank[o["result"]]:
            o["result"] = result
            o["detail"] = detail[:3000]
        for c in cases:
            if c not in o["cases"] and len(o["cases"]) < 6:
                o["cases"].append(c)

    def prove(self, fn, name, goal, extra=(), seconds=40, cases=(),
              soft=False, witnesses=()):
        """An obligation on the current path."""
        if witnesses:
            g2 = witnessed(goal, witnesses)
            if g2 is not goal:
                pr = prove.Prover(6000, min(seconds, max(
                    1, self.end - time.time())))
                if pr.prove(list(C.pc) + list(extra), g2) == "proved":
                    self.add(fn, name, "proved", sorted(pr.by))
                    return "proved"
        pr = prove.Prover(6000, min(seconds, max(1, self.end - time.time())))
        r = pr.prove(list(C.pc) + list(extra), goal)
        if r == "refuted" and (soft or abstract(list(C.pc) + list(extra)
                                                + [goal])):
            # the model may be one of the abstraction only
            r = "unknown"
        if r != "proved" and os.environ.get("PV_DEBUG"):
            print("OPEN", fn, name, r, pr.detail[:1500], "\n  goal",
                  repr(goal)[:1500], file=sys.stderr)
            print("   path", [repr(f)[:200] for f in C.pc][-25:],
                  file=sys.stderr)
        self.add(fn, name, r, sorted(pr.by), pr.detail, cases if
                 r == "refuted" else ())
        return r

    def fail(self, fn, name, detail, cases=(), soft=False):
        """An obligation that is false on a feasible path."""
        r = prove.solve([g for g in C.pc if not core.heavy(g)], [], 4000)[0]
        if r != "unsat" and any(core.heavy(g) for g in C.pc):
            r = prove.solve(C.pc, [], 4000)[0]
        if r == "unsat":
            self.add(fn, name, "proved", "z3")
            return
        if os.environ.get("PV_DEBUG"):
            print("FAIL", fn, name, detail, file=sys.stderr)
            print("   path", [repr(f)[:200] for f in C.pc], file=sys.stderr)
        if r == "sat" and (soft or abstract(C.pc)):
            r = "unknown"
        self.add(fn, name, "refuted" if r == "sat" else "unknown", "", detail,
                 cases)

    def cover(self, name):
        """This point is reached by a path with consistent facts."""
        if self.covers.get(name):
            return
        r, _ = prove.solve([g for g in C.pc if not core.heavy(g)], [], 2000)
        # unknown (quantified facts): require at least that false is not
        # derivable within the limit
        self.covers[name] = r != "unsat"

    def run(self, body, limit=400):
        """Explore body() along every path."""
        C.oblig.clear()
        n = explore(body, limit)
        for nm, by in C.oblig:
            self.add("loops", nm, "proved", by)
        return n


def witnessed(g, ws):
    """A stronger formula: existentials (in positive positions) by some of the
    given witnesses."""
    if g.kind in ("and", "or"):
        return (expr.AND if g.kind == "and" else expr.OR)(
            *[witnessed(x, ws) for x in g.args])
    if g.kind == "bex":
        lo, hi, v, b = g.args
        t = expr.fresh("bv")
        b = witnessed(expr.subst(b, {v.single(): t}), ws)
        return expr.OR(*[expr.AND(expr.LE(lo, w), expr.LT(w, hi), expr.subst(
            b, {t.single(): w})) for w in ws])
    return g


def abstract(terms):
    """Do the terms speak of rounded operations or of loop states that are
    known by their recurrence only?"""
    seen = set()
    todo = list(terms)
    while todo:
        y = todo.pop()
        if id(y) in seen:
            continue
        seen.add(id(y))
        if isinstance(y, expr.E):
            todo += [a for m in y.terms for a, _ in m]
        elif isinstance(y, (tuple, list)):
            todo += list(y)
        elif isinstance(y, expr.B) or hasattr(y, "kind"):
            if y.kind == "app" and (y.args[0].startswith("fl_") or
                                    re.match(r"L\d+_", y.args[0])):
                return True
            if y.kind == "op" and y.args[0] == "select":
                return True
            todo += list(y.args)
    return False


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    quick = a.tier == "quick"
    seconds = int(os.environ.get("PV_SECONDS", 200 if quick else 2400))
    prove.CROSS = not quick
    t0 = time.time()
    C.reset()
    C.deadline = t0 + seconds
    R = Report(seconds)
    status, why = "proved", ""
    try:
        m = importlib.import_module(f"pyvc.props.{a.id.lower()}")
        m.contracts(R)
    except (Unsupported, Infeasible) as e:
        status = "undecided"
        why = f"{type(e).__name__}: {e} @ {where_(e)}"
    except RecursionError as e:
        status, why = "undecided", "recursion limit"
    except Exception as e:
        status = "undecided"
        why = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-2500:]}"
    obs = [R.ob[k] for k in R.order]
    if status == "proved":
        if not obs:
            status, why = "undecided", "no obligation was generated"
        elif any(o["result"] == "unknown" for o in obs):
            status = "undecided"
            why = "; ".join(f"{o['function']}: {o['name']}: {o['detail']}"
                            for o in obs if o["result"] == "unknown")[:2500]
        dead = [n for n, ok in R.covers.items() if not ok]
        if dead:
            status, why = "undecided", f"not reachable: {dead}"
    if any(o["result"] == "refuted" for o in obs):
        status = "refuted"
    for o in obs:
        o["by"] = "+".join(o["by"])
    by = {}
    for o in obs:
        if o["result"] == "proved":
            by[o["by"] or "path"] = by.get(o["by"] or "path", 0) + 1
    out = {"status": status, "why": why, "obligations": obs,
           "trusted": [f"{k}: {v}" for k, v in sorted(shims.TRUSTED.items())]
           + ["pyvc: rewriter, path explorer, loop summaries and normal forms"
              ] + expr.NORMALISER,
           "functions": [f"{k}: {v}" for k, v in R.functions.items()],
           "back_ends": dict(by, **{k: (round(v, 2) if isinstance(v, float)
                                        else v)
                                    for k, v in prove.STATS.items()}),
           "solver_s": round(prove.STATS["z3_s"], 2),
           "covers": [k for k, ok in R.covers.items() if ok],
           "assumptions": R.assumptions + [
               f"dropped by the extraction: {d}" for d in DROPPED],
           "paths": C.paths, "wall_s": round(time.time() - t0, 2)}
    if a.out:
        with open(a.out, "w") as f:
            json.dump(out, f, indent=1)
    for o in obs:
        print(f"{o['result']:8} {o['function']}: {o['name']} "
              f"[{o['by']}, {o['instances']}]"
              + (f"\n      {o['detail'][:800]}" if o["result"] != "proved"
                 else ""))
    print(a.id, status, f"{len(obs)} obligations, {C.paths} paths, "
          f"{out['wall_s']} s (solver {out['solver_s']} s)", why[:3000])
    return 0


def where_(e):
    tb = e.__traceback__
    out = []
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        out.append(f"{os.path.basename(f)}:{tb.tb_lineno}")
        tb = tb.tb_next
    pv = [x for x in out if x.startswith("<pv")]
    return " > ".join((pv[-2:] if pv else []) + out[-4:])


if __name__ == "__main__":
    sys.exit(main())
