#!/usr/bin/env python3
"""Check one property of quatrope/ProperImage.

check.py ID [--tier quick|thorough]      (VERIF_SEED, VERIF_TIER are honoured)

1. proof stage    pyvc derives the verification conditions of the functions
                  the property depends on from /repo's current source and
                  discharges them (tool interpreter, z3/cvc5)
2. replay stage   the same contracts are evaluated at run time on the real
                  code (repository interpreter), over generated cases and over
                  the cases that a refuted obligation points to

Exit 0: no violation.  Exit 1: `VIOLATION property=ID replay=FILE`, with
`no-failing-input-found` when an obligation is refuted and no failing case was
found.  Exit 3: the checker itself failed.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
RT_PY = "/opt/venv/bin/python"
VT_PY = "/opt/veriftools/pyvenv/bin/python"
REPO = os.environ.get("PV_REPO", "/repo")


def run(cmd, env, limit, log):
    """Run a stage; returns (exit code or None on timeout)."""
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, cwd=HERE, env=env, stdout=f,
                             stderr=subprocess.STDOUT, start_new_session=True)
        try:
            return p.wait(limit)
        except subprocess.TimeoutExpired:
            return None
        finally:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def tail(path, n=2500):
    try:
        with open(path, errors="replace") as f:
            return f.read()[-n:]
    except OSError:
        return ""


def known(pid):
    """The listed findings that were not repaired: (match, text)."""
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            for k in json.load(f):
                if k["property"] == pid and k["status"] == "open":
                    out.append(k)
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("--no-replay", action="store_true")
    a = ap.parse_args()
    pid, tier = a.id.upper(), a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"pv_{pid}_")
    ev_dir = os.path.join(HERE, "evidence")
    rep_dir = os.path.join(ev_dir, "replay")
    os.makedirs(rep_dir, exist_ok=True)
    for f in os.listdir(rep_dir):
        if f.startswith(pid + "-"):
            os.remove(os.path.join(rep_dir, f))
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               MKL_NUM_THREADS="1", PV_SCRATCH=scratch, TMPDIR=scratch,
               MPLCONFIGDIR=os.path.join(scratch, "mpl"),
               HOME=scratch, PYTHONHASHSEED="0", PV_REPO=REPO)
    env.pop("PYTHONPATH", None)
    try:
        code = decide(pid, tier, seed, scratch, env, ev_dir, rep_dir, a, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return code


def decide(pid, tier, seed, scratch, env, ev_dir, rep_dir, a, t0):
    quick = tier == "quick"
    j = os.path.join
    proof = None
    plog, pout = j(scratch, "proof.log"), j(scratch, "proof.json")
    has_proof = os.path.exists(j(HERE, "pyvc", "props", pid.lower() + ".py"))
    if has_proof and not a.no_proof:
        rc = run([VT_PY, "-m", "pyvc.main", pid, "--tier", tier, "--out", pout],
                 env, 240 if quick else 3000, plog)
        proof = load(pout)
        if proof is None:
            proof = {"status": "undecided", "obligations": [],
                     "why": ("time limit of the proof stage" if rc is None
                             else f"prover stopped ({rc}): {tail(plog)}")}
    refuted = [o for o in proof["obligations"] if o["result"] == "refuted"] \
        if proof else []

    rt = None
    rlog, rout = j(scratch, "rt.log"), j(scratch, "rt.json")
    if not a.no_replay:
        cmd = [RT_PY, "rt/run.py", pid, "--seed", str(seed), "--out", rout]
        hints = [h for o in refuted for h in o.get("cases", [])]
        if hints:
            json.dump(hints, open(j(scratch, "hint.json"), "w"))
            cmd += ["--hint", j(scratch, "hint.json")]
        budget = 45 if quick else 900
        rc = run(cmd + ["--tier", tier, "--budget", str(budget)], env,
                 budget + 400, rlog)
        rt = load(rout)
        if rt is None or (rt["errors"] and not rt["violations"]):
            print(f"{pid}: run-time stage failed ({rc})")
            print(tail(rlog))
            if rt:
                print(rt["errors"][0]["what"])
            if not refuted:
                return 3
        open_ = proof is not None and proof["status"] != "proved"
        if rt is not None and open_ and not rt["violations"] and quick:
            # an obligation is not discharged: search deeper for a failing
            # input
            r2 = j(scratch, "rt2.json")
            run([RT_PY, "rt/run.py", pid, "--seed", str(seed + 1000), "--out",
                 r2, "--tier", "thorough", "--budget", "150"], env, 400, rlog)
            d = load(r2)
            if d:
                for k in ("evaluations", "distinct_nontrivial"):
                    rt[k] += d[k]
                rt["violations"] += d["violations"]

    if refuted and not (rt or {}).get("violations"):
        # no failing input: refuted again with more time for each question?
        left = (860 if quick else 3600) - (time.time() - t0)
        p2 = j(scratch, "proof2.json")
        env2 = dict(env, PV_SLOW="3", PV_SECONDS=str(int(left - 25)))
        if left > 60:
            run([VT_PY, "-m", "pyvc.main", pid, "--tier", tier, "--out", p2],
                env2, left, j(scratch, "proof2.log"))
        again = {(o["function"], o["name"]): o for o in (load(p2) or {}).get(
            "obligations", []) if o["result"] == "refuted"}
        for o in refuted:
            if (o["function"], o["name"]) not in again:
                o["result"] = "unknown"
                o["detail"] = "refuted once, not again with more time: " + \
                    o.get("detail", "")
        refuted = [o for o in refuted if o["result"] == "refuted"]
        if not refuted:
            proof["status"] = "undecided"
            proof["why"] = proof.get("why") or "; ".join(
                f"{o['function']}: {o['name']}: {o['detail'][:300]}" for o in
                proof["obligations"] if o["result"] == "unknown")

    out = []
    listed = known(pid)
    seen_known = {}
    fresh = []
    for v in (rt or {}).get("violations", []):
        for k in listed:
            if k["match"] in v["what"] or k["match"] in json.dumps(v["case"]):
                seen_known[k["text"]] = v
                break
        else:
            fresh.append(v)
    for k in listed:
        print(f"KNOWN-FINDING: property={pid} {k['text']}")
    if fresh:
        path = j(rep_dir, f"{pid}-case.json")
        json.dump({"property": pid, "module": pid.lower(),
                   "case": fresh[0]["case"], "what": fresh[0]["what"],
                   "refuted_obligations": [
                       {x: o.get(x) for x in ("name", "function", "detail")}
                       for o in refuted],
                   "how": f"cd /verif && PV_SCRATCH=$(mktemp -d) {RT_PY} "
                          f"rt/run.py --replay {path}",
                   "others": fresh[1:5]}, open(path, "w"), indent=1)
        out.append(f"VIOLATION property={pid} replay={path}")
        print(f"{pid}: {fresh[0]['what']}")
        print(f"{pid}: case {json.dumps(fresh[0]['case'])}")
        for o in refuted[:4]:
            print(f"{pid}: refuted obligation {o['function']}: {o['name']}")
    elif refuted:
        path = j(rep_dir, f"{pid}-obligation.json")
        json.dump({"property": pid, "refuted_obligations": refuted,
                   "verifier_log": tail(plog, 20000),
                   "how": f"cd /verif && {VT_PY} -m pyvc.main {pid}"},
                  open(path, "w"), indent=1)
        for o in refuted[:4]:
            print(f"{pid}: refuted obligation {o['function']}: {o['name']}: "
                  f"{o.get('detail', '')[:600]}")
        out.append(f"VIOLATION property={pid} replay={path} "
                   "no-failing-input-found")

    evidence(pid, tier, seed, proof, rt, refuted, fresh, seen_known, ev_dir,
             t0)
    for line in out:
        print(line)
    if not out:
        n = (rt or {}).get("evaluations", 0)
        msg = f"{pid}: held; {n} run-time evaluations"
        if proof is not None:
            d = sum(o["result"] == "proved" for o in proof["obligations"])
            msg += f"; {d} of {len(proof['obligations'])} obligations discharged"
            if proof["status"] == "undecided":
                msg += f"; proof undecided: {proof.get('why', '')[-1500:]}"
        print(msg)
    return 1 if out else 0


def evidence(pid, tier, seed, proof, rt, refuted, fresh, seen_known, ev_dir,
             t0):
    cov, assume = {}, []
    level = "exploration"
    if rt:
        cov.update({k: rt[k] for k in ("evaluations", "distinct_nontrivial",
                                       "rule", "samples")})
        cov["replay_stage_s"] = rt["wall_s"]
        cov["bounded_stage"] = (
            "run-time contract evaluation on generated cases: bounded, not "
            "counted as proved")
    if proof is not None:
        obl = proof["obligations"]
        done = [o for o in obl if o["result"] == "proved"]
        cov.update(
            obligations=len(obl), discharged=len(done),
            proof_status=proof["status"],
            checker_cmd=f"{VT_PY} -m pyvc.main {pid} --tier {tier}",
            trusted_base=proof.get("trusted", []),
            functions_under_contract=proof.get("functions", []),
            back_ends=proof.get("back_ends", {}),
            solver_s=proof.get("solver_s", 0.0),
            covers=proof.get("covers", []),
            obligation_names=[f"{o['function']}: {o['name']} "
                              f"[{o['result']}, {o.get('by', '-')}]"
                              for o in obl][:400])
        if proof.get("why"):
            cov["undecided_because"] = proof["why"][-3000:]
        assume = proof.get("assumptions", [])
        if obl and len(done) == len(obl) and proof["status"] == "proved":
            level = "proof"
    if not cov:
        cov["explanation"] = "no stage ran"
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": level,
               "coverage": cov, "assumptions": assume,
               "wall_s": round(time.time() - t0, 2),
               "violations": len(fresh) + (1 if refuted and not fresh else 0)},
              open(os.path.join(ev_dir, pid + ".json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
