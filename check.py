#!/usr/bin/env python3-vt
"""check.py PID [--tier quick|thorough]

Decides one property on /repo's current working tree:
  1. deductive part: pyvc generates verification conditions from the AST of the
     functions under contract (contracts/<pid>.py), re-read from /repo on every
     run, and z3/cvc5 discharge them;
  2. bounded part: the same property as executable contracts on the real code
     (bounded/<pid>.py), which supplies failing inputs and stands in for the
     functions the verifier cannot reach.
Exit 0: held.  Exit 1 and a VIOLATION line: broken.  Nothing else.
"""
import argparse, hashlib, json, os, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
BUDGET = {"quick": 60.0, "thorough": 400.0}
SCALE = {"quick": 6.0, "thorough": 80.0}


def findings():
    try:
        return json.load(open(os.path.join(HERE, "known_findings.json")))
    except FileNotFoundError:
        return {"known": [], "fixed": []}


def run_bounded(pid, tier, seed, scale, timeout):
    out = tempfile.NamedTemporaryFile(prefix="verif_%s_" % pid, suffix=".json", delete=False)
    out.close()
    env = dict(os.environ, PYTHONHASHSEED="0", VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    cmd = [PY, os.path.join(HERE, "bounded", "run.py"), pid, "--tier", tier, "--seed", str(seed), "--scale", str(scale), "--out", out.name, "--budget", str(timeout * 0.8)]
    try:
        p = subprocess.run(cmd, cwd=tempfile.gettempdir(), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout + 120)
        try:
            res = json.load(open(out.name))
        except Exception:
            res = {"failures": [{"scenario": "load", "case_seed": 0, "message": "the code under test could not be loaded or the run died (exit %s)" % p.returncode,
                                 "case": {"stderr": p.stderr.decode(errors="replace")[-3000:]}}],
                   "evaluations": 0, "cases": 0, "distinct": 0, "scenarios": {}, "known": [], "rule": ""}
    except subprocess.TimeoutExpired:
        res = {"failures": [{"scenario": "timeout", "case_seed": 0, "message": "the bounded run did not end within %d s" % (timeout + 120), "case": {}}],
               "evaluations": 0, "cases": 0, "distinct": 0, "scenarios": {}, "known": [], "rule": ""}
    finally:
        os.unlink(out.name)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--no-bounded", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    a = ap.parse_args()
    pid, tier = a.pid, a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    proof = None
    if not a.no_proof:
        from pyvc import driver
        proof = driver.run(pid, REPO, tier)
    failed = [o for o in proof["obligations"] if o["status"] == "failed"] if proof else []
    if a.no_bounded:
        bounded = {"failures": [], "evaluations": 0, "cases": 0, "distinct": 0, "scenarios": {}, "known": [], "rule": "skipped"}
    else:
        bounded = run_bounded(pid, tier, a.seed, SCALE[tier], BUDGET[tier])
        if failed and not bounded["failures"]:
            # an obligation failed: search longer for a failing input
            more = run_bounded(pid, tier, a.seed + 1, SCALE[tier] * 20, 90 if tier == "quick" else 300)
            for k in ("evaluations", "cases", "distinct"):
                bounded[k] += more[k]
            bounded["failures"] = more["failures"]
    kf = findings()
    code = 0
    violations = 0
    rep = os.path.join(HERE, "evidence", "replay_%s.json" % pid)
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    if os.path.exists(rep):
        os.unlink(rep)
    listed = {k["id"]: k for k in kf["known"] if k["property"] == pid}
    for k in bounded.get("known", []):
        if k["id"] in listed:
            print("KNOWN-FINDING: property=%s %s" % (pid, listed[k["id"]]["what"]))
        else:
            bounded["failures"].append(dict(scenario="known", case_seed=0, message=k.get("what", k["id"]), case={}))
    if bounded["failures"]:
        f = bounded["failures"][0]
        json.dump({"property": pid, "failure": f, "all": bounded["failures"][:10],
                   "failed_obligations": failed[:10],
                   "replay_cmd": "%s %s/bounded/run.py %s --replay %s" % (PY, HERE, pid, rep)}, open(rep, "w"), indent=1)
        print("scenario %s, case seed %s: %s" % (f["scenario"], f["case_seed"], f["message"]))
        for o in failed[:5]:
            print("failed obligation: %s" % o["name"])
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        code, violations = 1, len(bounded["failures"])
    elif failed:
        json.dump({"property": pid, "failed_obligations": failed}, open(rep, "w"), indent=1)
        for o in failed[:10]:
            print("failed obligation: %s (%s)" % (o["name"], o.get("detail", "")[:200].replace("\n", " ")))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rep))
        code, violations = 1, len(failed)
    obl = proof["obligations"] if proof else []
    level = proof["level"] if proof else "exploration"
    samples = obl[:3] if obl else [{"scenario": s, **d} for s, d in bounded["scenarios"].items()]
    ev = {
        "property": pid, "tier": tier, "seed": a.seed, "level": level,
        "coverage": {
            "obligations": len(obl), "discharged": sum(o["status"] == "discharged" for o in obl),
            "checker_cmd": "python3-vt check.py %s --no-bounded" % pid,
            "trusted_base": proof["trusted"] if proof else [],
            "functions_under_contract": proof["functions"] if proof else [],
            "functions_inlined": proof["inlined"] if proof else [],
            "back_ends": proof["backends"] if proof else {},
            "solver_s": proof["solver_s"] if proof else 0,
            "source_digest": proof["digest"] if proof else "",
            "reachability_checks": proof["covers"] if proof else 0,
            "bounded_stand_ins": proof["standins"] if proof else [],
            "bounded": {"label": "bounded, never counted as proved", "rule": bounded["rule"], "evaluations": bounded["evaluations"], "cases": bounded["cases"],
                        "distinct_nontrivial": bounded["distinct"], "scenarios": bounded["scenarios"]},
            "evaluations": bounded["evaluations"], "distinct_nontrivial": bounded["distinct"], "rule": bounded["rule"],
            "samples": samples,
        },
        "assumptions": proof["assumptions"] if proof else [],
        "wall_s": round(time.time() - t0, 2), "violations": violations,
    }
    tmp = os.path.join(HERE, "evidence", pid + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", pid + ".json"))
    if code == 0:
        print("OK property=%s obligations=%d discharged=%d bounded_cases=%d wall=%.1fs" % (pid, len(obl), ev["coverage"]["discharged"], bounded["cases"], time.time() - t0))
    sys.exit(code)


if __name__ == "__main__":
    main()
