"""runs the contracts of one property: VC generation from /repo's current
source, discharge, one forked worker per contract"""
import importlib, json, os, sys, time, traceback
import multiprocessing as mp

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run_spec(repo, pid, idx, tier, shard=(0, 1), names=None, patience=1):
    import z3
    from pyvc.core import Unsupported, PyRaise
    from pyvc.methods import Verifier
    from pyvc.solve import Solver
    mod = importlib.import_module("contracts." + pid.lower())
    spec = mod.SPECS[idx]
    name, fn = spec[0], spec[1]
    out = dict(name=name, obligations=[], standin=None, trusted=[], inlined=[], models=[], solver_s=0.0, backends={}, digest="", covers=0, gen_s=0.0, paths=0)
    t0 = time.time()
    E = Verifier(repo)
    E.draws = []

    def thunk():
        E.uidreset()
        E.draws = []
        E.contracts, E.invariants, E.inverses, E.current = {}, {}, {}, None
        return fn(E)
    try:
        paths = E.explore(thunk)
        for p in paths:
            if p.kind == "raise":
                from pyvc.core import Obligation
                E.obligations.append(Obligation("no exception escapes (%r)" % (p.val.exc,), list(p.ctx.pc) + list(p.ctx.facts), z3.BoolVal(False)))
        if not E.obligations:
            raise Unsupported("the contract generated no obligation")
    except Unsupported as u:
        out["standin"] = "%s%s" % (u, " at " + u.where if getattr(u, "where", None) else "")
    except RecursionError:
        out["standin"] = "recursion limit"
    except Exception as e:
        out["standin"] = "engine: %s: %s @ %s" % (type(e).__name__, str(e)[:200], traceback.format_exc().strip().split("\n")[-3].strip()[:200])
        if os.environ.get("PYVC_DEBUG"):
            traceback.print_exc()
    out["gen_s"] = time.time() - t0
    out["paths"] = E.stats["paths"]
    out["trusted"] = sorted(E.trusted)
    out["inlined"] = sorted(q for q in E.inlined if q.startswith("gerrychain"))
    out["models"] = sorted(E.used_models)
    out["digest"] = E.digest.hexdigest()
    if out["standin"] is None:
        big = tier == "thorough"
        S = Solver(E, z3_ms=30000 if big else 8000, cvc5_s=(60 if big else 15) * patience, budget=1500 if big else 150)
        S.patience = patience
        seen = {}
        reach = False
        for o in E.obligations:
            key = (o.name, o.goal.sexpr(), tuple(sorted(h.get_id() for h in o.hyps)))
            if key in seen:
                continue
            seen[key] = True
            if len(seen) % shard[1] != shard[0] or names is not None and "%s: %s" % (name, o.name) not in names:
                continue
            nm = S.cur = "%s: %s" % (name, o.name)
            try:
                ok, be, det = S.prove(o.hyps, o.goal)
            except z3.Z3Exception as e:
                ok, be, det = False, "error", str(e)[:300]
            out["backends"][be] = out["backends"].get(be, 0) + 1
            if ok and not z3.is_false(o.goal):
                if not reach and S.consistent(o.hyps):
                    reach = True
            out["obligations"].append(dict(name=nm, status="discharged" if ok else "undecided" if be == "budget" else "failed", backend=be, detail=det))
            if not ok and be != "budget" and patience > 1:
                break
        out["covers"] = int(reach)
        if not reach and names is None and shard[1] == 1 and all(o["status"] == "discharged" for o in out["obligations"]):
            out["obligations"].append(dict(name=name + ": hypotheses are satisfiable (not vacuous)", status="failed", backend="z3", detail="every path of the contract has contradictory hypotheses"))
        out["solver_s"] = S.time
    return out


def worker(a):
    try:
        return run_spec(*a)
    except BaseException as e:
        return dict(name="?", obligations=[], standin="worker: %r" % (e,), trusted=[], inlined=[], models=[], solver_s=0, backends={}, digest="", covers=0, gen_s=0, paths=0)


ASSUME = [
    "Python numbers are treated as exact: ints unbounded, floats as rationals/reals (rounding, overflow and -0.0 not modelled)",
    "partial correctness: termination of loops and recursion is not proved",
    "sets and dicts are finite; their iteration order is arbitrary but fixed for one traversal",
    "node and district labels are hashable values with total order where the code sorts them",
    "functions outside the repository behave as the assumed contracts listed under trusted_base",
]


def pooled(mod, jobs, limit):
    ctx = mp.get_context("fork")
    res = [None] * len(jobs)
    with ctx.Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
        hs = [pool.apply_async(worker, (j,)) for j in jobs]
        t_end = time.time() + limit
        for n, h in enumerate(hs):
            try:
                res[n] = h.get(max(1, t_end - time.time()))
            except mp.TimeoutError:
                res[n] = dict(name=mod.SPECS[jobs[n][2]][0], obligations=[], standin="time limit of the deductive part", trusted=[], inlined=[], models=[], solver_s=0, backends={}, digest="", covers=0, gen_s=limit, paths=0)
        pool.terminate()
    return res


def run(pid, repo, tier, only=None, verbose=False):
    try:
        mod = importlib.import_module("contracts." + pid.lower())
    except ModuleNotFoundError as e:
        if e.name != "contracts." + pid.lower():
            raise
        return None
    jobs = []
    for i, s in enumerate(mod.SPECS):
        if only is None or only in s[0]:
            n = s[2].get("shards", 1) if len(s) > 2 else 1
            jobs += [(repo, pid, i, tier, (k, n)) for k in range(n)]
    limit = 1500 if tier == "thorough" else 330
    res = pooled(mod, jobs, limit)
    # a second, more patient attempt at what was not discharged (solver limits, loaded machine)
    bad = {n: {o["name"] for o in r["obligations"] if o["status"] != "discharged"} for n, r in enumerate(res)}
    again = [n for n in bad if bad[n]]
    if again:
        res2 = pooled(mod, [jobs[n] + (bad[n], 3) for n in again], 600 if tier == "thorough" else 200)
        for n, r2 in zip(again, res2):
            r = res[n]
            r["solver_s"] += r2["solver_s"]
            r["again"] = r2["standin"] or "done"
            st = [o["status"] for o in r2["obligations"]]
            if r2["standin"] is None and st and all(x == "discharged" for x in st):
                for o in r["obligations"]:
                    if o["status"] != "discharged":
                        o.update(status="discharged", backend="second attempt", detail="")
            elif "failed" in st:
                worst = [o for o in r2["obligations"] if o["status"] == "failed"]
                for o in r["obligations"]:
                    if o["name"] in {w["name"] for w in worst} and o["status"] != "discharged":
                        o["status"] = "failed"
                    elif o["status"] == "failed":
                        o["status"] = "undecided"
    for r in res:
        if r["standin"] is None and any(o["status"] == "undecided" for o in r["obligations"]) and not any(o["status"] == "failed" for o in r["obligations"]):
            r["standin"] = "%d obligations undecided within the time budget" % sum(o["status"] == "undecided" for o in r["obligations"])
    obl, trusted, inl, be, standins, models = [], set(), set(), {}, [], set()
    funcs = []
    for j, r in zip(jobs, res):
        spec = mod.SPECS[j[2]]
        obl += r["obligations"]
        trusted |= set(r["trusted"])
        models |= set(r["models"])
        inl |= set(r["inlined"])
        for k, v in r["backends"].items():
            be[k] = be.get(k, 0) + v
        if r["standin"]:
            standins.append({"contract": spec[0], "reason": r["standin"], "bounded_check": "bounded/%s.py" % pid.lower()})
        else:
            funcs.append({"contract": spec[0], "functions": r["inlined"], "paths": r["paths"], "obligations": len(r["obligations"])})
    meta = getattr(mod, "META", {})
    if meta.get("bounded"):
        standins += [{"contract": "(no contract)", "reason": x, "bounded_check": "bounded/%s.py" % pid.lower()} for x in meta["bounded"]]
    return dict(obligations=obl, level=meta.get("level", "proof"), trusted=sorted(trusted | set(meta.get("trusted", [])) | {"model of " + m for m in models}),
                functions=funcs, inlined=sorted(inl), backends=be, solver_s=round(sum(r["solver_s"] for r in res), 2),
                digest=",".join(sorted({r["digest"][:16] for r in res if r["digest"]})), covers=sum(r["covers"] for r in res),
                standins=standins, assumptions=ASSUME + list(meta.get("assumptions", [])), details=res)


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--only")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    r = run(a.pid, os.environ.get("VERIF_REPO", "/repo"), a.tier, a.only)
    for d in r["details"]:
        bad = [o for o in d["obligations"] if o["status"] != "discharged"]
        print("%-60s paths=%d obl=%d bad=%d gen=%.1fs solve=%.1fs %s" % (d["name"], d["paths"], len(d["obligations"]), len(bad), d["gen_s"], d["solver_s"], d["standin"] or ""))
        for o in bad:
            print("   FAILED", o["name"], o["backend"])
            if a.v:
                print(o["detail"])
        if a.v:
            for o in d["obligations"]:
                if o["status"] == "discharged":
                    print("   ok", o["name"], o["backend"])
