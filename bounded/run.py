"""python run.py PID --tier quick --seed N --out OUT.json [--scale F] | --replay FILE"""
import argparse, importlib, json, multiprocessing, os, sys, time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["OMP_NUM_THREADS"] = os.environ["OPENBLAS_NUM_THREADS"] = "1"
sys.dont_write_bytecode = True
from bounded import core


def work(job):
    pid, name, seeds, tier, deadline = job
    if deadline and time.time() > deadline:
        return dict(evals=0, keys=set(), fails=[], n=0)
    mod = importlib.import_module("bounded." + pid.lower())
    fn = dict((s[0], s[1]) for s in mod.SCENARIOS)[name]
    out = dict(evals=0, keys=set(), fails=[], n=0)
    for s in seeds:
        st, key, ev, info = core.run_case(pid, name, fn, s, tier)
        out["n"] += 1
        out["evals"] += ev
        if key:
            out["keys"].add(key)
        if st != "ok":
            out["fails"].append(dict(scenario=name, case_seed=s, **info))
            break
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--budget", type=float, default=0, help="stop starting new work after this many seconds")
    a = ap.parse_args()
    mod = importlib.import_module("bounded." + a.pid.lower())
    if a.replay:
        r = json.load(open(a.replay))
        f = r["failure"]
        fn = dict((s[0], s[1]) for s in mod.SCENARIOS)[f["scenario"]]
        st, key, ev, info = core.run_case(a.pid, f["scenario"], fn, f["case_seed"], a.tier)
        print(st, json.dumps(info, indent=1))
        sys.exit(0 if st == "ok" else 1)
    t0 = time.time()
    jobs = []
    deadline = t0 + a.budget if a.budget else 0
    for name, fn, n in mod.SCENARIOS:
        if a.only and name != a.only:
            continue
        n = max(1, int(n * a.scale))
        base = a.seed * 1000003
        seeds = [base + i for i in range(n)]
        ch = max(1, min(50, n // (2 * a.jobs) + 1))
        jobs += [(a.pid, name, seeds[i : i + ch], a.tier, deadline) for i in range(0, n, ch)]
    # interleave the scenarios so that a budget cuts all of them evenly
    order = {}
    for j in jobs:
        order.setdefault(j[1], []).append(j)
    jobs = sorted(((i / len(v), k, j) for k, v in order.items() for i, j in enumerate(v)), key=lambda t: t[:2])
    jobs = [j for _, _, j in jobs]
    res = dict(evaluations=0, cases=0, keys=set(), failures=[], scenarios={})
    ctx = multiprocessing.get_context("fork")
    import warnings
    import gerrychain, gerrychain.grid  # noqa: F401  (imported once, before forking)
    warnings.simplefilter("ignore")
    core.clean_defaults()
    with ctx.Pool(a.jobs) as pool:
        for job, out in zip(jobs, pool.imap(work, jobs)):
            res["evaluations"] += out["evals"]
            res["cases"] += out["n"]
            res["keys"] |= out["keys"]
            d = res["scenarios"].setdefault(job[1], dict(cases=0, evaluations=0))
            d["cases"] += out["n"]
            d["evaluations"] += out["evals"]
            res["failures"] += out["fails"]
            if res["failures"]:
                pool.terminate()
                break
    known = []
    if hasattr(mod, "known"):
        known = mod.known()
    res["distinct"] = len(res.pop("keys"))
    res["known"] = known
    res["rule"] = getattr(mod, "RULE", "")
    res["wall_s"] = round(time.time() - t0, 2)
    s = json.dumps(res, indent=1, default=str)
    if a.out:
        open(a.out, "w").write(s)
    else:
        print(s)
    sys.exit(1 if res["failures"] else 0)


if __name__ == "__main__":
    main()
