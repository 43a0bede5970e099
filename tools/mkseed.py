"""python3 mkseed.py [ids...]: build and validate planted bugs from tools/seeds/*.py specs.

Each spec: dict(id, property, file, edits=[(old, new)...], needs, breaks, demo=python source).
Validates in a scratch copy of /repo: patch applies, demo passes before and fails after, tests pass.
"""
import glob, json, os, shutil, subprocess, sys, textwrap
from concurrent.futures import ThreadPoolExecutor

H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
ENV = dict(os.environ, PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
DEMO_SH = '''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds, nonzero when it is broken
d="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$d/demo.py"
'''


def specs():
    out = {}
    for f in sorted(glob.glob(H + "/seeds/*.py")):
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        for s in ns["SEEDS"]:
            assert s["id"] not in out
            out[s["id"]] = s
    return out


def sh(cmd, cwd, t=400):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)


def build(s, tests=True):
    i = s["id"]
    w = "/tmp/seedwork/%s" % i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@a commit -qm x" % (w, w), shell=True)
    d = V + "/seeded/" + i
    try:
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.py", "w").write(textwrap.dedent(s["demo"]).lstrip())
        open(d + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = sh(["bash", d + "/demo.sh"], w)
        if r.returncode != 0:
            return i, "DEMO FAILS ON CLEAN: " + r.stdout[-600:]
        for ed in s["edits"]:
            f, old, new = ed if len(ed) == 3 else (s["file"],) + tuple(ed)
            p = w + "/gerrychain/" + f
            t = open(p).read()
            if t.count(old) != 1:
                return i, "edit matches %d times: %r" % (t.count(old), old[:80])
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "diff"], cwd=w, text=True)
        open(d + "/patch.diff", "w").write(diff)
        r = sh(["bash", d + "/demo.sh"], w)
        if r.returncode == 0:
            return i, "DEMO PASSES ON BUG"
        msg = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else ""
        if tests:
            r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:xdist", "--no-cov", "--timeout=300", "-x", "tests"], w, 600)
            base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", [])) if False else None
            if r.returncode != 0:
                return i, "TESTS FAIL: " + "\n".join(l for l in r.stdout.splitlines() if "FAILED" in l or "ERROR" in l)[:400]
        return i, "ok (%s)" % msg[:150]
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    sp = specs()
    ids = sys.argv[1:] or [i for i in sp if not os.path.exists(V + "/seeded/%s/patch.diff" % i)]
    with ThreadPoolExecutor(7) as ex:
        for i, m in ex.map(lambda i: build(sp[i]), ids):
            print(i, m, flush=True)
            if not m.startswith("ok"):
                shutil.rmtree(V + "/seeded/" + i, ignore_errors=True)


main()
