"""python3 tools/seedrun.py [--args "..."] [ids...]: run each planted bug's check on a scratch copy of /repo with the bug applied."""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = 4
args = sys.argv[1:]
extra = []
if args and args[0] == "--args":
    extra = args[1].split(); args = args[2:]
ids = args or sorted(os.listdir(V + "/seeded"))

def one(i):
    w = "/tmp/seedrun/%s" % i
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w + "/repo")
    t0 = time.time()
    try:
        subprocess.check_call("git -C /repo archive HEAD | tar x -C %s/repo && cp -a %s/check.py %s/pyvc %s/contracts %s/bounded %s/known_findings.json %s/ && cd %s/repo && git init -q && git apply %s/seeded/%s/patch.diff" % (w, V, V, V, V, V, w, w, V, i), shell=True)
        pid = json.load(open(V + "/seeded/%s/meta.json" % i))["property"]
        r = subprocess.run(["python3-vt", w + "/check.py", pid, "--tier", "quick"] + extra, cwd=w, env=dict(os.environ, VERIF_REPO=w + "/repo", VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return i, r.returncode, time.time() - t0, r.stdout.strip()[-700:]
    finally:
        shutil.rmtree(w, ignore_errors=True)
with ThreadPoolExecutor(J) as ex:
    for i, rc, t, o in ex.map(one, ids):
        print("%-26s %s %5.1fs | %s" % (i, {0: "MISSED", 1: "caught"}.get(rc, "rc=%s" % rc), t, " / ".join(o.splitlines())[-330:]), flush=True)
