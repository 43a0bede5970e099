#!/usr/bin/env python3-vt
"""loop structure (kind and nesting of the loops, in source order) of every function of /repo/gerrychain:
an invariant of a contract applies to a function only while this structure is the one the contract was written for"""
import ast, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc.interp import loop_shape

REPO = os.environ.get("VERIF_REPO", "/repo")
out = {}
for d, _, fs in os.walk(os.path.join(REPO, "gerrychain")):
    for f in sorted(fs):
        if not f.endswith(".py"):
            continue
        mod = os.path.relpath(os.path.join(d, f), REPO)[:-3].replace("/", ".")
        if mod.endswith(".__init__"):
            mod = mod[:-9]

        def go(body, pre):
            for n in body:
                if isinstance(n, ast.ClassDef):
                    go(n.body, pre + n.name + ".")
                elif isinstance(n, (ast.FunctionDef,)):
                    s = loop_shape(n)
                    if s:
                        out[mod + ":" + pre + n.name] = s
        go(ast.parse(open(os.path.join(d, f)).read()).body, "")
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "loops.json")
json.dump(dict(sorted(out.items())), open(p, "w"), indent=1)
print(len(out))
