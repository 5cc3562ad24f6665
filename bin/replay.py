#!/usr/bin/env python3
"""replay.py FILE: runs the recorded execution again, alone, on harnesses rebuilt from /repo's current tree."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mcbuild, check
from props import PROPS
d = json.load(open(sys.argv[1]))
r = [x for x in PROPS[d["property"]]["runs"] if x["name"] == d["run"]][0]
if r.get("survey"):
    res = check.survey(r, d["tier"], d["trace"])
    for v in res["violations"]:
        print(v["message"]); print(v["detail"])
    sys.exit(1 if res["violations"] else 0)
so = check.build(check.combo(r))
if isinstance(so, Exception):
    print(so); sys.exit(1)
if d["trace"] == "build":
    print("the programs are accepted now"); sys.exit(0)
res, err = check.explore(check.command(r, d["tier"], so, check.load_known(d["property"]), ["--replay", d["trace"]]), 600)
if res is None:
    print(err); sys.exit(2)
for v in res["violations"]:
    print(v["message"]); print(v["detail"])
print("reproduced" if res["violations"] else "the execution now satisfies the property")
sys.exit(1 if res["violations"] else 0)
