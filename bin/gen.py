#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from meta.py and props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import meta
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for d, t, n in meta.P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
checks = []
for d, t, n in meta.P:
    i = d["id"]
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s --tier quick" % i, thorough_cmd="python3 bin/check.py %s --tier thorough" % i,
                           technique="model checking: " + t, level="model_checking", level_note=n))
na = [dict(property=a, reason=b) for a, b in meta.NA]
for d, t, n in meta.P:
    assert (d["id"] in PROPS) != (d["id"] in [x["property"] for x in na]), d["id"]
m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the harnesses compile /repo's sources with hilapp and link them with the explorer's own message layer. "
               "Known findings: known_findings.txt. bin/replay.py FILE repeats a reported execution.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")

# section 4 of DESIGN.md
rows = []
for d, t, n in meta.P:
    if d["id"] not in PROPS: continue
    rows.append("**%s** %s" % (d["id"], d["title"]))
    for r in PROPS[d["id"]]["runs"]:
        rows.append("* %s%s - `%s` %s, ranks %s%s: %s" % ("T " if r.get("thorough_only") else "", r["name"], r["h"], r["v"], r["np"], ", deviations %s (%s)" % (r["dev"], r.get("tdev", r["dev"])) if r.get("dev") else "", r.get("bound", "")))
    rows.append("")
D = open(V + "/DESIGN.md").read()
a, b = D.index("<!-- runs -->"), D.index("<!-- end -->")
D = D[:a] + "<!-- runs -->\n" + "\n".join(rows) + "\n" + D[b:]
S = V + "/seeded"
if os.path.isdir(S):
    a = D.index("<!-- seeds -->")
    D = D[:a] + "<!-- seeds -->\n"
    for i in sorted(os.listdir(S)):
        m = json.load(open(S + "/" + i + "/meta.json"))
        D += "* **%s** (%s) %s. Needs: %s. %s\n" % (i, m["property"], m["what_it_breaks"], m["needs"], m.get("caught", "Caught by the quick check of %s." % m["property"]))
open(V + "/DESIGN.md", "w").write(D)
