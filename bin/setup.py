#!/usr/bin/env python3
"""builds the explorer and all harnesses (cached by content under /verif/build)"""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mcbuild
from props import PROPS
from concurrent.futures import ThreadPoolExecutor
t = time.time()
mcbuild.mcrun()
mcbuild.hilapp()
combos = []
for p in PROPS.values():
    for r in p["runs"]:
        if r.get("survey") or r.get("thorough_only"):
            continue
        c = (r["h"], r["v"], tuple(r.get("libs", ())), tuple(r.get("defs", ())), r.get("gen"))
        if c not in combos:
            combos.append(c)
bad = 0
# the library objects of each variant first, so that they are not compiled twice
for v in sorted({c[1] for c in combos}):
    pass
def one(c):
    try:
        mcbuild.build_so(*c)
        return ""
    except Exception as e:
        return "%s: %s" % (c, e)
seen, first, rest = set(), [], []
for c in combos:
    (first if c[1] not in seen else rest).append(c)
    seen.add(c[1])
for group in (first, rest):
    with ThreadPoolExecutor(4) as ex:
        for m in ex.map(one, group):
            if m:
                print(m); bad = 1
print("setup: %d harness builds in %.0f s" % (len(combos), time.time() - t))
sys.exit(bad)
