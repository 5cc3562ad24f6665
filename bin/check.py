#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--run SUBSTR] : builds the harnesses of one property from /repo's working tree and
explores every execution within the stated bounds.  Exit 0 property held, 1 violation (line VIOLATION ...), 2 the check failed."""
import hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mcbuild
from props import PROPS

VERIF = mcbuild.VERIF


def load_known(pid):
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res


def command(run, tier, so, known, extra=()):
    cmd = [mcbuild.mcrun(), "--so", so, "--np", str(run.get("np", "1"))]
    st = dict(run.get("set", {}))
    if tier == "thorough":
        st.update(run.get("tset", {}))
    for k, v in st.items():
        cmd += ["--set", "%s=%s" % (k, v)]
    dev = run.get("dev")
    if tier == "thorough" and "tdev" in run:
        dev = run["tdev"]
    if dev is not None:
        cmd += ["--dev", str(dev)]
    cmd += list(run.get("opts", []))
    cmd += ["--jobs", str(mcbuild.JOBS), "--limit", str(run.get("limit", 60))]
    for k in known:
        cmd += ["--known", k]
    return cmd + list(extra)


def explore(cmd, tmo):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=tmo)
    except subprocess.TimeoutExpired:
        return None, "exploration exceeded %d s" % tmo
    try:
        return json.loads(r.stdout.decode("utf-8", "replace")), ""
    except ValueError:
        return None, "no result (exit %s): %s %s" % (r.returncode, r.stdout[-500:], r.stderr[-1500:])


def survey(r, tier, only=None):
    """accepted or refused: every case of bin/illegal.py, against the verdict that follows from its construction"""
    import illegal, tempfile
    cases = illegal.build(tier == "thorough")
    if only is not None:
        cases = [c for c in cases if "".join(c[3:]) + " " + c[1] == only]
    res = dict(executions=0, nodes=0, transitions=0, states=0, outcomes=2, compared=0, pruned=0, messages=0, fiber_switches=0, bounded_deviations=0, samples=[], violations=[])
    with ThreadPoolExecutor(mcbuild.JOBS) as ex:
        d = os.path.join(mcbuild.BUILD, "survey", str(os.getpid()))
        os.makedirs(d, exist_ok=True)
        for legal in (False, True):
            sel = [c for c in cases if c[2] == legal]
            got, runs = illegal.survey(sel, mcbuild.variant(r["v"]), d, ex, r.get("per", 60))
            res["executions"] += len(got)
            res["states"] += len(got)
            res["transitions"] += runs
            res["compared"] += len(got)
            res["samples"].append(dict(run=r["name"], choices=sel[len(sel) // 2][1] if sel else "", notes="refused" if not legal else "accepted"))
            for c, acc, msg in got:
                if acc != legal:
                    t = "".join(c[3:]) + " " + c[1]
                    res["violations"].append(dict(trace=t, message=("a loop that is not allowed is accepted" if acc else "an allowed loop is refused") + " (%s)" % c[0], detail=t + "\n" + msg))
        subprocess.run(["rm", "-rf", d])
    return res


def combo(r):
    return (r["h"], r["v"], tuple(r.get("libs", ())), tuple(r.get("defs", ())), r.get("gen"))


def build(c):
    try:
        return mcbuild.build_so(*c)
    except mcbuild.ProgramError as e:
        return e


def confirmed_again(cmd, budget):
    for _ in range(2):
        res, err = explore(cmd, budget + 120)
        if res and any(not x["message"].startswith("INTERNAL") for x in res["violations"]):
            return True
    return False


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--run", default="")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    pid = a.id
    prop = PROPS[pid]
    tier = "thorough" if a.tier == "thorough" else "quick"
    runs = [r for r in prop["runs"] if (tier == "thorough" or not r.get("thorough_only")) and a.run in r["name"]]
    known = load_known(pid)
    try:
        mcbuild.mcrun()
        happ = mcbuild.hilapp()
        combos = []
        for r in runs:
            if combo(r) not in combos and not r.get("survey"):
                combos.append(combo(r))
        with ThreadPoolExecutor(4) as ex:
            sos = dict(zip(combos, ex.map(build, combos)))
    except mcbuild.BuildError as e:
        print("BUILD FAILED: %s" % e)
        return 2
    if a.build_only:
        return 0
    tb = time.time() - t0
    tot = dict(executions=0, nodes=0, transitions=0, states=0, outcomes=0, compared=0, pruned=0, messages=0, fiber_switches=0, bounded_deviations=0)
    samples, perrun, seen_known, viols, exhaustive, errors = [], [], set(), [], True, []
    for r in runs:
        if r.get("survey"):
            t1 = time.time()
            res = survey(r, tier)
            for k in tot:
                tot[k] += res.get(k, 0)
            samples += res["samples"]
            perrun.append(dict(name=r["name"], harness=r["h"], variant=r["v"], np="1", bound=r.get("bound", ""), executions=res["executions"], states=res["states"], transitions=res["transitions"],
                               comparisons=res["compared"], distinct_outcomes=res["outcomes"], deviation_bound_hits=0, wall_s=round(time.time() - t1, 2)))
            viols += [(r, v, ["survey"]) for v in res["violations"]]
            continue
        so = sos[combo(r)]
        if isinstance(so, Exception):
            # a program inside the supported language is not translated (or its translation does not compile)
            viols.append((r, dict(trace="build", message="a generated program is not accepted", detail=str(so)[-3000:]), ["build"]))
            exhaustive = False
            continue
        extra = []
        budget = r.get("ttime", 1500) if tier == "thorough" else r.get("time", 100)
        cmd = command(r, tier, so, known, ["--time", str(budget)])
        t1 = time.time()
        res, err = explore(cmd, budget + 120)
        if res is None:
            errors.append("%s: %s" % (r["name"], err))
            continue
        if not res["states"]:
            res["states"] = res["nodes"] + res["executions"]
        for k in tot:
            tot[k] += res.get(k, 0)
        if res["timed_out"]:
            exhaustive = False
            print("note: run %s was stopped after %d s; not exhaustive" % (r["name"], budget))
        if not res["timed_out"] and not res["violations"] and res["executions"] == 0:
            errors.append("%s: nothing was executed" % r["name"])
        if r.get("min_exec") and res["executions"] < r["min_exec"] and not res["violations"]:
            errors.append("%s: only %d executions" % (r["name"], res["executions"]))
        samples += [dict(run=r["name"], choices=s["choices"], notes=s["notes"][:300]) for s in res["samples"][:2]]
        perrun.append(dict(name=r["name"], harness=r["h"], variant=r["v"], np=str(r.get("np", 1)), bound=r.get("bound", ""),
                           executions=res["executions"], states=res["states"], transitions=res["transitions"], comparisons=res["compared"],
                           distinct_outcomes=res["outcomes"], deviation_bound_hits=res["bounded_deviations"], wall_s=round(time.time() - t1, 2)))
        for k in res["known"]:
            seen_known.add(k)
        for v in res["violations"]:
            if v["message"].startswith("INTERNAL"):
                errors.append("%s: %s trace %s" % (r["name"], v["message"], v["trace"]))
                continue
            # replay before report
            rcmd = command(r, tier, so, known, ["--replay", v["trace"]])
            rep, rerr = explore(rcmd, 300)
            again = [x["message"] for x in rep["violations"]] if rep else []
            if v["message"] not in again:
                if again and not again[0].startswith("INTERNAL"):
                    pass  # same choices still break the property, with other details
                elif any(x[0] is r for x in viols):
                    continue  # another violation of this run has been confirmed
                elif confirmed_again(cmd, budget):
                    pass  # depends on memory contents: not at the same choices, but the run fails again
                else:
                    errors.append("%s: a violation did not reproduce on replay: %s (trace %s; replay gave %s %s)" % (r["name"], v["message"], v["trace"], again, rerr))
                    continue
            viols.append((r, v, rcmd))
    for r in perrun:
        print("%-28s %9d executions %9d states %9d transitions %10d comparisons %7.1f s" % (r["name"], r["executions"], r["states"], r["transitions"], r["comparisons"], r["wall_s"]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
              coverage=dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["executions"],
                            samples=samples[:12], exhaustive=exhaustive and not errors, comparisons_with_reference=tot["compared"],
                            choice_points=tot["nodes"], distinct_outcomes=tot["outcomes"], messages=tot["messages"],
                            rank_switches=tot["fiber_switches"], pruned_executions=tot["pruned"], cut_by_deviation_bound=tot["bounded_deviations"],
                            runs=perrun, rule="every path of the choice tree of each harness is executed on the code compiled from /repo; states are the "
                            "canonical states the harness reports (or, when it reports none, the nodes of the choice tree); each execution is a trace "
                            "of the implementation itself compared with the reference model at every step"),
              assumptions=prop.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viols))
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("build %.1f s, total %.1f s" % (tb, time.time() - t0))
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (pid, known.get(k, k)))
    if viols:
        d = os.path.join(VERIF, "build", "replays")
        os.makedirs(d, exist_ok=True)
        for r, v, rcmd in viols[:5]:
            p = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha256((r["name"] + v["trace"]).encode()).hexdigest()[:10]))
            with open(p, "w") as f:
                json.dump(dict(property=pid, run=r["name"], tier=tier, trace=v["trace"], message=v["message"], detail=v["detail"], command=rcmd), f, indent=1)
            print("  run %s: %s" % (r["name"], v["message"]))
            print("  " + v["detail"][:1500].replace("\n", "\n  "))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if errors:
        for e in errors:
            print("CHECK ERROR: " + e)
        return 2
    print("property %s held on everything explored (%d executions)" % (pid, tot["executions"]))
    return 0


if __name__ == "__main__":
    sys.exit(main())
