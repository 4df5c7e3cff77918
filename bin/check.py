#!/usr/bin/env python3
"""Decides one property: check.py ID [--tier quick|thorough] [--only FN] [--config C] [-v]"""
import argparse
import concurrent.futures as cf
import json
import os
import re
import shlex
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import Broken

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--only")
ap.add_argument("--config")
ap.add_argument("-v", action="store_true")
ap.add_argument("--jobs", type=int, default=8)
args = ap.parse_args()
PROP = args.prop
T0 = time.time()
EVID = os.path.join(vlib.VERIF, "evidence")
REPLAYS = os.path.join(EVID, "replays")


def known_findings():
    """known: property=ID config=C,.. message=<exact text of the failed assertion>"""
    out = []
    p = os.path.join(vlib.VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) config=(\S+) harness=(\S+) message=(.*)$", l.strip())
            if m:
                out.append({"property": m[1], "configs": m[2].split(","),
                            "harness": m[3].split(","), "msg": m[4]})
    return out


def native(so, fn, tape, timeout=60, wrap=()):
    p = os.path.join(vlib.BUILD, "tape-%d-%s-%d" % (os.getpid(), fn, int(time.time() * 1e6) % 10**9))
    with open(p, "w") as f:
        f.write(tape)
    try:
        r = subprocess.run(list(wrap) + [vlib.runner(), so, fn, p], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=timeout)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return -9, "TIMEOUT", ""
    finally:
        os.remove(p)


def confirm(v, so, fn):
    """Does the native build show the violation the engine predicts?"""
    rc, out, err = native(so, fn, v["tape"])
    k = v["kind"]
    if k == "assert":
        return rc == 1 and ("VIOLATED " + v["msg"]) in out, out + err
    if k == "deadlock":
        return rc == 1 and "DEADLOCK" in out, out + err
    if k == "livelock":
        return (rc == 1 and "LIVELOCK" in out) or rc == -9, out + err
    if k == "panic":
        return rc == 1 and "CRASH" in out, out + err
    if k in ("memory", "unreachable"):
        if rc == 1 and "CRASH" in out:
            return True, out + err
        rc, out, err = native(so, fn, v["tape"], 300, ["valgrind", "-q", "--error-exitcode=99"])
        return rc == 99 or (rc == 1 and "CRASH" in out), out + err
    return False, out + err


def one(job):
    h, config, ll, so = job
    out = os.path.join(os.path.dirname(ll), h["fn"] + ".json")
    if os.path.exists(out):
        os.remove(out)
    # Leave time to report.
    t = max(20.0, min(float(h["time"]), T0 + 780 - time.time()))
    if args.tier == "thorough":
        t = float(h.get("ttime", 3600))
    cmd = [vlib.engine(), ll, h["fn"], "--out", out, "--time", str(t), "--states", h["states"],
           "--src", "pollingsrc/", "--samples", "12"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        raise Broken("engine failed on %s/%s: %s" % (h["fn"], config, r.stdout[-2000:]))
    res = json.load(open(out))
    res["config"] = config
    res["bound"] = h["bound"]
    res["missing_covers"] = [c for c in h["covers"] if c not in res["covers"]]
    # Completed paths must behave the same when run natively.
    res["validated"] = 0
    res["mismatch"] = []
    for s in res["samples"]:
        rc, o, e = native(so, h["fn"], s["tape"])
        obs = [int(x) for x in re.findall(r"^OBS (\d+)$", o, re.M)]
        if rc == 0 and o.rstrip().endswith("OK") and obs == s["obs"]:
            res["validated"] += 1
        else:
            res["mismatch"].append({"want": s["obs"], "got": o[-500:], "rc": rc, "tape": s["tape"]})
    for v in res["violations"]:
        v["confirmed"], v["native"] = confirm(v, so, h["fn"])
    return res


def demangle(names):
    try:
        o = subprocess.run(["c++filt", "-s", "rust"], input="\n".join(x.partition(":")[2] for x in names),
                           stdout=subprocess.PIPE, text=True, timeout=20).stdout.split("\n")
        if len(o) >= len(names):
            return sorted({"%s: %s" % (
                n.partition(":")[0], re.sub(r"\[[0-9a-f]{16}\]", "", d)) for n, d in zip(names, o)})
    except (OSError, subprocess.SubprocessError):
        pass
    return names


def main():
    hs = [h for h in vlib.harnesses(PROP)
          if (args.tier == "thorough" or h["tier"] == "quick")
          and (not args.only or h["fn"] == args.only)]
    fns = sorted({h["fn"] for h in vlib.harnesses(PROP)})
    configs = sorted({c for h in hs for c in h["configs"] if not args.config or c == args.config})
    with cf.ThreadPoolExecutor(8) as ex:
        fe = ex.submit(vlib.engine)
        fr = ex.submit(vlib.runner)
        built = dict(zip(configs, ex.map(lambda c: vlib.build_harness(c, PROP, fns), configs)))
        fe.result()
        fr.result()
    jobs = [(h, c, *built[c]) for h in hs for c in h["configs"] if c in built]
    # Long ones first.
    jobs.sort(key=lambda j: -float(j[0].get("cost", 1)))
    with cf.ThreadPoolExecutor(args.jobs) as ex:
        results = list(ex.map(one, jobs))

    tot = lambda k: sum(r[k] for r in results)
    known = known_findings()
    problems, viol, kf = [], [], {}
    for r in results:
        name = "%s/%s" % (r["harness"], r["config"])
        if args.v:
            print("%-44s %7d paths %8d states %9d instr %6d queries %6.1fs solver %6.1fs%s" % (
                name, r["paths"] + r["stops"], r["states"], r["instructions"], r["queries"],
                r["solver_s"], r["wall_s"],
                "  VIOLATIONS %d" % len(r["violations"]) if r["violations"] else ""))
        for x in r["incomplete"]:
            problems.append("%s: %s" % (name, x))
        if r["paths"] + r["stops"] == 0 and not r["violations"]:
            problems.append("%s: no path completes" % name)
        for c in r["missing_covers"]:
            problems.append("%s: never reached: %s" % (name, c))
        for m in r["mismatch"]:
            problems.append("%s: native run differs from the symbolic one: %s" % (name, json.dumps(m)))
        for v in r["violations"]:
            k = [x for x in known if x["property"] == PROP and r["config"] in x["configs"]
                 and r["harness"] in x["harness"] and x["msg"] == v["msg"]]
            if not v["confirmed"]:
                problems.append("%s: counterexample does not reproduce natively: %s %s\n%s" % (
                    name, v["kind"], v["msg"], v["native"][-800:]))
            elif v["msg"].startswith("model bound:"):
                problems.append("%s: %s" % (name, v["msg"]))
            elif k:
                kf.setdefault(k[0]["msg"], []).append(name)
            else:
                viol.append((r, v))

    # Replay files.
    os.makedirs(REPLAYS, exist_ok=True)
    lines = []
    for i, (r, v) in enumerate(viol):
        p = os.path.join(REPLAYS, "%s-%s-%s-%d.json" % (PROP, r["harness"], r["config"], i))
        json.dump({"property": PROP, "harness": r["harness"], "config": r["config"],
                   "kind": v["kind"], "message": v["msg"], "tape": v["tape"],
                   "native": v["native"],
                   "how": "bin/replay.py %s" % os.path.relpath(p, vlib.VERIF)},
                  open(p, "w"), indent=1)
        lines.append((v, r, p))
    for m, names in sorted(kf.items()):
        print("KNOWN-FINDING: property=%s %s [%s]" % (PROP, m, ", ".join(names)))
    for p in problems:
        print("PROBLEM: " + p)
    for v, r, p in lines:
        print("%s: %s in %s/%s" % (v["kind"], v["msg"], r["harness"], r["config"]))
        print("VIOLATION property=%s replay=%s" % (PROP, p))

    samples = []
    for r in results:
        for s in r["samples"][-1:]:
            samples.append({"harness": r["harness"], "config": r["config"],
                            "values_and_schedule": s["tape"].splitlines()[:60],
                            "observed": s["obs"][:40]})
    fn_names = demangle(sorted({f for r in results for f in r["repo_functions"]}))
    lines_by = {}
    for r in results:
        for l in r["repo_lines"]:
            f, _, n = l.rpartition(":")
            lines_by.setdefault(f, set()).add(int(n))
    ev = {
        "property": PROP,
        "tier": args.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": tot("states"),
            "transitions": tot("transitions"),
            "traces_validated_against_impl": tot("validated"),
            "samples": samples,
            "exhaustive": not problems,
            "symbolic_paths_completed": tot("paths"),
            "paths_ended_early": tot("stops"),
            "paths_pruned_by_assumption": tot("pruned"),
            "merged_states": tot("merged"),
            "forks": tot("forks"),
            "instructions_executed": tot("instructions"),
            "assertions_checked": tot("asserts"),
            "assertions_decided_by_solver": tot("asserts_symbolic"),
            "queries": tot("queries"),
            "queries_sat": tot("sat"),
            "queries_unsat": tot("unsat"),
            "queries_unknown": tot("unknown"),
            "query_cache_hits": tot("query_cache_hits"),
            "queries_as_integer_arithmetic": tot("integer_queries"),
            "queries_by_cvc5": tot("cvc5_queries"),
            "queries_answered_by_earlier_model": tot("queries_answered_by_model"),
            "solver_s": round(tot("solver_s"), 3),
            "max_query_s": max([r["max_query_s"] for r in results] or [0]),
            "functions_encoded": fn_names,
            "source_lines_executed": {k: len(v - {0}) for k, v in sorted(lines_by.items())},
            "source_lines": {k: sorted(v - {0}) for k, v in sorted(lines_by.items())},
            "harnesses": [
                {k: r[k] for k in ("harness", "config", "bound", "paths", "stops", "states",
                                   "transitions", "instructions", "queries", "solver_s",
                                   "max_threads", "covers", "assertions", "wall_s")}
                for r in results],
            "explanation": "bounded symbolic execution of the compiled crate; every assertion is "
                           "decided by an SMT solver (z3 or cvc5) over all values of the symbolic inputs, schedules and "
                           "faults within the bounds listed per harness",
        },
        "assumptions": [
            "LLVM IR semantics as implemented by /verif/engine; rustc's translation to IR",
            "the kernel behaves as /verif/shims/vkern models it",
            "sequentially consistent memory; preemption at synchronisation and system calls",
            "the standard library parts replaced by /verif/shims/vstd behave as documented",
        ],
        "wall_s": round(time.time() - T0, 3),
        "violations": len(lines),
    }
    os.makedirs(EVID, exist_ok=True)
    if not args.only and not args.config:
        json.dump(ev, open(os.path.join(EVID, PROP + ".json"), "w"), indent=1)
    if args.v:
        print("%.1fs" % (time.time() - T0))
    if lines:
        return 1
    return 2 if problems else 0


try:
    rc = main()
except Broken as e:
    print("PROBLEM: %s" % e)
    rc = 2
sys.exit(rc)
