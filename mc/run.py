#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough]      decide one property on /repo's current working tree
   run.py --replay FILE                    replay a violation file
   run.py --setup                          build everything once (optional; checks build what they need)

Exit 0: held on everything explored. Exit 1 plus a VIOLATION line: broken. Exit 3: the check itself failed."""
import argparse
import importlib
import json
import os
import subprocess
import sys
import time
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
import build  # noqa: E402
import explore  # noqa: E402
from registry import CHECKS  # noqa: E402

VERIF = HERE.parent
OUT = VERIF / "out"
KNOWN = VERIF / "known-findings.jsonl"


def known_findings(prop):
    r = []
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            if line.strip():
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    r.append(d)
    return r


def harness_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=512:detect_stack_use_after_return=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
    return e


def run_native(part, prop, tier, deadline, idx):
    b = build.Builder()
    t0 = time.time()
    binary = b.harness(part["harness"], part.get("variant", "plain"))
    tb = time.time() - t0
    res = OUT / ("%s-%d.json" % (prop, idx))
    rep = OUT / ("%s-%d.replay" % (prop, idx))
    for f in (res, rep):
        f.unlink(missing_ok=True)
    scratch = explore.scratch_root()
    try:
        r = subprocess.run([str(binary), part["mode"], "--tier", tier, "--result", str(res), "--replay-out", str(rep), "--workers", "8", "--deadline", str(deadline),
                            "--scratch", str(scratch)], capture_output=True, text=True, env=harness_env(), errors="replace")
    finally:
        subprocess.run(["rm", "-rf", str(scratch)])
    if r.returncode not in (0, 1) or not res.exists():
        raise RuntimeError("harness %s %s ended with %s\n%s\n%s" % (part["harness"], part["mode"], r.returncode, r.stdout[-3000:], r.stderr[-2000:]))
    d = json.loads(res.read_text())
    d["build_s"] = tb
    if r.returncode == 1:
        meta = {"kind": "native", "harness": part["harness"], "variant": part.get("variant", "plain"), "choices_file": str(rep)}
        rj = OUT / ("%s-%d.violation.json" % (prop, idx))
        rj.write_text(json.dumps({**meta, "property": prop, "message": d["message"], "replay_text": rep.read_text()}, indent=1))
        d["replay"] = str(rj)
        d["report"] = r.stdout[-3500:]
    return d


def run_python(part, prop, tier, deadline, idx):
    mod = importlib.import_module(part["module"])
    p = getattr(mod, part["cls"])()
    t0 = time.time()
    env = p.prepare(build.Builder())
    tb = time.time() - t0
    d = explore.explore(p, env, tier, deadline)
    d["build_s"] = tb
    if d["violations"]:
        rj = OUT / ("%s-%d.violation.json" % (prop, idx))
        rj.write_text(json.dumps({"kind": "python", "module": part["module"], "cls": part["cls"], "property": prop, "message": d["message"], "case": d["bad"], "description": d["desc"]}, indent=1))
        d["replay"] = str(rj)
        d["report"] = d["message"] + "\n" + d["desc"][-2500:]
    return d


def check(prop, tier):
    c = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    OUT.mkdir(exist_ok=True)
    t0 = time.time()
    results = []
    viol = None
    budget = 500 if tier == "quick" else c.get("thorough_budget", 3000)
    for i, part in enumerate(c["parts"]):
        left = budget - (time.time() - t0)
        dl = max(30, left / (len(c["parts"]) - i))
        d = (run_native if "harness" in part else run_python)(part, prop, tier, dl, i)
        d["part"] = part.get("what", part.get("mode", part.get("cls", "")))
        results.append(d)
        print("%s part %d (%s): %d executions, %d distinct states, %d transitions, %d inconclusive%s, build %.1fs run %.1fs" %
              (prop, i, d["part"], d["executions"], d["states"], d["transitions"], d["inconclusive"], ", CAPPED" if d["capped"] else "", d["build_s"], d["wall"]), flush=True)
        if d["violations"]:
            viol = d
            break
    s = lambda k: sum(int(r.get(k, 0)) for r in results)  # noqa: E731
    capped = any(r["capped"] for r in results) or viol is not None
    cov = {
        "rule": c["rule"], "states": s("states"), "transitions": s("transitions"), "traces_validated_against_impl": s("executions"),
        "nontrivial_traces": s("nontrivial"), "distinct_outcomes": s("outcomes"), "inconclusive": s("inconclusive"), "pruned_duplicates": s("pruned"),
        "exhaustive": not capped, "bounds": c["bounds"][tier],
        "samples": [x for r in results for x in r["samples"][:3]] or [{"case": "stopped by a violation before a sample was kept"}],
        "parts": [{"part": r["part"], "executions": r["executions"], "nontrivial": r["nontrivial"], "states": r["states"], "transitions": r["transitions"], "capped": r["capped"],
                   "state_table_saturated": bool(r.get("saturated")), "wall_s": round(r["wall"], 2), "tags": r["tags"], **({"space": r["space"]} if "space" in r else {})} for r in results],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": c["level"], "coverage": cov, "assumptions": c["assumptions"], "wall_s": round(time.time() - t0, 2),
          "violations": 1 if viol else 0}
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / (prop + ".json")).write_text(json.dumps(ev, indent=1))
    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if viol:
        print(viol["report"])
        print("VIOLATION property=%s replay=%s" % (prop, viol["replay"]))
        return 1
    return 0


def replay(path):
    d = json.loads(Path(path).read_text())
    b = build.Builder()
    if d["kind"] == "native":
        OUT.mkdir(exist_ok=True)
        f = OUT / "replay.tmp"
        f.write_text(d["replay_text"])
        binary = b.harness(d["harness"], d["variant"])
        scratch = explore.scratch_root()
        try:
            return subprocess.run([str(binary), "replay", "--replay", str(f), "--scratch", str(scratch)], env=harness_env()).returncode
        finally:
            subprocess.run(["rm", "-rf", str(scratch)])
    p = getattr(importlib.import_module(d["module"]), d["cls"])()
    r = explore.replay(p, p.prepare(b), d["case"])
    print("replay:", r["end"], r["msg"], "\n" + r["desc"])
    return 0 if r["end"] == "ok" else 1 if r["end"] == "violation" else 3


def setup():
    b = build.Builder()
    done = set()
    for c in CHECKS.values():
        for p in c["parts"]:
            if "harness" in p:
                k = (p["harness"], p.get("variant", "plain"))
                if k not in done:
                    done.add(k)
                    print(b.harness(*k), flush=True)
            elif (p["module"], p["cls"]) not in done:
                done.add((p["module"], p["cls"]))
                getattr(importlib.import_module(p["module"]), p["cls"])().prepare(b)
    return 0


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    try:
        if a.setup:
            sys.exit(setup())
        if a.replay:
            sys.exit(replay(a.replay))
        rc = check(a.prop, a.tier)
        build.prune()
        sys.exit(rc)
    except build.BuildError as e:
        print("BUILD-ERROR", e)
        sys.exit(3)
    except Exception as e:  # anything the check itself did wrong is no answer
        print("HARNESS-ERROR", type(e).__name__, e)
        sys.exit(3)
