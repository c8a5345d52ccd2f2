#!/usr/bin/env python3
"""python3 vf/run.py C01            run the check of one property
python3 vf/run.py --replay FILE    replay a recorded counterexample natively
python3 vf/run.py --all            every property, one after another
python3 vf/run.py --setup          check that the tools are there
Tier from VERIF_TIER (quick|thorough), jobs in parallel (VF_JOBS, default 8)."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
from checks import CHECKS

EVID = os.path.join(engine.VERIF, "evidence")
KNOWN = os.path.join(engine.VERIF, "known_findings.txt")


def known_findings(prop):
    """lines 'known: property=<id> job=<job> obligation=<text> -- <what fails>'"""
    out = []
    try:
        for line in open(KNOWN):
            if line.startswith("known: property=%s " % prop):
                out.append(line.strip())
    except OSError:
        pass
    return out


def check(prop, only=None):
    spec = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    jobs = [j for j in spec["jobs"] if j.tier == "quick" or tier == "thorough"]
    if only:
        jobs = [j for j in jobs if j.name in only]
    t0 = time.time()
    # leave room to report within the time a check is given
    engine.DEADLINE = t0 + (780 if tier == "quick" else 6 * 3600)
    results, viol, errs = [], [], []
    jobs.sort(key=lambda j: -j.weight)
    with cf.ThreadPoolExecutor(int(os.environ.get("VF_JOBS", "8"))) as ex:
        futs = {ex.submit(engine.run_job, j): j for j in jobs}
        for f in cf.as_completed(futs):
            j = futs[f]
            try:
                r = f.result()
            except Exception as e:          # an error of the check itself
                r = {"job": j.name, "verdict": "error", "error": repr(e)}
            results.append(r)
            print("  job %-28s %-9s %6.1fs  %s" % (r["job"], r["verdict"], r.get("wall_s", 0),
                  r.get("error", "") or "obligations=%d witnesses=%d/%d" % (
                      r.get("obligations", 0), r.get("witnesses_validated", 0), r.get("witnesses", 0))), flush=True)
            if r["verdict"] == "violation":
                viol.append((j, r))
                engine.CANCEL.set()
                break
            if r["verdict"] == "error":
                errs.append((j, r))
        if viol:
            for f in futs:
                f.cancel()
    engine.CANCEL.clear()
    os.makedirs(EVID, exist_ok=True)
    rc = 0
    reported = []
    for j, r in viol:
        v = r["violation"]
        rp = os.path.join(EVID, "replay", "%s-%s.json" % (prop, j.name))
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, "w") as fh:
            json.dump({"property": prop, "job": j.name, "harness": j.harness, "sources": j.srcs,
                       "defs": j.defs, **v}, fh, indent=1)
        print("  %s violated: %s" % (prop, v["description"]))
        print("    at %s" % json.dumps(v["location"]))
        print("    " + v["native_output"].strip().replace("\n", "\n    ")[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, rp), flush=True)
        reported.append(v["description"])
        rc = 1
    for line in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, line.split(" -- ", 1)[-1]))
    if not viol and errs:
        for j, r in errs:
            print("ERROR in check %s job %s: %s" % (prop, j.name, r.get("error")), file=sys.stderr)
        rc = 2
    open_jobs = [r for r in results if r["verdict"] == "undecided"]
    for r in open_jobs:
        print("  UNDECIDED job %s: %s (not part of what was explored)" % (r["job"], r["error"]))
    if rc == 0 and not [r for r in results if r["verdict"] == "ok"]:
        rc = 2
    done = [r for r in results if r["verdict"] == "ok"]
    samples = []
    for r in done:
        for s in r.get("samples", [])[:2]:
            samples.append(s)
    cov = {
        "states": sum(r.get("stats", {}).get("steps", 0) for r in done),
        "transitions": sum(r.get("stats", {}).get("vccs", 0) for r in done),
        "traces_validated_against_impl": sum(r.get("witnesses_validated", 0) for r in done) + len(viol),
        "samples": samples[:12] or [{"violations": reported}],
        "obligations": sum(r.get("obligations", 0) for r in results),
        "discharged": sum(r.get("discharged", 0) for r in results),
        "queries": sum(r.get("queries", 0) for r in results),
        "solver_seconds": round(sum(r.get("solver_s", 0) for r in results), 2),
        "functions_encoded": sorted({f for r in done for f in r.get("functions", [])}),
        "meaning": "states = SSA steps of the encoded program, transitions = verification conditions "
                   "generated from it, obligations = assertions decided by the solver over all inputs "
                   "within the bounds, traces_validated_against_impl = solver-produced traces replayed "
                   "on a native ASan/UBSan build of the same sources",
        "jobs": [{k: r.get(k) for k in ("job", "verdict", "bounds", "stubs", "sources", "obligations",
                                        "discharged", "witnesses", "witnesses_validated", "queries",
                                        "solver_s", "wall_s", "unwind", "notes", "props", "functions",
                                        "stats", "error", "violation", "unmodelled_callees") if r.get(k) not in (None, [], {})}
                 for r in sorted(results, key=lambda r: r["job"])],
        "undecided_jobs": [r["job"] for r in open_jobs],
        "exhaustive": False,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": spec.get("assumptions", []) + COMMON, "wall_s": round(time.time() - t0, 2),
          "violations": len(viol)}
    with open(os.path.join(EVID, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s: %s (%d jobs, %d obligations, %.1fs)" % (
        prop, {0: "held within the stated bounds", 1: "VIOLATED", 2: "ERROR"}[rc], len(results),
        cov["obligations"], time.time() - t0), flush=True)
    return rc


COMMON = [
    "system calls, libcurl, zstd, libcrypto primitives and clocks are replaced by nondeterministic "
    "stand-ins constrained only by their documented contract (shim/vf_*.c and the harness)",
    "malloc/calloc/realloc succeed unless a job says otherwise",
    "x86-64 Linux data model; results hold within the loop and size bounds listed per job "
    "(unwinding assertions are part of the obligations)",
    "log output is not modelled",
]


def do_replay(path):
    rec = json.load(open(path))
    job = [j for j in CHECKS[rec["property"]]["jobs"] if j.name == rec["job"]][0]
    d = tempfile.mkdtemp(prefix="vf-")
    try:
        exe = engine.build_native(job, d)
        v, txt = engine.replay(exe, rec["values"], d, "r", pad=rec.get("pad", False))
        print(txt)
        print("replay of %s/%s: %s" % (rec["property"], rec["job"], v))
        return 1 if v in ("violated", "hang") else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def setup():
    for t in (["cbmc", "--version"], ["goto-cc", "--version"], ["goto-instrument", "--version"],
              ["gcc", "--version"]):
        subprocess.run(t, check=True, stdout=subprocess.DEVNULL)
    for f in os.listdir(engine.HARN):
        if not os.path.isfile(os.path.join(engine.HARN, f)):
            return 1
    os.makedirs(EVID, exist_ok=True)
    print("ready: %d checks" % len(CHECKS))
    return 0


def main(a):
    if a and a[0] == "--setup":
        return setup()
    if a and a[0] == "--replay":
        return do_replay(a[1])
    if a and a[0] == "--all":
        bad = 0
        for p in sorted(CHECKS):
            if check(p):
                bad += 1
        return 1 if bad else 0
    if not a or a[0] not in CHECKS:
        print(__doc__)
        return 2
    return check(a[0], a[1:] or None)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
