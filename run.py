#!/usr/bin/env python3
"""run.py <property> [quick|thorough] -- decide one property for the code now in /repo."""
import json, os, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from engines import n as N  # noqa: E402
from tools.levels import LEVELS  # noqa: E402
try:
    from engines import v as V
except ImportError:
    V = None
try:
    from engines import k as K
except ImportError:
    K = None


def known(prop):
    out = []
    with open(os.path.join(VERIF, "KNOWN_FINDINGS")) as f:
        for l in f:
            if l.startswith("known: property=%s " % prop):
                out.append(l.strip()[len("known: "):])
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    budget = 820 if tier == "quick" else 7000
    log, res = [], {}

    def nthread():
        err = N.build(log, prop)
        res["nbuild_s"] = round(time.time() - t0, 1)
        if err is not None:
            res["n"] = {"status": "error", "message": "the native contract crate does not build against /repo:\n" + err}
            return
        res["n"] = N.run(prop, tier, seed, max(60, budget - (time.time() - t0)))

    def vthread():
        try:
            res["v"] = V.run(prop, tier, budget - 20) if V else None
        except Exception as e:  # an internal error of the engine is never an alarm
            import traceback
            res["v"] = {"status": "undecided", "reason": "engine error: " + traceback.format_exc()[-2000:]}

    def kthread():
        try:
            res["k"] = K.run(prop, tier, budget - 20) if K else None
        except Exception:
            import traceback
            res["k"] = {"status": "undecided", "reason": "engine error: " + traceback.format_exc()[-2000:]}

    ts = [threading.Thread(target=f) for f in (nthread, vthread, kthread)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    n, v, k = res["n"], res.get("v"), res.get("k")
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, prop + ".json")
    proofs = [x for x in (v, k) if x]
    failed = [f for x in proofs for f in x.get("failed", [])]
    undecided = [u for x in proofs for u in x.get("undecided", [])] + \
                [{"fn": "*", "reason": x["reason"]} for x in proofs if x["status"] == "undecided" and x.get("reason")]
    if failed and n["status"] == "ok":  # look harder for a failing input before reporting a failed obligation without one
        n2 = N.run(prop, tier, seed + 1000003, max(30, min(240, budget - (time.time() - t0))), mul=6)
        if n2["status"] == "fail":
            n = res["n"] = n2
    replayed = [f for f in failed if f.get("counterexample_replayed")]
    violation = None
    if n["status"] == "fail":
        violation = ""
    elif replayed:
        violation = ""
    elif failed:
        violation = " no-failing-input-found"
    write_evidence(prop, tier, seed, n, v, k, failed, undecided, violation is not None, time.time() - t0, res)
    for u in undecided:
        print("UNDECIDED property=%s fn=%s reason=%s" % (prop, u["fn"], u["reason"].splitlines()[-1][:200] if u["reason"] else ""))
    for l in known(prop):
        print("KNOWN-FINDING: " + l)
    if violation is not None:
        json.dump({"property": prop, "seed": seed, "tier": tier,
                   "failing_input": n.get("failure"), "replay_cmd": " ".join(n.get("cmd", [])),
                   "failed_obligations": failed, "undecided": undecided}, open(rpath, "w"), indent=1)
        print("VIOLATION property=%s replay=%s%s" % (prop, rpath, violation))
        return 1
    if n["status"] == "error":
        print("ERROR: " + n["message"])
        return 2
    print("PASS property=%s obligations=%d discharged=%d evaluations=%d" % (
        prop, sum(x.get("obligations", 0) for x in proofs), sum(x.get("discharged", 0) for x in proofs), n["evaluations"]))
    return 0


def write_evidence(prop, tier, seed, n, v, k, failed, undecided, viol, wall, res):
    proofs = [x for x in (v, k) if x]
    cov = {}
    if proofs:
        cov["obligations"] = sum(x.get("obligations", 0) for x in proofs)
        cov["discharged"] = sum(x.get("discharged", 0) for x in proofs)
        cov["checker_cmd"] = "; ".join(x.get("cmd", "") for x in proofs if x.get("cmd"))
        cov["trusted_base"] = [t for x in proofs for t in x.get("trusted", [])]
        cov["functions_under_contract"] = [t for x in proofs for t in x.get("functions", [])]
        cov["failed_obligations"] = failed
        cov["undecided"] = undecided
        cov["solver"] = [x.get("solver") for x in proofs if x.get("solver")]
        cov["vacuity_guards"] = [x.get("vacuity") for x in proofs if x.get("vacuity")]
        cov["extraction"] = [x.get("extraction") for x in proofs if x.get("extraction")]
    cov["bounded_stand_in"] = {
        "what": "executable contracts on the real crate, bounded (not counted as proved)",
        "status": n["status"], "cmd": " ".join(n.get("cmd", [])), "iterations": n.get("iters"),
        "failure": n.get("failure")}
    cov["evaluations"] = n.get("evaluations", 0)
    cov["distinct_nontrivial"] = n.get("distinct", 0)
    cov["rule"] = "inputs generated from VERIF_SEED and enumerated small cases; counted distinct by (test, input bytes), up to 3,000,000"
    cov["samples"] = n.get("samples", []) or ["none"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVELS[prop][0],
          "coverage": cov,
          "assumptions": [a for x in proofs for a in x.get("assumptions", [])] + [
              "engine N is bounded: it explores generated and enumerated inputs only"],
          "wall_s": round(wall, 1), "violations": 1 if viol else 0}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
