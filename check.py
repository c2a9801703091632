#!/usr/bin/env python3
"""python3 check.py --prop C01 [--tier quick|thorough]"""
import argparse
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import checks          # noqa: E402
from vlib import CheckError, Outcome, log, work_dir          # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    outc = Outcome()
    work = work_dir("%s-%s" % (a.prop, a.tier))
    try:
        checks.run(a.prop, a.tier, seed, outc, work)
    except CheckError as e:
        log("CHECK ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    wall = time.time() - t0
    checks.write_evidence(a.prop, a.tier, seed, outc, wall)
    for k in dict.fromkeys(outc.known):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k))
    for n in outc.notes:
        log("note: " + n)
    if outc.violations:
        d = os.path.join(os.environ.get("VERIF_WORK") or VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for n, v in enumerate(outc.violations):
            path = os.path.join(d, "%s-%d.json" % (a.prop, n))
            with open(path, "w") as f:
                json.dump(v, f, indent=1, default=str)
            log(json.dumps({k: v.get(k) for k in ("kind", "what", "rejected_call", "observed", "note")}, default=str)[:1500])
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    print("%s: held on %d calls in %d validated traces, %d model states, %.1fs" % (a.prop, outc.events, outc.traces, outc.states, wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
