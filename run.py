#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse, os, sys, time, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, build
from checks import registry
from tools import props


def main():
    t0 = time.time()
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    chks = registry.get(a.pid)
    level = next(p["level"] for p in props.P if p["id"] == a.pid)
    if a.replay:
        rc = 0
        for c in chks:
            rc |= c.do_replay(a.replay) if hasattr(c, "do_replay") else core.replay(c, a.replay)
        return rc
    cov, viols, probs, assume = {}, [], [], []
    for i, c in enumerate(chks):
        if hasattr(c, "run"):
            cv, vs, pr = c.run(a.tier, a.seed)
        else:
            cv, vs, pr = core.run_check(c, a.tier, a.seed, level)
        viols += vs
        probs += pr
        assume += list(c.assumptions)
        if i == 0:
            cov = cv
        else:
            name = getattr(c, "name", c.__class__.__name__)
            cov["evaluations"] += cv.pop("evaluations", 0)
            cov["distinct_nontrivial"] += cv.pop("distinct_nontrivial", 0)
            cov["samples"] = cov.get("samples", [])[:3] + cv.pop("samples", [])[:2]
            cov["rule"] += " || " + name + ": " + cv.pop("rule", "")
            cov[name] = cv
    return core.report(a.pid, a.tier, a.seed, level, cov, viols, t0, assume, probs)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except core.HarnessError as e:
        print("HARNESS ERROR:", e)
        sys.exit(2)
    except build.BuildError as e:
        print("BUILD ERROR:", str(e)[:3000])
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
