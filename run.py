#!/usr/bin/env python3
"""Decides one property:  run.py <property> [--replay FILE]   (VERIF_TIER=quick|thorough, VERIF_SEED=n)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
import checks


def main():
    if sys.argv[1:2] == ["--setup"]:
        c = vlib.Ctx("setup", "quick", 1)
        try:
            c.build()
        finally:
            c.close()
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    c = vlib.Ctx(prop, tier, seed)
    rc = 0
    try:
        if "--replay" in sys.argv:
            checks.replay(c, json.load(open(sys.argv[sys.argv.index("--replay") + 1])))
        else:
            checks.CHECKS[prop](c)
            for line in checks.known(prop):
                print("KNOWN-FINDING: property=%s %s" % (prop, line))
        c.evidence(0)
        print("OK property=%s traces=%d states=%d" % (prop, c.traces, c.states))
    except vlib.Violation as v:
        c.evidence(1)
        print(v.what)
        print("VIOLATION property=%s replay=%s" % (prop, v.replay))
        rc = 1
    except vlib.CheckError as e:
        print("CHECK ERROR (no verdict): %s" % e, file=sys.stderr)
        rc = 2
    finally:
        c.close()
    return rc


if __name__ == "__main__":
    sys.exit(main())
