#!/opt/venv/bin/python
"""
check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Exit status: 0 if the property held on everything explored, 1 if it did not,
2 if the check itself failed.
"""
import argparse
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))

import checks  # noqa: E402
import framework  # noqa: E402


def main():
    p = argparse.ArgumentParser()
    p.add_argument("property", choices=sorted(checks.CHECKS))
    p.add_argument("--tier", default=None)
    p.add_argument("--seed", default=None)
    p.add_argument("--replay")
    a = p.parse_args()
    ck = framework.Check(a.property, a.tier, a.seed)
    module = checks.MODULES.get(a.property, "Trace")
    try:
        if a.replay:
            ck.replay = a.replay
            with open(a.replay) as f:
                replay = json.load(f)
            case = replay["case"]
            if case["kind"] == "note":
                print("run the check: " + case["note"])
                checks.CHECKS[a.property](ck)
                ck.cases = []
                return ck.report()
            ck.add(case.get("family", "replay"), framework.again(case))
            ck.validate(module)
            return ck.report()
        checks.CHECKS[a.property](ck)
        ck.validate(module)
        return ck.finish()
    except framework.MachineryError as e:
        print("MACHINERY ERROR: %s" % e)
        return 2
    finally:
        ck.cleanup()


if __name__ == "__main__":
    sys.exit(main())
