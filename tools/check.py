#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's working tree (tier and seed from the environment)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from suites import FEATURES, SUITES  # noqa: E402
from vp import CheckError, Run  # noqa: E402


def main():
    prop = sys.argv[1]
    run = Run(prop, FEATURES.get(prop, ()))
    try:
        return SUITES[prop](run)
    except CheckError as e:
        sys.stderr.write("check error: %s\n" % e)
        return run.report() or 2


if __name__ == "__main__":
    sys.exit(main())
