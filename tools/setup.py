#!/usr/bin/env python3
"""Builds the harness (offline) and checks that the specification parses."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import CheckError, build  # noqa: E402

print(build())
try:
    print(build(("http",)))
except CheckError as e:
    print("the HTTP harness is left to its check: %s" % e)
