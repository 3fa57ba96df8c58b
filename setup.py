#!/usr/bin/env python3
"""Offline setup: checks the tools and warms the object cache (checks rebuild whatever changed)."""
import glob, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build  # noqa: E402

try:
    for h in sorted(glob.glob(os.path.join(HERE, "harness", "C*.cpp"))):
        build.build(os.path.basename(h)[:-4])
except build.BuildError as e:
    print(e)
    sys.exit(1)
print("setup done")
