#!/usr/bin/env python3
"""Check that the tools are there and warm the build cache of the engine."""
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
import check  # noqa: E402
from properties import HARNESSES  # noqa: E402

if check.CLINGO is None:
    print("clingo headers not found")
    sys.exit(1)
subprocess.run(["g++", "--version"], check=True, stdout=subprocess.DEVNULL)
try:
    check.build(sorted(HARNESSES))
except check.BuildError as e:
    # the checks build what they need themselves and report their own errors
    print("warning: " + str(e)[-2000:])
print("ready")
