#!/usr/bin/env python3
"""Checks that the verifiers are there; nothing has to be built ahead of the checks."""
import os, shutil, sys
missing = [t for t in ("goto-cc", "goto-instrument", "cbmc", "z3-new", "cvc5", "gcc") if not shutil.which(t)]
if missing:
    sys.exit("missing: " + " ".join(missing))
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "evidence", "replays"), exist_ok=True)
print("ok")
