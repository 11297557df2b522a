#!/usr/bin/env python3
"""Checks that the harness builds offline and fills the build cache."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from runcheck import sh  # noqa: E402

rc, out = sh(["go", "vet", "./cmd/...", "./vh"], timeout=1500)
if rc != 0:
    sys.exit(out)
rc, out = sh(["go", "build", "-race", "std"], timeout=1500)
print(out, "ready" if rc == 0 else "no race build of the standard library")
