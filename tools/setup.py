#!/usr/bin/env python3
"""Build every flavour of the worker once (the checks rebuild what is missing or stale)."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build

for fl in ("asan", "msan", "bin", "binm", "real", "alt"):
    try:
        print(fl, build.ensure(fl))
    except build.BuildError:
        if fl != "alt":
            raise
