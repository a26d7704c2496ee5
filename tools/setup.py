"""setup: nothing to build ahead of time; checks that the tools are there"""
import shutil
import sys

missing = [t for t in ("clang++-18", "opt-18", "gfortran", "g++", "m4") if not shutil.which(t)]
import z3  # noqa

if missing:
    print("missing tools:", missing)
    sys.exit(1)
