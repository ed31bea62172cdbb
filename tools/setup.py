#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks need are present and that the instrumented build works."""
import os, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
for t in ("gcc", "gfortran", "clang", "python3"):
    if not shutil.which(t): sys.exit(f"missing tool: {t}")
print(build.asan())
