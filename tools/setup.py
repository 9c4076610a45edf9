#!/usr/bin/env python3
"""Checks that the tools the framework needs are there (nothing is built ahead: every check compiles /repo's current sources)."""
import shutil, subprocess, sys
miss = [t for t in ("clang-18", "llvm-link-18", "opt-18", "cbmc", "goto-cc") if shutil.which(t) is None]
r = subprocess.run(["/opt/veriftools/pyvenv/bin/python3", "-c", "import z3; print(z3.get_version_string())"], stdout=subprocess.PIPE)
if miss or r.returncode:
    print("missing:", miss, "z3" if r.returncode else "")
    sys.exit(1)
print("ready, z3", r.stdout.decode().strip())
