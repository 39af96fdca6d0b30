#!/usr/bin/env python3
"""Verifies that the tools the checks need are present.  Checks build their own harnesses."""
import shutil, subprocess, sys
need = ["g++", "python3", "bash", "egrep"]
miss = [n for n in need if shutil.which(n) is None]
if miss:
    sys.exit("missing: " + ", ".join(miss))
subprocess.run(["g++", "--version"], check=True)
