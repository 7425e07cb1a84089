#!/usr/bin/env python3
"""Checks that the tools the checks need are there; builds nothing that has to be kept."""
import os
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
missing = [x for x in ("g++", "java", "git") if not shutil.which(x)] + [j for j in vlib.JARS.split(":") if not os.path.exists(j)]
if missing:
    sys.exit("missing: " + " ".join(missing))
for m in sorted(os.listdir(vlib.SPEC)):
    if m.endswith(".tla"):
        p = subprocess.run(["java", "-cp", vlib.JARS, "tla2sany.SANY", m], cwd=vlib.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            sys.exit("specification " + m + " does not parse:\n" + p.stdout[-2000:])
print("setup ok")
