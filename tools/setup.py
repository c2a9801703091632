#!/usr/bin/env python3
"""setup_cmd: everything a check needs is built by the check itself; here only the
tools are tried out and the specification is parsed."""
import glob
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from vlib import TLA_CP, SPEC          # noqa: E402

os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
bad = 0
for tool in (["g++", "--version"], ["java", "-version"]):
    bad |= subprocess.run(tool, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
for m in sorted(glob.glob(os.path.join(SPEC, "*.tla"))):
    r = subprocess.run(["java", "-cp", TLA_CP, "tla2sany.SANY", os.path.basename(m)], cwd=SPEC, capture_output=True, text=True)
    if r.returncode or "error" in r.stdout.lower().replace("errors: 0", ""):
        print(r.stdout[-1500:])
        bad = 1
    else:
        print("parsed", os.path.basename(m))
sys.exit(1 if bad else 0)
