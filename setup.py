#!/usr/bin/env python3
"""Checks that the tools are there and the specification parses; every check
builds what it needs itself."""
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import check  # noqa: E402

with tempfile.TemporaryDirectory() as tmp:
    for m in ("Trace", "MCSyntax", "MCBuild", "MCHist", "MCConc", "MCRows", "MCFlat", "MCInterp"):
        p = subprocess.run(["java", "-Dfile.encoding=UTF-8", "-cp", check.JARS, "tla2sany.SANY", os.path.join(check.SPEC, m + ".tla")],
                           cwd=check.SPEC, capture_output=True, text=True)
        if p.returncode != 0 or "Semantic errors" in p.stdout or "*** Errors" in p.stdout:
            sys.exit(p.stdout + p.stderr)
    check.build_driver(tmp)
print("ready")
