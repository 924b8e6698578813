#!/usr/bin/env python3
"""Nothing is built: verify that the interpreters the checks use are there."""
import subprocess
import sys

for py, mods in (("/opt/venv/bin/python", "numpy, scipy, astropy, sep"),
                 ("/opt/veriftools/pyvenv/bin/python", "z3, cvc5")):
    if subprocess.run([py, "-c", "import " + mods]).returncode:
        sys.exit(f"{py} cannot import {mods}")
print("ready")
