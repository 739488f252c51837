#!/usr/bin/env python3-vt
"""Nothing is built: confirm that the tools the checks need are present."""
import subprocess
import sys
import z3
import cvc5
r = subprocess.call(["/opt/venv/bin/python", "-c", "import numpy, xarray, pandas, scipy, pyclipper, netCDF4"])
print("z3", z3.get_version_string(), "cvc5", cvc5.__version__, "runtime", "ok" if r == 0 else "missing")
sys.exit(r)
