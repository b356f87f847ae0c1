#!/bin/bash
# Nothing to build: the framework is Python. Check that the tools it needs are importable.
cd "$(dirname "$0")" && exec /opt/venv/bin/python -B -c '
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3, sympy, numpy, scipy
print("z3", z3.get_version_string(), "sympy", sympy.__version__, "numpy", numpy.__version__)
'
