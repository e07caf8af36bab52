#!/bin/bash
# nothing to build: checks the tools the checks need
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
/opt/venv/bin/python -B - <<'P'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import attr, numpy, xarray, z3
print("numpy", numpy.__version__, "z3", z3.get_version_string())
P
