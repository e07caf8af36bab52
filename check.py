#!/opt/venv/bin/python
"""check.py <property> : decide one property of pymech (see DESIGN.md)."""
import os
import sys

sys.dont_write_bytecode = True
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

if __name__ == "__main__":
    from vsym.runner import main

    sys.exit(main(sys.argv[1:]))
