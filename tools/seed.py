"""Makes and confirms a planted change: tools/seed.py FILE.py...

Each FILE.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(path, old, new)] and ends with the
demonstration after a line '# --- demo ---'.  The change is confirmed in a scratch copy of /repo:
it builds, passes the stable tests, and the demonstration passes without it and fails with it.
"""

import difflib
import json
import os
import shutil
import subprocess
import sys
import tempfile

REPO = "/repo"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO = """#!/bin/bash
# run in the repository, after it was built
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True)


def main(path):
    text = open(path).read()
    head, demo = text.split("# --- demo ---\n")
    ns = {}
    exec(head, ns)
    out = os.path.join(HERE, "seeded", ns["ID"])
    work = tempfile.mkdtemp(prefix="seed-")
    try:
        tree = os.path.join(work, "repo")
        shutil.copytree(REPO, tree, symlinks=True)
        patch = ""
        for file, old, new in ns["EDITS"]:
            src = open(os.path.join(tree, file)).read()
            assert src.count(old) == 1, (ns["ID"], file, src.count(old), old)
            dst = src.replace(old, new)
            patch += "".join(difflib.unified_diff(src.splitlines(True), dst.splitlines(True), "a/" + file, "b/" + file))
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(patch)
        open(os.path.join(out, "demo.py"), "w").write(demo)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        r0 = sh(f"bash {out}/demo.sh", tree)
        a = sh(f"git apply {out}/patch.diff", tree)
        r1 = sh(f"bash {out}/demo.sh", tree)
        t = sh(f"PYTHONPATH={tree}/src {PY} -m pytest -q -p no:cacheprovider tests 2>&1 | tail -4", tree)
        ok = r0.returncode == 0 and a.returncode == 0 and r1.returncode != 0 and "8 passed" in t.stdout
        print(ns["ID"], ns["PROPERTY"], "OK" if ok else "BAD", "clean", r0.returncode, "apply", a.returncode, "patched", r1.returncode,
              "| tests:", t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:])
        if not ok:
            print(r0.stdout[-500:], r0.stderr[-800:], a.stderr[-300:], r1.stdout[-300:])
        # blame: only lines of the original repository may be changed
        base = subprocess.run(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
        for file, old, new in ns["EDITS"]:
            src = open(os.path.join(REPO, file)).read()
            removed = [ln[1:] for ln in difflib.ndiff(old.splitlines(), new.splitlines()) if ln.startswith("- ")]
            orig = subprocess.run(["git", "-C", REPO, "show", f"{base}:{file}"], capture_output=True, text=True).stdout
            if not any(ln[1:].strip() and ln[1:].strip() in orig for ln in removed):
                print("  WARNING: changes no original line:", ns["ID"], removed)
    finally:
        shutil.rmtree(work)


for p in sys.argv[1:]:
    main(p)
