"""Runs harnesses concretely against the real, unmodified pymech.

Server: reads one JSON request per line on stdin ({module, scenario, values}),
answers one JSON line.  Command line: replay.py FILE re-runs a saved violation.
"""

import importlib
import json
import os
import shutil
import sys
import tempfile
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup():
    sys.dont_write_bytecode = True
    repo = os.environ.get("PYMECH_REPO", "/repo")
    src = os.path.join(repo, "src")
    sys.path.insert(0, src)
    sys.path.insert(0, HERE)
    import types

    if not os.path.exists(os.path.join(src, "pymech", "_version.py")):
        m = types.ModuleType("pymech._version")
        m.__version__ = "0"
        m.version = "0"
        sys.modules["pymech._version"] = m
    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    from vsym import stubs

    stubs.install_concrete()


def run(module, scenario, values):
    from vsym.env import AssumptionFailed, ConcEnv

    h = importlib.import_module("harness." + module)
    fn, params = h.SCENARIOS[scenario][:2]
    base = os.environ.get("VSYM_SCRATCH") or None
    scratch = tempfile.mkdtemp(prefix="vsym_", dir=base)
    env = ConcEnv(values, scratch)
    try:
        import numpy as np

        with np.errstate(all="ignore"):
            fn(env, **params)
        st = {"status": "fail" if env.failures else "ok", "msg": "; ".join(env.failures[:4])}
    except AssumptionFailed as e:
        # what already failed before stays a failure of the real code
        st = {"status": "fail" if env.failures else "assume", "msg": "; ".join(env.failures[:4]) or str(e)}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.basename(f.filename)}:{f.lineno} in {f.name}" for f in reversed(tb) if "pymech" in f.filename), "")
        inpm = any(os.sep + "pymech" + os.sep in f.filename for f in tb)
        st = {"status": "exc", "msg": f"{type(e).__name__}: {e} ({where})", "in_pymech": inpm}
        if not inpm:
            st["tb"] = traceback.format_exc()[-1500:]
            # the property could not even be looked at: the result does not have the form it describes
            st["misshapen"] = isinstance(e, (IndexError, KeyError, TypeError)) and os.sep + "vsym" + os.sep not in tb[-1].filename
            if isinstance(e, AttributeError) and type(e.obj).__module__.split(".")[0] == "pymech" and not str(e.name).startswith("_"):
                # an object without one of its documented attributes
                st["misshapen"] = True
            if isinstance(e, AttributeError) and type(e.obj) in (int, float, bool, str, type(None)) and os.sep + "vsym" + os.sep not in tb[-1].filename:
                # a plain value where an object was promised
                st["misshapen"] = True
        if env.failures:
            # what failed before the exception stays a failure of the real code
            st.update(status="fail", msg="; ".join(env.failures[:4]) + f"; then {type(e).__name__}: {e}")
    finally:
        for u in env.undo:
            u()
        shutil.rmtree(scratch, ignore_errors=True)
    st["checks"] = env.nchecks
    return st


def handle(conn):
    f = conn.makefile("rw")
    f.write(json.dumps({"pid": os.getpid()}) + "\n")
    f.flush()
    for line in f:
        rq = json.loads(line)
        try:
            r = run(rq["module"], rq["scenario"], rq["values"])
        except BaseException as e:  # noqa: BLE001
            r = {"status": "error", "msg": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-1500:], "checks": 0}
        f.write(json.dumps(r) + "\n")
        f.flush()


def serve(sockpath, parent):
    """fork one child per connection; ends when the parent is gone"""
    import signal
    import socket

    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    s = socket.socket(socket.AF_UNIX)
    try:
        setup()
        import pymech  # noqa: F401  (imported once, shared by the children)
    except BaseException as e:  # noqa: BLE001
        with open(sockpath + ".err", "w") as fp:
            fp.write(f"{type(e).__name__}: {e}")
    s.bind(sockpath)
    s.listen(64)
    s.settimeout(1.0)
    while os.getppid() == parent:
        try:
            conn, _ = s.accept()
        except TimeoutError:
            continue
        pid = os.fork()
        if pid == 0:
            s.close()
            conn.settimeout(None)
            try:
                handle(conn)
            finally:
                os._exit(0)
        conn.close()


if __name__ == "__main__":
    if sys.argv[1] == "--serve":
        serve(sys.argv[2], os.getppid())
    else:
        setup()
        with open(sys.argv[1]) as fp:
            rq = json.load(fp)
        r = run(rq["module"], rq["scenario"], rq["values"])
        print(json.dumps(r, indent=1))
        sys.exit(0 if r["status"] == "ok" else 1)
