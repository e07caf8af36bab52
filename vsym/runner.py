"""Explores the scenarios of one property, discharges its assertions with the
solver, replays models against the real code, and writes the evidence."""

import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import socket
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GRACE = float(os.environ.get("VSYM_GRACE", "15"))  # how long to go on after a violation
EVID = os.path.join(HERE, "evidence")


# ---------------------------------------------------------------------------
# the real code, in another process
# ---------------------------------------------------------------------------
class Replayer:
    def __init__(self, sock, timeout=60.0):
        self.sock = sock
        self.timeout = timeout
        self.f = None

    def _connect(self):
        t0 = time.monotonic()
        while True:
            s = socket.socket(socket.AF_UNIX)
            try:
                s.connect(self.sock)
                break
            except OSError:
                s.close()
                if time.monotonic() - t0 > 60:
                    raise RuntimeError("replay server does not answer")
                time.sleep(0.05)
        s.settimeout(self.timeout)
        self.s = s
        self.f = s.makefile("rw")
        self.pid = json.loads(self.f.readline())["pid"]

    def run(self, module, scenario, values):
        for attempt in range(2):
            try:
                if self.f is None:
                    self._connect()
                self.f.write(json.dumps({"module": module, "scenario": scenario, "values": values}) + "\n")
                self.f.flush()
                line = self.f.readline()
                if not line:
                    raise EOFError
                return json.loads(line)
            except (TimeoutError, OSError) as e:
                self._drop()
                if attempt or not isinstance(e, TimeoutError):
                    return {"status": "hang", "msg": f"no answer within {self.timeout:.0f} s", "checks": 0}
            except EOFError:
                self._drop()
                if attempt:
                    return {"status": "crash", "msg": "the process died", "checks": 0}

    def _drop(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        self.f = None


# ---------------------------------------------------------------------------
# models
# ---------------------------------------------------------------------------
def value_of(model, kind, term):
    import z3

    v = model.eval(term, model_completion=True)
    if kind == "real":
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        if z3.is_algebraic_value(v):
            return float(v.approx(20).as_fraction())
        return 0.0
    return v.as_long()


def values_of(c, model):
    return {n: value_of(model, k, t) for n, (k, t, _e) in c.inputs.items()}


def random_value(rng, kind, extra):
    if kind == "real":
        lo, hi = extra if extra else (-100.0, 100.0)
        lo = -100.0 if lo is None else lo
        hi = 100.0 if hi is None else hi
        return rng.uniform(lo, hi)
    if kind in ("int", "str"):
        return rng.randint(extra[0], extra[1])
    if kind == "bits64":
        import struct

        return struct.unpack("<Q", struct.pack("<d", rng.uniform(-50, 50)))[0]
    import struct

    return struct.unpack("<I", struct.pack("<f", rng.uniform(-50, 50)))[0]


def term_value(kind, v):
    import z3

    if kind == "real":
        f = Fraction(v)
        return z3.Q(f.numerator, f.denominator)
    if kind == "bits64":
        return z3.BitVecVal(v, 64)
    if kind == "bits32":
        return z3.BitVecVal(v, 32)
    return z3.IntVal(v)


def diversify(c, rng, budget_s=1.0):
    """a model of the path condition whose inputs are as arbitrary as the path allows"""
    import z3

    t0 = time.monotonic()
    names = list(c.inputs)
    cand = {n: random_value(rng, c.inputs[n][0], c.inputs[n][2]) for n in names}
    s = c.solver
    s.push()
    model = None
    try:
        s.set("timeout", 1500)
        ass = {n: c.inputs[n][1] == term_value(c.inputs[n][0], cand[n]) for n in names}

        def attempt(group):
            nonlocal model
            if not group or time.monotonic() - t0 > budget_s:
                return
            s.push()
            for n in group:
                s.add(ass[n])
            r = s.check()
            c.queries += 1
            if r == z3.sat:
                model = s.model()
                # keep the constraints: pop and re-add at the outer level
                s.pop()
                for n in group:
                    s.add(ass[n])
                return
            s.pop()
            if len(group) > 1:
                h = len(group) // 2
                attempt(group[:h])
                attempt(group[h:])

        order = names[:]
        rng.shuffle(order)
        attempt(order)
        if model is None:
            s.set("timeout", c.query_ms)
            if s.check() == z3.sat:
                model = s.model()
    finally:
        s.pop()
        s.set("timeout", c.query_ms)
    c.solver_s += time.monotonic() - t0
    return values_of(c, model) if model is not None else None


class _Alarm(BaseException):
    pass


# ---------------------------------------------------------------------------
# one scenario
# ---------------------------------------------------------------------------
def explore(task):
    (module, name, opt) = task
    sys.dont_write_bytecode = True
    from vsym import core, files, loader, stubs
    from vsym.env import SymEnv

    loader.install(stubs.modules_sym())
    res = {"scenario": name, "paths": 0, "infeasible": 0, "decisions": 0, "checks": 0, "queries": 0, "solver_s": 0.0,
           "unknown": 0, "validated": 0, "violations": [], "inconclusive": [], "notes": [], "incomplete": None,
           "samples": [], "modules": {}, "errors": [], "reached": 0}
    t0 = time.monotonic()
    try:
        h = importlib.import_module("harness." + module)
    except BaseException as e:  # noqa: BLE001
        res["inconclusive"].append(f"loading failed: {type(e).__name__}: {e}")
        res["wall"] = time.monotonic() - t0
        return res
    ent = h.SCENARIOS[name]
    fn, params = ent[:2]
    sopt = ent[2] if len(ent) > 2 else {}
    rng = random.Random(f"{opt['seed']}/{module}/{name}")
    c = core.Ctx(opt["seed"], query_ms=sopt.get("query_ms", 20000))
    budget = sopt.get("budget", opt["budget"])
    c.discharge_s = budget / 2
    c.deadline = t0 + budget
    rp = Replayer(opt["sock"])
    stack = [[]]

    def on_alarm(*_):
        raise core.Budget("one path took too long")

    signal.signal(signal.SIGALRM, on_alarm)

    def replay(values):
        return rp.run(module, name, values)

    def judge(values, why):
        """run the real code on values; record a violation if it is one"""
        r = replay(values)
        if r["status"] in ("fail", "hang", "crash") or (r["status"] == "exc" and (r.get("in_pymech") or r.get("misshapen"))):
            res["violations"].append({"scenario": name, "values": values, "msg": r["msg"], "found_by": why, "status": r["status"]})
            return "violation"
        if r["status"] in ("error", "exc"):
            res["errors"].append(r.get("tb") or r["msg"])
            return "error"
        return r["status"]

    nviol = 0
    while stack:
        if time.monotonic() - t0 > budget:
            res["incomplete"] = f"time budget of {budget:.0f} s used, {len(stack)} prefixes left"
            break
        prefix = stack.pop()
        c.start_path(prefix)
        files.VFS.clear()
        files.VFS_LIMIT.clear()
        loader.fresh()
        env = SymEnv(c)
        status, msg = "ok", ""
        signal.setitimer(signal.ITIMER_REAL, sopt.get("path_s", opt["path_s"]))
        try:
            try:
                fn(env, **params)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except core.AssumeFailed:
            status = "infeasible"
        except core.Budget as e:
            status, msg = "budget", str(e)
        except core.Unsupported as e:
            status, msg = "unsupported", str(e)
        except Exception as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            where = next((f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb) if "pymech" in f.filename), "?")
            status, msg = "exception", f"{type(e).__name__}: {e} ({where})"
            if opt.get("debug"):
                traceback.print_exc()
        except BaseException as e:  # noqa: BLE001
            status, msg = "unsupported", f"{type(e).__name__}: {e}"
        stack.extend(c.pending)
        res["decisions"] += len(c.trace)
        for n in c.approx:
            if n not in res["notes"]:
                res["notes"].append(n)
        if status == "infeasible":
            res["infeasible"] += 1
            continue
        res["paths"] += 1
        deadline, c.deadline = c.deadline, None
        try:
            if status != "ok":
                res["inconclusive"].append(f"path not encoded: {status}: {msg}")
            if c.checks:
                # also for a path that was left early: what was asserted before that is decided
                res["reached"] += status == "ok"
                res["checks"] += len(c.checks)
                bad = discharge(c, res)
                for values, label in bad:
                    v = judge(values, f"solver counterexample to: {label}")
                    if v != "violation":
                        # a second, differently chosen counterexample before giving up
                        res["inconclusive"].append(f"counterexample to '{label}' not reproduced by the real code ({v})")
                        if opt.get("debug"):
                            print("NOT REPRODUCED", name, label, str(values)[:300])
                    else:
                        break
            # every path also gets a witness run on the real code
            tries = opt["witnesses"] if status == "ok" else 4
            for _ in range(tries):
                w = diversify(c, rng)
                if w is None:
                    if status == "ok":
                        try:
                            w = values_of(c, c.get_model())
                        except BaseException:  # noqa: BLE001
                            break
                    else:
                        break
                v = judge(w, "witness of a path")
                if v == "ok":
                    res["validated"] += 1
                    if len(res["samples"]) < 2:
                        res["samples"].append({"scenario": name, "values": dict(list(w.items())[:12])})
                elif v == "assume":
                    res["notes"].append("a witness violated an assumption after rounding to floats") if len(res["notes"]) < 20 else None
        except core.PathAbort:
            pass
        except core.Unsupported as e:
            res["inconclusive"].append(f"discharge: {e}")
        finally:
            c.deadline = deadline
        if len(res["violations"]) > nviol:
            nviol = len(res["violations"])
            budget = min(budget, time.monotonic() - t0 + GRACE)
            if nviol >= 3 and not opt.get("keep_going"):
                res["incomplete"] = "stopped after 3 violations"
                break
    res["queries"] = c.queries
    res["solver_s"] = round(c.solver_s, 3)
    res["unknown"] = c.unknown
    res["modules"] = {k: v[1] for k, v in loader.LOADED.items()}
    res["wall"] = round(time.monotonic() - t0, 2)
    if rp.f is not None:
        rp.s.close()
    if res["inconclusive"]:
        res["inconclusive"] = dedup(res["inconclusive"])
    return res


def dedup(xs, n=12):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out[:n]


def discharge(c, res):
    """solve the assertions of a finished path; returns [(values, label)] for failing ones"""
    import z3

    todo = []
    for label, cond, strong, exact in c.checks:
        s = z3.simplify(cond)
        if z3.is_true(s):
            continue
        if exact is not None and z3.is_true(z3.simplify(exact)):
            continue
        todo.append((label, s, strong, exact))
    if not todo:
        # the path itself must be feasible for its assertions to mean anything
        return []
    bad = []

    def solve(cond):
        r = c._check(cond)
        return r

    neg = z3.Or(*[z3.Not(e if e is not None else s) for _l, s, _st, e in todo])
    r = solve(neg)
    if r == z3.unsat:
        return []
    labels_done = set()
    t_end = time.monotonic() + c.discharge_s
    for label, cond, strong, exact in todo:
        if label in labels_done:
            continue
        if time.monotonic() > t_end:
            res["inconclusive"].append("solver ran out of time on the assertions of a path")
            break
        m = None
        r = z3.unknown
        if exact is not None:
            if solve(z3.Not(exact)) == z3.unsat:
                continue
        if strong is not None:
            r = solve(z3.Not(strong))
            if r == z3.sat:
                m = c.solver.model()
        if m is None:
            r = solve(z3.Not(cond))
            if r == z3.unsat:
                continue
            if r == z3.sat:
                m = c.solver.model()
        if m is None:
            res["inconclusive"].append(f"solver gave no answer for '{label}'")
            continue
        labels_done.add(label)
        bad.append((values_of(c, m), label))
        if len(bad) >= 4:
            break
    return bad


# ---------------------------------------------------------------------------
def start_server(tmp):
    sock = os.path.join(tmp, "replay.sock")
    env = dict(os.environ, VSYM_SCRATCH=tmp, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    p = subprocess.Popen([sys.executable, os.path.join(HERE, "vsym", "replay.py"), "--serve", sock],
                         env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                         stderr=subprocess.DEVNULL if not os.environ.get("VSYM_DEBUG") else None)
    return p, sock


def load_known(pid):
    """entries of known_findings.txt that suppress something (not the fixed ones)"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as fp:
            for line in fp:
                line = line.strip()
                if line.startswith("{"):
                    e = json.loads(line)
                    if e.get("property") == pid and e.get("status") == "open":
                        out.append(e)
    return out


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--debug", action="store_true")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VSYM_JOBS", "8")))
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args(argv)
    pid = a.property
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.monotonic()
    from vsym import registry

    ent = registry.PROPS[pid]
    module = ent["module"]
    tmp = tempfile.mkdtemp(prefix="vsym_")
    os.environ["VSYM_TIER"] = tier
    srv, sock = start_server(tmp)
    opt = {"seed": seed, "sock": sock, "debug": a.debug, "budget": 150.0 if tier == "quick" else 600.0,
           "path_s": 60.0 if tier == "quick" else 120.0, "witnesses": 1 if tier == "quick" else 3}
    # scenario names come from a fork so that this process stays free of the shims
    results = []
    crashed = None
    try:
        with mp.get_context("fork").Pool(1) as p0:
            names = p0.apply(scenario_names, (module, pid, tier))
        if a.list:
            print("\n".join(names))
            return 0
        if a.only:
            names = [n for n in names if (n == a.only[1:] if a.only.startswith("=") else a.only in n)]
        tasks = [(module, n, opt) for n in names]
        limit = [t0 + (450 if tier == "quick" else 3 * 3600)]
        known = load_known(pid)
        for r0 in run_all(tasks, a.jobs, limit):
            results.append(r0)
            if any(not any(matches(e, v) for e in known) for v in r0["violations"]):
                # the answer is known; the other scenarios get a little longer
                limit[0] = min(limit[0], time.monotonic() + GRACE)
            if a.debug:
                print(f"{r0['scenario']}: paths={r0['paths']} checks={r0['checks']} q={r0['queries']} solver={r0['solver_s']}s wall={r0.get('wall')} val={r0['validated']} viol={len(r0['violations'])} inc={r0['inconclusive'][:2]} {r0['incomplete'] or ''}", flush=True)
        order = {n: i for i, n in enumerate(names)}
        results.sort(key=lambda r: order[r["scenario"]])
    finally:
        srv.kill()
        srv.wait()
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)
    return report(pid, ent, module, tier, seed, results, time.monotonic() - t0, a)


def _child(conn, task):
    try:
        r = explore(task)
    except BaseException as e:  # noqa: BLE001
        r = blank(task[1], f"{type(e).__name__}: {e}")
    conn.send(r)
    conn.close()
    os._exit(0)


def run_all(tasks, jobs, limit):
    """each scenario in a process of its own; a process that dies costs one result"""
    from multiprocessing.connection import wait

    ctx = mp.get_context("fork")
    todo = list(tasks)[::-1]
    live = {}
    while todo or live:
        while todo and len(live) < max(1, jobs):
            t = todo.pop()
            mine, theirs = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(theirs, t), daemon=True)
            p.start()
            theirs.close()
            live[mine] = (t[1], p)
        ready = wait(list(live), timeout=max(0.1, min(5.0, limit[0] - time.monotonic())))
        for conn in ready:
            name, p = live.pop(conn)
            try:
                r = conn.recv()
            except Exception as e:  # noqa: BLE001
                r = blank(name, f"the process of this scenario ended ({type(e).__name__})")
            conn.close()
            p.join(5)
            yield r
        if time.monotonic() > limit[0]:
            for conn, (name, p) in list(live.items()):
                p.kill()
                yield blank(name, "no answer within the time limit")
            for t in todo:
                yield blank(t[1], "no answer within the time limit")
            return


def blank(name, why):
    return {"scenario": name, "paths": 0, "infeasible": 0, "decisions": 0, "checks": 0, "queries": 0, "solver_s": 0.0,
            "unknown": 0, "validated": 0, "violations": [], "inconclusive": [why], "notes": [], "incomplete": why,
            "samples": [], "modules": {}, "errors": [], "reached": 0}


def scenario_names(module, pid, tier):
    sys.dont_write_bytecode = True
    from vsym import loader, stubs

    loader.install(stubs.modules_sym())
    h = importlib.import_module("harness." + module)
    out = []
    for n, ent in h.SCENARIOS.items():
        o = ent[2] if len(ent) > 2 else {}
        if o.get("prop", pid) != pid:
            continue
        if o.get("tier") == "thorough" and tier != "thorough":
            continue
        out.append((o.get("cost", 1), n))
    out.sort(key=lambda x: -x[0])
    return [n for _c, n in out]


def matches(entry, v):
    """a known finding is identified by scenario and, where given, input values and message"""
    if entry.get("scenario") and entry["scenario"] != v["scenario"]:
        return False
    for k, want in (entry.get("values") or {}).items():
        if v["values"].get(k) != want:
            return False
    return (entry.get("message") or "") in v["msg"]


def report(pid, ent, module, tier, seed, results, wall, a):
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    for f in os.listdir(os.path.join(EVID, "replay")):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(EVID, "replay", f))
    known = load_known(pid)
    viol, seen_known = [], []
    for r in results:
        for v in r["violations"]:
            k = next((e for e in known if matches(e, v)), None)
            if k is not None:
                if k not in seen_known:
                    seen_known.append(k)
                continue
            viol.append(v)
    tot = {k: sum(r[k] for r in results) for k in ("paths", "infeasible", "decisions", "checks", "queries", "validated", "unknown", "reached")}
    solver_s = round(sum(r["solver_s"] for r in results), 2)
    inconc = dedup([f"{r['scenario']}: {m}" for r in results for m in r["inconclusive"]], 40)
    incomplete = [f"{r['scenario']}: {r['incomplete']}" for r in results if r["incomplete"]]
    errors = dedup([e for r in results for e in r["errors"]], 6)
    vac = [r["scenario"] for r in results if r["paths"] and not r["reached"] and not r["inconclusive"]]
    dead = [r["scenario"] for r in results if not r["paths"] and not r["inconclusive"]]
    mods = {}
    for r in results:
        mods.update(r["modules"])
    notes = dedup([n for r in results for n in r["notes"]], 20)
    samples = [s for r in results for s in r["samples"]][:5]
    if viol:
        samples = [{"scenario": v["scenario"], "values": v["values"], "msg": v["msg"]} for v in viol[:3]] + samples
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["decisions"], "traces_validated_against_impl": tot["validated"],
            "samples": samples or [{"note": "no path was completed"}],
            "exhaustive": not incomplete and not inconc and not vac,
            "explanation": "states = symbolic paths of the real source executed to the end (each stands for every input that follows it); "
                           "transitions = solver-decided branch decisions along them; assertions are decided by the solver for all inputs of a path; "
                           "traces_validated = runs of the unmodified code on solver models of those paths whose assertions all held concretely",
            "scenarios": len(results), "assertions": tot["checks"], "solver_queries": tot["queries"], "solver_seconds": solver_s,
            "unknown_answers": tot["unknown"], "infeasible_paths": tot["infeasible"],
            "functions_encoded": ent["functions"], "modules_encoded": mods, "bounds": ent["bounds"], "outside": ent["outside"],
            "inconclusive": inconc, "incomplete": incomplete, "over_approximations": notes, "harness_errors": errors,
            "per_scenario": [{"scenario": r["scenario"], "paths": r["paths"], "assertions": r["checks"], "queries": r["queries"],
                              "solver_s": r["solver_s"], "wall_s": r.get("wall")} for r in results],
        },
        "assumptions": ent["assumptions"],
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    tmpf = os.path.join(EVID, f".{pid}.tmp")
    with open(tmpf, "w") as fp:
        json.dump(ev, fp, indent=1)
    os.replace(tmpf, os.path.join(EVID, f"{pid}.json"))
    for k in seen_known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for m in inconc[:8]:
        print(f"INCONCLUSIVE {m}")
    for m in incomplete[:8]:
        print(f"INCOMPLETE {m}")
    for m in vac + dead:
        print(f"VACUOUS scenario {m} reached no assertion")
    for m in errors[:3]:
        print("HARNESS-ERROR " + m)
    print(f"{pid} {tier}: {len(results)} scenarios, {tot['paths']} paths, {tot['checks']} assertions, {tot['queries']} queries, "
          f"solver {solver_s} s, {tot['validated']} runs of the real code, wall {wall:.1f} s")
    if viol:
        for n, v in enumerate(viol[:5]):
            rel = os.path.join("evidence", "replay", f"{pid}-{n}.json")
            with open(os.path.join(HERE, rel), "w") as fp:
                json.dump({"module": module, "scenario": v["scenario"], "values": v["values"], "property": pid,
                           "msg": v["msg"], "found_by": v["found_by"],
                           "rerun": f"/opt/venv/bin/python /verif/vsym/replay.py /verif/{rel}"}, fp, indent=1)
            print(f"  {v['scenario']}: {v['msg']}  [{v['found_by']}]")
            print(f"VIOLATION property={pid} replay={rel}")
        return 1
    return 0
