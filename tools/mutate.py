"""Small changes to the code, one at a time, against the checks of the functions they are in.

tools/mutate.py OUT.jsonl [--fn SUBSTR] [--sample N] [--seed S] [--jobs J]: works on scratch
copies of /repo under /tmp and prints the changes that no check noticed, for a person to look
at (many change nothing).  A way to find what the checks miss; no check uses it."""

import argparse
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vsym import registry  # noqa: E402

SRC = "/repo/src/pymech"
FILES = ["core.py", "meshtools.py", "neksuite/field.py", "neksuite/map.py", "neksuite/mesh.py", "simsonsuite.py", "dataset.py", "vtksuite.py"]
LAST = ("C30", "C31", "C09", "C34")  # tried after the others
SECONDS = {"C30": 185, "C24": 35}
CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv]}


def sites(fn):
    """(description, function that changes a copy of the function in place)"""
    out = []

    def add(node, what, change):
        out.append((getattr(node, "lineno", 0), what, node, change))

    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for t in CMP.get(type(n.ops[0]), []):
                add(n, f"{type(n.ops[0]).__name__} -> {t.__name__}", lambda m, t=t: setattr(m, "ops", [t()]))
        if isinstance(n, ast.BinOp):
            for t in BIN.get(type(n.op), []):
                if isinstance(n.op, ast.Mod) and isinstance(n.left, (ast.Constant, ast.JoinedStr)):
                    continue
                add(n, f"{type(n.op).__name__} -> {t.__name__}", lambda m, t=t: setattr(m, "op", t()))
        if isinstance(n, ast.BoolOp):
            t = ast.Or if isinstance(n.op, ast.And) else ast.And
            add(n, f"-> {t.__name__}", lambda m, t=t: setattr(m, "op", t()))
            for i in range(len(n.values)):
                add(n, f"without operand {i}", lambda m, i=i: m.values.pop(i))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, "unary dropped", lambda m: ("replace", m.operand))
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, f"{n.value} flipped", lambda m: setattr(m, "value", not m.value))
            elif isinstance(n.value, int):
                add(n, f"{n.value} + 1", lambda m: setattr(m, "value", m.value + 1))
                if n.value > 0:
                    add(n, f"{n.value} - 1", lambda m: setattr(m, "value", m.value - 1))
            elif isinstance(n.value, float):
                add(n, f"{n.value} changed", lambda m: setattr(m, "value", m.value * 1.01 if m.value else 0.5))
            elif isinstance(n.value, str) and 0 < len(n.value) <= 4:
                add(n, f"{n.value!r} changed", lambda m: setattr(m, "value", "W" if m.value != "W" else "P"))
        if isinstance(n, ast.If):
            add(n, "condition true", lambda m: setattr(m, "test", ast.Constant(True)))
            add(n, "condition false", lambda m: setattr(m, "test", ast.Constant(False)))
        if isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            t = n.targets[0] if isinstance(n, ast.Assign) else None
            if not isinstance(t, (ast.Name, ast.Tuple)):
                if not (isinstance(n, ast.Expr) and ast.unparse(n).startswith("logger")):
                    add(n, "statement dropped", lambda m: ("replace", ast.Pass()))
        if isinstance(n, ast.Break):
            add(n, "break dropped", lambda m: ("replace", ast.Pass()))
        if isinstance(n, ast.Continue):
            add(n, "continue dropped", lambda m: ("replace", ast.Pass()))
        if isinstance(n, ast.Raise):
            add(n, "raise dropped", lambda m: ("replace", ast.Pass()))
        if isinstance(n, ast.Call):
            name = ast.unparse(n.func)
            if name in ("copy.deepcopy", "copy.copy", "list", "np.copy", "int", "tuple", "abs") and len(n.args) == 1:
                add(n, f"{name} dropped", lambda m: ("replace", m.args[0]))
            if name == "copy.deepcopy":
                add(n, "deepcopy -> copy", lambda m: setattr(m.func, "attr", "copy"))
            if name.endswith(".copy") and not n.args and isinstance(n.func, ast.Attribute):
                add(n, "copy dropped", lambda m: ("replace", m.func.value))
            if name in ("min", "max", "np.min", "np.max"):
                new = name.replace("min", "MIN").replace("max", "min").replace("MIN", "max")
                add(n, f"{name} -> {new}", lambda m, new=new: setattr(m, "func", ast.parse(new, mode="eval").body))
            if name == "range" and len(n.args) == 1:
                add(n, "range one short", lambda m: m.args.__setitem__(0, ast.BinOp(m.args[0], ast.Sub(), ast.Constant(1))))
                add(n, "range starts at 1", lambda m: m.args.insert(0, ast.Constant(1)))
        if isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load) and len(n.elts) > 1 and all(isinstance(e, ast.Constant) for e in n.elts):
            add(n, "two elements swapped", lambda m: m.elts.__setitem__(slice(0, 2), m.elts[1::-1]))
    return out


def functions(tree):
    for node in tree.body:
        if isinstance(node, ast.FunctionDef):
            yield node.name, node
        elif isinstance(node, ast.ClassDef):
            for sub in node.body:
                if isinstance(sub, ast.FunctionDef):
                    yield f"{node.name}.{sub.name}", sub


def checks_for(mod, name):
    full = f"{mod}.{name}"
    cls = f"{mod}.{name.split('.')[0]}"
    pids = []
    for pid, p in registry.PROPS.items():
        for f in p["functions"]:
            if f == full or (f == cls and name.endswith("__init__")):
                pids.append(pid)
                break
    return sorted(pids, key=lambda p: (p in LAST, SECONDS.get(p, 0), p))


def apply(tree, fname, index):
    """the whole file with the index-th change of the function made"""
    t = copy.deepcopy(tree)
    fn = dict(functions(t))[fname]
    line, what, node, change = sites(fn)[index]
    before = ast.unparse(node)[:90]
    r = change(node)
    if isinstance(r, tuple) and r[0] == "replace":
        for parent in ast.walk(fn):
            for k, v in ast.iter_fields(parent):
                if v is node:
                    setattr(parent, k, r[1])
                elif isinstance(v, list):
                    for i, x in enumerate(v):
                        if x is node:
                            v[i] = r[1]
    ast.fix_missing_locations(t)
    return ast.unparse(t), line, what, before


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--fn", default="")
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--per-fn", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--inner", type=int, default=2)
    ap.add_argument("--skip", default="C30")
    ap.add_argument("--count", action="store_true")
    ap.add_argument("--again", help="only the survivors of this earlier run")
    a = ap.parse_args()
    work = []
    trees = {}
    for f in FILES:
        src = open(os.path.join(SRC, f)).read()
        trees[f] = ast.parse(src)
        mod = f[:-3].replace("/", ".")
        for name, fn in functions(trees[f]):
            if a.fn and a.fn not in f"{mod}.{name}":
                continue
            pids = [p for p in checks_for(mod, name) if p not in a.skip.split(",")]
            n = len(sites(fn))
            if a.count:
                print(mod, name, n, pids)
            if "repr" in name:
                continue
            some = list(range(n))
            random.Random(f"{a.seed}{mod}{name}").shuffle(some)
            work += [(f, name, i, pids) for i in some[: a.per_fn or n] if pids]
    if a.count:
        print(len(work))
        return
    done = set()
    if os.path.exists(a.out):
        for line in open(a.out):
            d = json.loads(line)
            done.add((d["file"], d["fn"], d["index"]))
    random.Random(a.seed).shuffle(work)
    if a.sample:
        work = work[: a.sample]
    if a.again:
        old = [json.loads(x) for x in open(a.again)]
        only = {(d["file"], d["fn"], d["index"]) for d in old if d["killed"] is None}
        work = [w for w in work if w[:3] in only]
    work = [w for w in work if w[:3] not in done]
    base = f"/tmp/mutate-{os.getpid()}"
    shutil.copytree(HERE, f"{base}/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
    free = []
    for j in range(a.jobs):
        shutil.copytree("/repo", f"{base}/{j}", ignore=shutil.ignore_patterns(".git", "tests", "docs"))
        shutil.copytree(f"{base}/verif", f"{base}/verif{j}")
        free.append(j)

    def one(w):
        f, name, index, pids = w
        j = free.pop()
        try:
            text, line, what, before = apply(trees[f], name, index)
            path = f"{base}/{j}/src/pymech/{f}"
            orig = open(path).read()
            open(path, "w").write(text)
            t0 = time.time()
            killed, log = None, {}
            for pid in pids:
                env = dict(os.environ, PYMECH_REPO=f"{base}/{j}", VSYM_GRACE="0", VSYM_JOBS=str(a.inner), VERIF_SEED="1")
                try:
                    p = subprocess.run([f"{base}/verif{j}/check.py", pid], env=env, capture_output=True, text=True, timeout=600)
                    log[pid] = p.returncode
                    if p.returncode == 1 and "VIOLATION" in p.stdout:
                        killed = pid
                        break
                    if "INCONCL" in p.stdout or "INCOMPL" in p.stdout:
                        log[pid] = "incomplete"
                except subprocess.TimeoutExpired:
                    log[pid] = "timeout"
            open(path, "w").write(orig)
            r = dict(file=f, fn=name, index=index, line=line, what=what, code=before, killed=killed, log=log, s=round(time.time() - t0, 1))
        except Exception as e:  # noqa: BLE001
            r = dict(file=f, fn=name, index=index, error=repr(e), killed="error")
        free.append(j)
        with open(a.out, "a") as fp:
            fp.write(json.dumps(r) + "\n")
        if r["killed"] is None:
            print(json.dumps(r), flush=True)

    try:
        with ThreadPoolExecutor(a.jobs) as ex:
            list(ex.map(one, work))
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    main()
