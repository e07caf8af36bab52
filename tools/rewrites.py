"""Changes to the code that keep what it does, on which the checks must stay quiet.

tools/rewrites.py NAME[,NAME...] [--checks C01,C02] [--keep DIR]: applies the named rewrites to a
scratch copy of /repo under /tmp, runs the stable tests' modules by importing them, then the quick
checks with VSYM_GRACE=0.  Prints each check that is not quiet, or that left something undecided.
Names: helper, negate, while, aug, flip, temps, rename, comps, nest, format, pow, split; or 'all'."""

import argparse
import ast
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["core.py", "meshtools.py", "neksuite/field.py", "neksuite/map.py", "neksuite/mesh.py", "simsonsuite.py", "dataset.py", "vtksuite.py"]
COUNT = [0]


def fresh(base="_v"):
    COUNT[0] += 1
    return f"{base}{COUNT[0]}"


def name(s, store=False):
    return ast.Name(s, ast.Store() if store else ast.Load())


class Flip(ast.NodeTransformer):
    """a < b becomes b > a"""

    SWAP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.SWAP:
            return ast.Compare(n.comparators[0], [self.SWAP[type(n.ops[0])]()], [n.left])
        return n


class Negate(ast.NodeTransformer):
    """if c: A else: B becomes if not c: B else: A"""

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


class Nest(ast.NodeTransformer):
    """if a and b: becomes if a: if b:"""

    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            body = n.body
            for t in reversed(n.test.values):
                body = [ast.If(t, body, [])]
            return body[0]
        return n


class While(ast.NodeTransformer):
    """for i in range(...) becomes a while loop, other loops run over enumerate"""

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and len(it.args) <= 2 and isinstance(n.target, ast.Name):
            lo, hi = (it.args if len(it.args) == 2 else [ast.Constant(0), it.args[0]])
            k, m = fresh("_k"), fresh("_m")
            return [
                ast.Assign([name(k, True)], lo), ast.Assign([name(m, True)], hi),
                ast.While(ast.Compare(name(k), [ast.Lt()], [name(m)]),
                          [ast.Assign([n.target], name(k)), ast.Assign([name(k, True)], ast.BinOp(name(k), ast.Add(), ast.Constant(1)))] + n.body, []),
            ]
        k = fresh("_k")
        return ast.For(ast.Tuple([name(k, True), n.target], ast.Store()), ast.Call(name("enumerate"), [it], []), n.body, [])


class Aug(ast.NodeTransformer):
    """a[i] += e becomes a[i] = a[i] + e"""

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Subscript) and all(isinstance(k, (ast.Constant, ast.Name, ast.BinOp, ast.UnaryOp, ast.Subscript, ast.Attribute, ast.expr_context, ast.operator, ast.unaryop, ast.Tuple, ast.Slice)) for k in ast.walk(n.target)):
            load = ast.parse(ast.unparse(n.target), mode="eval").body
            return ast.Assign([n.target], ast.BinOp(load, n.op, n.value))
        return n


class Temps(ast.NodeTransformer):
    """values are named before they are returned or stored"""

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        r = fresh("_r")
        return [ast.Assign([name(r, True)], n.value), ast.Return(name(r))]

    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)) and not isinstance(n.value, (ast.Constant, ast.Name)):
            r = fresh("_r")
            return [ast.Assign([name(r, True)], n.value), ast.Assign(n.targets, name(r))]
        return n

    def visit_Raise(self, n):
        return n

    def visit_ClassDef(self, n):
        n.body = [self.visit(b) if isinstance(b, ast.FunctionDef) else b for b in n.body]
        return n

    def visit_Module(self, n):
        n.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else b for b in n.body]
        return n


class Comps(ast.NodeTransformer):
    """[f(x) for x in xs] becomes list(f(x) for x in xs), an all() of a generator an all() of a list"""

    def visit_ListComp(self, n):
        self.generic_visit(n)
        return ast.Call(name("list"), [ast.GeneratorExp(n.elt, n.generators)], [])

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("all", "any", "sum", "tuple", "set") and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp):
            n.args = [ast.ListComp(n.args[0].elt, n.args[0].generators)]
        return n


class Format(ast.NodeTransformer):
    """f-strings become calls of format"""

    def visit_JoinedStr(self, n):
        fmt, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                fmt += v.value.replace("{", "{{").replace("}", "}}")
                continue
            spec = ""
            for s in v.format_spec.values if v.format_spec else []:
                if not isinstance(s, ast.Constant):
                    return n
                spec += s.value
            conv = "!" + chr(v.conversion) if v.conversion > 0 else ""
            fmt += "{" + conv + (":" + spec if spec else "") + "}"
            args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(fmt), "format", ast.Load()), args, [])


class Pow(ast.NodeTransformer):
    """x**2 becomes x * x, -x becomes 0 - x for products, and halves are quotients"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and not any(isinstance(k, ast.Call) for k in ast.walk(n.left)):
            other = ast.parse(ast.unparse(n.left), mode="eval").body
            return ast.BinOp(n.left, ast.Mult(), other)
        if isinstance(n.op, ast.Mult) and isinstance(n.left, ast.Constant) and n.left.value == 0.5:
            return ast.BinOp(n.right, ast.Div(), ast.Constant(2))
        return n


class Rename(ast.NodeTransformer):
    """local variables get other names"""

    def visit_FunctionDef(self, fn):
        stored, banned = set(), set()
        a = fn.args
        banned |= {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        for n in ast.walk(fn):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                banned |= set(n.names)
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
                banned |= {x.arg for x in n.args.args}
                if isinstance(n, ast.FunctionDef):
                    banned.add(n.name)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                stored.add(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name:
                banned.add(n.name)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                banned |= {(x.asname or x.name).split(".")[0] for x in n.names}
        new = {s: f"my_{s}" for s in stored - banned}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in new:
                n.id = new[n.id]
        return fn


class Split(ast.NodeTransformer):
    """a, b = x, y over names and constants becomes two statements; long sums are built in steps"""

    def visit_Assign(self, n):
        t, v = n.targets[0], n.value
        if len(n.targets) == 1 and isinstance(t, ast.Tuple) and isinstance(v, ast.Tuple) and len(t.elts) == len(v.elts) and not any(isinstance(e, ast.Starred) for e in t.elts + v.elts):
            rs = [fresh("_r") for _ in v.elts]
            return [ast.Assign([name(r, True)], e) for r, e in zip(rs, v.elts)] + [ast.Assign([e], name(r)) for r, e in zip(rs, t.elts)]
        return n


class Helper(ast.NodeTransformer):
    """the body of a function moves to another one, and bodies of inner loops to local functions"""

    def split(self, fn, method):
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Nonlocal)) for n in ast.walk(fn)) or fn.name.startswith("__"):
            return [fn]
        if any(isinstance(n, ast.Name) and n.id == "super" for n in ast.walk(fn)):
            return [fn]
        a = fn.args
        if a.vararg or a.kwarg or any(ast.unparse(d) != "staticmethod" for d in fn.decorator_list):
            return [fn]
        inner = f"_do_{fn.name.strip('_')}"
        args = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        body = fn.body
        doc = []
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            doc, body = [body[0]], body[1:]
        if not body:
            return [fn]
        first = None
        call = [name(x) for x in args]
        plain = ast.arguments([], [ast.arg(x) for x in args], None, [], [], None, [])
        if method:
            if fn.decorator_list or not args or args[0] != "self":
                return [fn]
            target = ast.Attribute(name("self"), inner, ast.Load())
            call = call[1:]
        else:
            target = name(inner)
        first = ast.FunctionDef(inner, plain, body, [], None)
        fn.body = doc + [ast.Return(ast.Call(target, call, []))]
        return [first, fn]

    def visit_Module(self, n):
        out = []
        for b in n.body:
            if isinstance(b, ast.FunctionDef):
                out += self.split(b, False)
            elif isinstance(b, ast.ClassDef):
                body = []
                for c in b.body:
                    body += self.split(c, True) if isinstance(c, ast.FunctionDef) else [c]
                b.body = body
                out.append(b)
            else:
                out.append(b)
        n.body = out
        return n


class Stmts(ast.NodeTransformer):
    """the bodies of for loops without jumps move to local functions when they assign no names used outside"""

    def visit_FunctionDef(self, fn):
        self.generic_visit(fn)
        names = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name):
                names.setdefault(n.id, [0, 0])[isinstance(n.ctx, ast.Store)] += 1

        def loops(body):
            out = []
            for s in body:
                for k in ("body", "orelse"):
                    if isinstance(s, (ast.For, ast.If, ast.While, ast.With)) and getattr(s, k, None):
                        setattr(s, k, loops(getattr(s, k)))
                if isinstance(s, ast.For) and not s.orelse and not any(isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.Nonlocal, ast.FunctionDef)) for b in s.body for x in ast.walk(b)):
                    inside = [x for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name)]
                    stored = {x.id for x in inside if isinstance(x.ctx, ast.Store)}
                    count = {}
                    for x in inside:
                        count[x.id] = count.get(x.id, 0) + 1
                    if all(count[x] == sum(names[x]) for x in stored):
                        f = fresh("_step")
                        vs = [x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)]
                        out.append(ast.FunctionDef(f, ast.arguments([], [ast.arg(v) for v in vs], None, [], [], None, []), s.body, [], None))
                        s.body = [ast.Expr(ast.Call(name(f), [name(v) for v in vs], []))]
                out.append(s)
            return out

        fn.body = loops(fn.body)
        return fn


REWRITES = {"flip": Flip, "negate": Negate, "nest": Nest, "while": While, "aug": Aug, "temps": Temps, "comps": Comps, "format": Format, "pow": Pow,
            "rename": Rename, "split": Split, "steps": Stmts, "helper": Helper}


def rewrite(root, names):
    for f in FILES:
        p = os.path.join(root, "src/pymech", f)
        tree = ast.parse(open(p).read())
        for n in names:
            tree = ast.fix_missing_locations(REWRITES[n]().visit(tree))
        with open(p, "w") as fp:
            fp.write(ast.unparse(tree) + "\n")


def run(job):
    pid, root, env, cpus = job
    t = time.time()
    r = subprocess.run([os.path.join(HERE, "check.py"), pid, "--tier", "quick"], env=env, capture_output=True, text=True, cwd=HERE)
    return pid, r.returncode, r.stdout + r.stderr, time.time() - t


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("names")
    ap.add_argument("--checks")
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--inner", type=int, default=4)
    ap.add_argument("--patch", help="a program that is given the root of the copy and changes it further")
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    from vsym import registry

    names = list(REWRITES) if a.names == "all" else [n for n in a.names.split(",") if n != "none"]
    root = f"/tmp/rewrite-{os.getpid()}"
    shutil.copytree("/repo", root, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    try:
        rewrite(root, names)
        if a.patch:
            subprocess.run([sys.executable, a.patch, root], check=True)
        r = subprocess.run(["/opt/venv/bin/python", "-c", "import pymech, pymech.meshtools, pymech.core, pymech.neksuite, pymech.simsonsuite, pymech.dataset; import sys; m = pymech.meshtools.gen_box(2, 2, 0, 1, 0, 1); pymech.meshtools.extrude(m, [0, 1]).check_connectivity(); pymech.meshtools.gen_circle(1, 0.5, 2, 2).check_connectivity(); print(pymech.__file__)"],
                           env=dict(os.environ, PYTHONPATH=os.path.join(root, "src")), capture_output=True, text=True, cwd="/tmp")
        print(r.stdout.strip(), r.stderr.strip()[-2000:])
        if r.returncode:
            return 2
        env = dict(os.environ, PYMECH_REPO=root, VSYM_GRACE="0", VSYM_JOBS=str(a.inner))
        ids = a.checks.split(",") if a.checks else list(registry.PROPS)
        with ThreadPoolExecutor(a.jobs) as ex:
            for pid, rc, out, t in ex.map(run, [(i, root, env, 0) for i in ids]):
                lines = sorted([x for x in out.splitlines() if re.search("VIOLATION|INCON|INCOMPL|Error", x)], key=lambda x: "VIOL" not in x)
                print(f"{pid} rc={rc} {t:.0f} s", "quiet" if rc == 0 and not lines else "", flush=True)
                for x in lines[:6]:
                    print("    ", x[:300], flush=True)
    finally:
        shutil.rmtree(root)


if __name__ == "__main__":
    sys.exit(main())
