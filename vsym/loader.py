"""Loads the pymech source for symbolic execution: parsed from the repository on
every run, lightly rewritten (string % and encode/join go through helpers) and
executed with shimmed builtins and imports."""

import ast
import importlib.abc
import importlib.machinery
import os
import sys
import types

from . import shims

REPO = os.environ.get("PYMECH_REPO", "/repo")
SRC = os.path.join(REPO, "src", "pymech")
LOADED = {}  # module name -> (path, sha)
CODE = {}  # module name -> its code, compiled once


class Rewrite(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name("__sx_mod__", ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("encode", "join") and not any(
                isinstance(a, ast.Starred) for a in n.args):
            fn = "__sx_encode__" if n.func.attr == "encode" else "__sx_join__"
            return ast.copy_location(ast.Call(ast.Name(fn, ast.Load()), [n.func.value] + n.args, n.keywords), n)
        return n


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name != "pymech" and not name.startswith("pymech."):
            return None
        rel = name.split(".")[1:]
        base = os.path.join(SRC, *rel)
        if os.path.isdir(base):
            f = os.path.join(base, "__init__.py")
            return importlib.machinery.ModuleSpec(name, self, origin=f, is_package=True)
        f = base + ".py"
        if name in ("pymech._version", "pymech.log") or os.path.exists(f):
            return importlib.machinery.ModuleSpec(name, self, origin=f, is_package=False)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        spec = mod.__spec__
        if spec.submodule_search_locations is not None:
            spec.submodule_search_locations = [os.path.dirname(spec.origin)]
            mod.__path__ = spec.submodule_search_locations
        if mod.__name__ == "pymech":
            return  # submodules are loaded one by one
        if mod.__name__ == "pymech._version":
            mod.__version__ = "0"
            return
        if mod.__name__ == "pymech.log":
            mod.logger = shims.Logger()
            return
        if mod.__name__ not in CODE:
            with open(spec.origin, encoding="utf-8") as fp:
                src = fp.read()
            import hashlib

            LOADED[mod.__name__] = (spec.origin, hashlib.sha256(src.encode()).hexdigest()[:12])
            tree = ast.fix_missing_locations(Rewrite().visit(ast.parse(src, spec.origin)))
            CODE[mod.__name__] = compile(tree, spec.origin, "exec")
        code = CODE[mod.__name__]
        mod.__dict__["__builtins__"] = shims.make_builtins()
        exec(code, mod.__dict__)


def install(extra=None):
    shims.install_modules()
    if extra:
        shims.MODULES.update(extra)
    CODE.clear()
    fresh()
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())


def fresh():
    """the next import starts from the state the modules have when they are loaded"""
    for k in [k for k in sys.modules if k == "pymech" or k.startswith("pymech.")]:
        del sys.modules[k]


def functions_in(modname):
    """names of the functions defined in a loaded module (for the evidence)"""
    path = LOADED[modname][0]
    with open(path) as fp:
        tree = ast.parse(fp.read())
    out = []

    def walk(n, pre):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                if isinstance(c, ast.FunctionDef):
                    out.append(pre + c.name)
                walk(c, pre + c.name + ".")
            else:
                walk(c, pre)

    walk(tree, "")
    return out
