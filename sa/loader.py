"""Parse the package under analysis: modules, classes, functions.  Nothing is imported."""
from __future__ import annotations

import ast
import hashlib
import os

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "frequenz.channels"


class AnalysisError(Exception):
    """The analysis cannot give an answer (never a verdict)."""


class FuncInfo:
    def __init__(self, mod, node, qual, cls=None):
        self.mod, self.node, self.qual, self.cls = mod, node, qual, cls
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.is_gen = _has_yield(node)
        self.key = f"{mod.name}:{qual}"
        decs = []
        for d in getattr(node, "decorator_list", []):
            t = d.func if isinstance(d, ast.Call) else d
            decs.append(ast.unparse(t))
        self.decs = decs

    def has(self, *names):
        return any(d.split(".")[-1] in names for d in self.decs)

    @property
    def where(self):
        return f"{self.mod.rel}:{getattr(self.node, 'lineno', 0)}"

    def __repr__(self):
        return f"<{self.key}>"


def _has_yield(node):
    """Whether the function's own body contains a yield."""
    todo = list(ast.iter_child_nodes(node)) if not isinstance(node, ast.Lambda) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef,
                          ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class ClassInfo:
    def __init__(self, mod, node, qual):
        self.mod, self.node, self.qual, self.name = mod, node, qual, node.name
        self.key = f"{mod.name}:{qual}"
        self.methods = {}        # name -> FuncInfo (own; last definition wins, setters aside)
        self.setters = {}
        self.assigns = []        # (name, value expr or None, annotated?)
        self.base_exprs = node.bases
        self.bases = []          # filled by the interpreter: ClassInfo or external path str
        self.decs = [ast.unparse(d.func if isinstance(d, ast.Call) else d) for d in node.decorator_list]
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(mod, s, f"{qual}.{s.name}", self)
                if any(d.endswith(".setter") for d in f.decs):
                    self.setters[s.name] = f
                else:
                    self.methods[s.name] = f
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.assigns.append((s.target.id, s.value, True))
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assigns.append((t.id, s.value, False))

    @property
    def is_dataclass(self):
        return any(d.split(".")[-1] == "dataclass" for d in self.decs)

    def __repr__(self):
        return f"<class {self.key}>"


class ModuleInfo:
    def __init__(self, name, path, rel):
        self.name, self.path, self.rel = name, path, rel
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        self.digest = hashlib.sha256(self.src.encode()).hexdigest()[:16]
        self.tree = ast.parse(self.src, path)
        self.is_pkg = os.path.basename(path) == "__init__.py"
        for n in ast.walk(self.tree):
            n._mod = self
        self.classes, self.funcs = {}, {}
        for s in self.tree.body:
            if isinstance(s, ast.ClassDef):
                self.classes[s.name] = ClassInfo(self, s, s.name)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[s.name] = FuncInfo(self, s, s.name)


class Program:
    """All modules of the package in the current working tree of the repository."""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        root = os.path.join(self.repo, "src", *PKG.split("."))
        if not os.path.isdir(root):
            raise AnalysisError(f"package directory {root} not found")
        for d, _, files in os.walk(root):
            for fn in sorted(files):
                if not fn.endswith(".py") or fn == "conftest.py":
                    continue
                path = os.path.join(d, fn)
                relp = os.path.relpath(path, root)[:-3].replace(os.sep, ".")
                name = PKG if relp == "__init__" else f"{PKG}.{relp.removesuffix('.__init__')}"
                try:
                    self.mods[name] = ModuleInfo(name, path, os.path.relpath(path, self.repo))
                except (SyntaxError, ValueError) as e:
                    raise AnalysisError(f"cannot parse {path}: {e}") from e
        if PKG not in self.mods:
            raise AnalysisError("package __init__ not found")

    def all_classes(self):
        for m in self.mods.values():
            yield from m.classes.values()

    def all_funcs(self):
        for m in self.mods.values():
            yield from m.funcs.values()
            for c in m.classes.values():
                yield from c.methods.values()
                yield from c.setters.values()

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.mods):
            if getattr(self.mods[n], "synthetic", False):
                continue
            h.update(self.mods[n].digest.encode())
        return h.hexdigest()[:16]
