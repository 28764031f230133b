"""Mechanical extraction: parse every module under /repo/src (and the specification modules) on every run.

Nothing is imported or executed from the repository; the verified text is the current source text.
What the extraction drops: comments, docstrings, type annotations, logging calls (modelled as no-ops)."""
from __future__ import annotations

import ast
import os

REPO_SRC = os.environ.get("PV_REPO_SRC", "/repo/src")
SPEC_DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.bindings = {}
        self.cache = {}
        self.dynamic = [st for st in tree.body if isinstance(st, (ast.For, ast.While, ast.With))]
        self._collect(tree.body)

    def _collect(self, body):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                self.bindings[st.name] = ("def", st)
            elif isinstance(st, ast.ClassDef):
                self.bindings[st.name] = ("class", st)
            elif isinstance(st, ast.Import):
                for al in st.names:
                    if al.asname:
                        self.bindings[al.asname] = ("mod", al.name)
                    else:
                        self.bindings[al.name.split(".")[0]] = ("mod", al.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = self._resolve_from(st)
                for al in st.names:
                    if al.name == "*":
                        self.bindings.setdefault("*", ("star", []))[1].append(base)
                        continue
                    self.bindings[al.asname or al.name] = ("from", base, al.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.bindings[t.id] = ("assign", st.value)
                    elif isinstance(t, ast.Tuple):
                        for k, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.bindings[e.id] = ("assign_item", st.value, k)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.bindings[st.target.id] = ("assign", st.value)
            elif isinstance(st, (ast.If, ast.Try)):
                self._collect(st.body)
                for h in getattr(st, "handlers", []):
                    pass

    def _resolve_from(self, st):
        if not st.level:
            if self.name.startswith("specs.") and os.path.exists(os.path.join(SPEC_DIR, st.module + ".py")):
                return "specs." + st.module
            return st.module
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (st.level - 1)]
        return ".".join(parts + ([st.module] if st.module else []))


def _top_statements(body):
    for st in body:
        yield st
        for part in ("body", "orelse", "finalbody"):
            if isinstance(st, (ast.If, ast.Try, ast.For, ast.While, ast.With, ast.ClassDef)):
                yield from _top_statements(getattr(st, part, []))


class Program:
    def __init__(self):
        self.modules = {}
        self._load_tree(REPO_SRC, "")
        self._load_specs()

    def _load_tree(self, root, prefix):
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d != "__pycache__" and not d.endswith(".egg-info"))
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)[:-3].split(os.sep)
                is_pkg = rel[-1] == "__init__"
                if is_pkg:
                    rel = rel[:-1]
                name = ".".join(rel)
                try:
                    tree = ast.parse(open(p, encoding="utf-8").read(), p)
                except SyntaxError:
                    continue
                self.modules[name] = Module(name, p, tree, is_pkg)

    def _load_specs(self):
        for f in sorted(os.listdir(SPEC_DIR)):
            if f.endswith(".py"):
                p = os.path.join(SPEC_DIR, f)
                name = "specs." + f[:-3]
                self.modules[name] = Module(name, p, ast.parse(open(p).read(), p), False)

    def import_closure(self, name):
        """the repository modules loaded by importing `name`"""
        got = self.__dict__.setdefault("_closures", {}).get(name)
        if got is not None:
            return got
        seen, todo = set(), [name]
        while todo:
            n = todo.pop()
            parts = n.split(".")
            for k in range(1, len(parts) + 1):
                q = ".".join(parts[:k])
                if q in seen or q not in self.modules:
                    continue
                seen.add(q)
                m = self.modules[q]
                for st in _top_statements(m.tree.body):
                    if isinstance(st, ast.Import):
                        todo.extend(a.name for a in st.names)
                    elif isinstance(st, ast.ImportFrom):
                        base = m._resolve_from(st)
                        todo.append(base)
                        todo.extend(f"{base}.{a.name}" for a in st.names)
        self._closures[name] = seen
        return seen

    def is_package_prefix(self, name):
        return name in self.modules or any(m.startswith(name + ".") for m in self.modules)
