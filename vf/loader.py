"""Source loader: parses every module of the package, resolves imports and MROs."""
from __future__ import annotations

import ast
import os


class ClassInfo:
    def __init__(self, name, mod, node):
        self.name = name
        self.mod = mod
        self.node = node
        self.methods = {}
        self.props = {}
        self.statics = set()
        self.classattrs = {}
        self.bases = []  # ClassInfo
        self._mro = None

    def __repr__(self):
        return "<class %s>" % self.name

    def mro(self):
        if self._mro is None:
            seqs = [b.mro()[:] for b in self.bases] + [self.bases[:]]
            out = [self]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                out.append(c)
                for s in seqs:
                    if s[0] is c:
                        del s[0]
            self._mro = out
        return self._mro

    def find(self, name, after=None):
        mro = self.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for c in mro:
            if name in c.methods:
                return c.methods[name], c
        return None, None

    def find_prop(self, name):
        for c in self.mro():
            if name in c.props:
                return c.props[name], c
            if name in c.methods:
                return None, None
        return None, None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.classattrs:
                return c.classattrs[name], c
        return None, None


class ModuleInfo:
    def __init__(self, name, path, tree, src):
        self.name = name
        self.path = path
        self.tree = tree
        self.src = src
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.defs = {}  # functions
        self.classes = {}
        self.imports = {}  # local name -> (module, attr|None)
        self.assigns = {}  # module-level constant name -> list of ast exprs
        self.stars = []


class Project:
    def __init__(self, root="/repo", package="ssspy"):
        self.root = root
        self.package = package
        self.modules = {}
        self._load()

    def _load(self):
        base = os.path.join(self.root, self.package)
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.root)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[: -len(".__init__")]
                with open(path, encoding="utf-8") as fh:
                    src = fh.read()
                tree = ast.parse(src, path)
                self.modules[rel] = ModuleInfo(rel, path, tree, src)
        for m in self.modules.values():
            self._index(m)
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    ci = self.resolve_class(m, b)
                    if ci is not None:
                        c.bases.append(ci)

    def _index(self, m):
        def walk(stmts):
            for st in stmts:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.defs[st.name] = st
                elif isinstance(st, ast.ClassDef):
                    c = ClassInfo(st.name, m, st)
                    for s in st.body:
                        if isinstance(s, ast.FunctionDef):
                            decos = [ast.unparse(x) for x in s.decorator_list]
                            if "property" in decos:
                                c.props[s.name] = s
                            elif any(x.endswith(".setter") for x in decos):
                                pass
                            else:
                                if "staticmethod" in decos:
                                    c.statics.add(s.name)
                                c.methods[s.name] = s
                        elif isinstance(s, ast.Assign):
                            for t in s.targets:
                                if isinstance(t, ast.Name):
                                    c.classattrs[t.id] = s.value
                        elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                            c.classattrs[s.target.id] = s.value
                    m.classes[st.name] = c
                elif isinstance(st, ast.ImportFrom):
                    target = self._rel(m, st)
                    for a in st.names:
                        if a.name == "*":
                            m.stars.append(target)
                        else:
                            m.imports[a.asname or a.name] = (target, a.name)
                elif isinstance(st, ast.Import):
                    for a in st.names:
                        if a.asname:
                            m.imports[a.asname] = (a.name, None)
                        else:
                            m.imports[a.name.split(".")[0]] = (a.name.split(".")[0], None)
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            m.assigns.setdefault(t.id, []).append(st.value)
                        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(st.value, (ast.Tuple, ast.List)) \
                                and len(t.elts) == len(st.value.elts):
                            for tt, vv in zip(t.elts, st.value.elts):
                                if isinstance(tt, ast.Name):
                                    m.assigns.setdefault(tt.id, []).append(vv)
                elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                    m.assigns.setdefault(st.target.id, []).append(st.value)
                elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                    m.assigns.setdefault(st.target.id, []).append(("aug", st))
                elif isinstance(st, ast.Try):
                    walk(st.body)
                    for h in st.handlers:
                        walk(h.body)
                elif isinstance(st, ast.If):
                    walk(st.body)
                    walk(st.orelse)

        walk(m.tree.body)

    def _rel(self, m, st):
        if st.level == 0:
            return st.module
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        drop = st.level - 1
        if drop:
            parts = parts[:-drop]
        return ".".join(parts + ([st.module] if st.module else []))

    def lookup(self, mod, name, seen=None):
        """Resolve a module-level name to ('class',ci)|('func',fdef,mod)|('expr',ast,mod)|('module',name)|('ext',dotted)|None"""
        seen = seen or set()
        if (mod.name, name) in seen:
            return None
        seen.add((mod.name, name))
        if name in mod.classes:
            return ("class", mod.classes[name])
        if name in mod.defs:
            return ("func", mod.defs[name], mod)
        if name in mod.assigns:
            return ("expr", mod.assigns[name], mod)
        if name in mod.imports:
            tgt, attr = mod.imports[name]
            if attr is None:
                return ("module", tgt) if tgt in self.modules else ("ext", tgt)
            if tgt in self.modules:
                r = self.lookup(self.modules[tgt], attr, seen)
                if r is not None:
                    return r
                if tgt + "." + attr in self.modules:
                    return ("module", tgt + "." + attr)
                return ("ext", tgt + "." + attr)
            return ("ext", tgt + "." + attr)
        for t in mod.stars:
            if t in self.modules:
                r = self.lookup(self.modules[t], name, seen)
                if r is not None:
                    return r
        if mod.is_pkg and mod.name + "." + name in self.modules:
            return ("module", mod.name + "." + name)
        return None

    def resolve_class(self, mod, expr):
        if isinstance(expr, ast.Name):
            r = self.lookup(mod, expr.id)
            if r and r[0] == "class":
                return r[1]
        if isinstance(expr, ast.Attribute) and isinstance(expr.value, ast.Name):
            r = self.lookup(mod, expr.value.id)
            if r and r[0] == "module":
                r = self.lookup(self.modules[r[1]], expr.attr)
                if r and r[0] == "class":
                    return r[1]
        return None

    def get_class(self, dotted):
        mod, name = dotted.rsplit(".", 1)
        m = self.modules.get(mod)
        if m is None:
            return None
        r = self.lookup(m, name)
        return r[1] if r and r[0] == "class" else None

    def get_func(self, dotted):
        mod, name = dotted.rsplit(".", 1)
        m = self.modules.get(mod)
        if m is None:
            return None
        r = self.lookup(m, name)
        return (r[1], r[2]) if r and r[0] == "func" else None
