"""Loads every Python source of the package and resolves names across modules."""
import ast
import builtins
import os

from .terms import Term

PKG = "neutrinomass"
SCRIPTS = ("database/pickler", "tensormethod/lnvlatex", "tensormethod/lnvderivlatex",
           "tensormethod/latexoperators")


class AnalysisBroken(Exception):
    """An anchor the analysis needs is gone: neither pass nor violation."""


class Module:
    def __init__(self, name, path, rel, source):
        self.name, self.path, self.rel, self.source = name, path, rel, source
        self.tree = ast.parse(source, filename=path)
        self.is_pkg = rel.endswith("__init__.py")
        self.functions = {}      # local qualname -> FunctionDef
        self.classes = {}        # local qualname -> ClassDef
        self.top = {}            # name -> list of binding nodes at module level
        self.star_imports = []
        self._collect()

    def _collect(self):
        for node in ast.walk(self.tree):
            for ch in ast.iter_child_nodes(node):
                ch._parent = node

        def visit(body, prefix, in_class):
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.functions[prefix + n.name] = n
                    n._qual = self.name + "." + prefix + n.name
                    n._cls = prefix[:-1] if in_class else None
                    visit(n.body, prefix + n.name + ".<locals>.", False)
                elif isinstance(n, ast.ClassDef):
                    self.classes[prefix + n.name] = n
                    n._qual = self.name + "." + prefix + n.name
                    visit(n.body, prefix + n.name + ".", True)
                elif isinstance(n, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                    for fld in ("body", "orelse", "finalbody"):
                        visit(getattr(n, fld, []) or [], prefix, in_class)
                    for h in getattr(n, "handlers", []):
                        visit(h.body, prefix, in_class)

        visit(self.tree.body, "", False)

        def binds(body):
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    self.top.setdefault(n.name, []).append(n)
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        self.top.setdefault(a.asname or a.name.split(".")[0], []).append((n, a))
                elif isinstance(n, ast.ImportFrom):
                    for a in n.names:
                        if a.name == "*":
                            self.star_imports.append(n)
                        else:
                            self.top.setdefault(a.asname or a.name, []).append((n, a))
                elif isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    tgts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    for t in tgts:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                self.top.setdefault(x.id, []).append(n)
                else:
                    if isinstance(n, (ast.For,)):
                        for x in ast.walk(n.target):
                            if isinstance(x, ast.Name):
                                self.top.setdefault(x.id, []).append(n)
                    if isinstance(n, ast.With):
                        for it in n.items:
                            if it.optional_vars is not None:
                                for x in ast.walk(it.optional_vars):
                                    if isinstance(x, ast.Name):
                                        self.top.setdefault(x.id, []).append(n)
                    for fld in ("body", "orelse", "finalbody"):
                        b = getattr(n, fld, None)
                        if isinstance(b, list):
                            binds(b)
                    for h in getattr(n, "handlers", []):
                        if h.name:
                            self.top.setdefault(h.name, []).append(h)
                        binds(h.body)

        binds(self.tree.body)

    def line(self, node):
        return getattr(node, "lineno", 0)


class Program:
    def __init__(self, root):
        self.root = root
        self.modules = {}
        base = os.path.join(root, PKG)
        if not os.path.isdir(base):
            raise AnalysisBroken(f"no package directory {base}")
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "wolfram", "topology_data"))
            for f in sorted(files):
                rel = os.path.relpath(os.path.join(d, f), base)
                if not (f.endswith(".py") or rel in SCRIPTS):
                    continue
                self._load(os.path.join(d, f), rel)
        self._resolving = set()
        self.method_index = {}
        for m in self.modules.values():
            if m.rel.endswith("_test.py"):
                continue
            for cq, c in m.classes.items():
                for n in c.body:
                    if isinstance(n, ast.FunctionDef):
                        self.method_index.setdefault(n.name, []).append((m.name + "." + cq, n))

    def _load(self, path, rel):
        parts = rel[:-3].split("/") if rel.endswith(".py") else rel.split("/")
        if parts[-1] == "__init__":
            parts = parts[:-1]
        name = ".".join([PKG] + parts)
        if not rel.endswith(".py"):
            name += "__script"
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        try:
            self.modules[name] = Module(name, path, rel, src)
        except SyntaxError as e:
            raise AnalysisBroken(f"{rel} does not parse: {e}")

    # -------------------------------------------------------------- anchors
    def module(self, name):
        m = self.modules.get(f"{PKG}.{name}" if name else PKG)
        if m is None:
            raise AnalysisBroken(f"module {name} not found")
        return m

    def function(self, mod, qual):
        m = self.module(mod)
        f = m.functions.get(qual)
        if f is None:
            # moved: look for an imported definition under the same name
            r = self.resolve(m, qual.split(".")[0])
            if r and r.op == "fn":
                return self.fn_node(r.args[0])
            raise AnalysisBroken(f"function {mod}.{qual} not found")
        return m, f

    def fn_node(self, qual):
        m, rest = self.split(qual)
        return m, m.functions[rest]

    def cls_node(self, qual):
        m, rest = self.split(qual)
        return m, m.classes[rest]

    def split(self, qual):
        parts = qual.split(".")
        for i in range(len(parts), 0, -1):
            n = ".".join(parts[:i])
            if n in self.modules:
                rest = ".".join(parts[i:])
                if rest in self.modules[n].functions or rest in self.modules[n].classes:
                    return self.modules[n], rest
        raise AnalysisBroken(f"definition {qual} not found")

    # ----------------------------------------------------------- resolution
    def abs_module(self, m, node):
        if node.level:
            parts = m.name.split(".")
            if not m.is_pkg:
                parts = parts[:-1]
            drop = node.level - 1
            if drop:
                parts = parts[:-drop]
            base = ".".join(parts)
            return base + ("." + node.module if node.module else "")
        return node.module

    def resolve(self, m, name):
        """Term for a module-level name (fn/cls/mod/ext/global/builtin) or None."""
        key = (m.name, name)
        if key in self._resolving:
            return None
        self._resolving.add(key)
        try:
            return self._resolve(m, name)
        finally:
            self._resolving.discard(key)

    def _resolve(self, m, name):
        b = m.top.get(name)
        if b:
            last = b[-1]
            if isinstance(last, ast.FunctionDef):
                return Term("fn", m.name + "." + name)
            if isinstance(last, ast.ClassDef):
                return Term("cls", m.name + "." + name)
            if isinstance(last, tuple):
                return self.resolve_import(m, *last)
            # plain alias: name = other_definition
            if len(b) == 1 and isinstance(last, ast.Assign) and isinstance(last.value, ast.Name) \
                    and isinstance(last.targets[0], ast.Name):
                r = self.resolve(m, last.value.id)
                if r is not None and r.op in ("fn", "cls"):
                    return r
            return Term("global", m.name + "." + name)
        for si in reversed(m.star_imports):
            tgt = self.abs_module(m, si)
            tm = self.modules.get(tgt)
            if tm is not None:
                r = self.exported(tm, name)
                if r is not None:
                    return r
        if hasattr(builtins, name) or name in ("__file__", "__name__", "__doc__"):
            return Term("builtin", name)
        return None

    def exported(self, tm, name):
        if name.startswith("_"):
            return None
        r = self.resolve(tm, name)
        if r is not None and r.op == "builtin":
            return None
        return r

    def resolve_import(self, m, node, alias):
        if isinstance(node, ast.Import):
            full = alias.name if alias.asname else alias.name.split(".")[0]
            if full in self.modules:
                return Term("mod", full)
            return Term("ext", full)
        tgt = self.abs_module(m, node)
        tm = self.modules.get(tgt)
        if tm is not None:
            r = self.resolve(tm, alias.name)
            if r is not None and r.op != "builtin":
                return r
            sub = tgt + "." + alias.name
            if sub in self.modules:
                return Term("mod", sub)
            return None
        return Term("ext", f"{tgt}.{alias.name}")

    def mod_attr(self, modname, attr):
        tm = self.modules[modname]
        r = self.resolve(tm, attr)
        if r is not None and r.op != "builtin":
            return r
        if modname + "." + attr in self.modules:
            return Term("mod", modname + "." + attr)
        return None

    # -------------------------------------------------------------- classes
    def bases(self, cls_qual):
        m, node = self.cls_node(cls_qual)
        out = []
        for b in node.bases:
            if isinstance(b, ast.Name):
                r = self.resolve(m, b.id)
                if r is not None and r.op == "cls":
                    out.append(r.args[0])
        return out

    def mro(self, cls_qual):
        out = [cls_qual]
        for b in self.bases(cls_qual):
            for x in self.mro(b):
                if x not in out:
                    out.append(x)
        return out

    def find_method(self, cls_qual, name):
        for c in self.mro(cls_qual):
            m, node = self.cls_node(c)
            for n in reversed(node.body):
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    return c, m, n
        return None

    def subclasses(self, cls_qual):
        out = []
        for m in self.modules.values():
            for cq in m.classes:
                q = m.name + "." + cq
                if q != cls_qual and cls_qual in self.mro(q):
                    out.append(q)
        return out

    def class_attr_nodes(self, cls_qual):
        m, node = self.cls_node(cls_qual)
        out = {}
        for n in node.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                out[n.targets[0].id] = n.value
        return out


def deco_names(fn):
    out = []
    for d in fn.decorator_list:
        if isinstance(d, ast.Name):
            out.append(d.id)
        elif isinstance(d, ast.Attribute):
            out.append(d.attr)
        elif isinstance(d, ast.Call):
            f = d.func
            out.append(f.id if isinstance(f, ast.Name) else getattr(f, "attr", "?"))
    return out
