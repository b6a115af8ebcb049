"""Name resolution over every control-flow path: undefined names, locals used
before assignment, imports that do not exist, calls their target cannot accept,
attributes nobody defines."""
import ast
import builtins
import importlib
import os
import symtable
import sys

from .program import PKG, deco_names

BUILTIN = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__loader__",
                                "__builtins__", "__annotations__", "__module__", "__qualname__", "__class__", "__debug__", "__dict__"}
SITE = ("/opt/venv/lib",)


# ------------------------------------------------------------- undefined names
def undefined(p, m):
    """[(function qual, name, node)] of names bound nowhere"""
    top = symtable.symtable(m.source, m.path, "exec")
    known, opaque_star = module_names(p, m)
    out = []
    loads = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Name):
            loads.setdefault(n.id, []).append(n)

    def visit(t, path):
        for s in t.get_symbols():
            nm = s.get_name()
            if not s.is_referenced() or not s.is_global() and not (t.get_type() == "module"):
                continue
            if nm in known or nm in BUILTIN or opaque_star:
                continue
            if t.get_type() == "module" and (s.is_assigned() or s.is_imported()):
                continue
            lo, hi = t.get_lineno(), None
            ns = [x for x in loads.get(nm, []) if x.lineno >= lo and enclosing(x) == path] or \
                [x for x in loads.get(nm, []) if x.lineno >= lo] or loads.get(nm, [])
            out.append((".".join(path) or "<module>", nm, ns[0] if ns else m.tree))
        for c in t.get_children():
            if c.get_type() in ("function", "class", "module"):
                anon = c.get_name() in ("lambda", "listcomp", "genexpr", "setcomp", "dictcomp")
                visit(c, path if anon else path + (c.get_name(),))
    visit(top, ())
    return out


def enclosing(n):
    path = []
    while n is not None:
        n = getattr(n, "_parent", None)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            path.append(n.name)
    return tuple(reversed(path))


def module_names(p, m):
    """names a module binds at top level; whether a foreign star import hides more"""
    names = set(m.top)
    opaque = False
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            names.update(n.names)
    # bindings made inside comprehension-free nested statements (match, walrus, del are rare)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.NamedExpr) and not enclosing(n):
            names.add(n.target.id)
    for si in m.star_imports:
        tgt = p.abs_module(m, si)
        tm = p.modules.get(tgt)
        if tm is None:
            opaque = True
            continue
        k, o = module_names(p, tm)
        names |= {x for x in k if not x.startswith("_")}
        opaque = opaque or o
    return names, opaque


# ------------------------------------------------------- definite assignment
class Flow:
    """Forward dataflow: for every local, which of {unassigned, assigned} reach
    each use."""

    def __init__(self, fn):
        self.fn = fn
        self.locals = self.find_locals(fn)
        self.definitely, self.maybe = [], []
        a = fn.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        if a.vararg:
            params.add(a.vararg.arg)
        if a.kwarg:
            params.add(a.kwarg.arg)
        st = {v: ({"A"} if v in params else {"U"}) for v in self.locals}
        self.breaks, self.conts = [], []
        self.depth = 0
        if isinstance(fn, ast.Lambda):
            self.expr(fn.body, st)
        else:
            self.block(fn.body, st)

    def find_locals(self, fn):
        names, glob = set(), set()
        a = fn.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            names.add(x.arg)

        def visit(n, comp):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.add(n.name)
                return
            if isinstance(n, ast.Lambda):
                return
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                glob.update(n.names)
            if isinstance(n, ast.NamedExpr):
                names.add(n.target.id)
                visit(n.value, comp)
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for c in ast.iter_child_nodes(n):
                    visit(c, True)
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and not comp:
                names.add(n.id)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    names.add(al.asname or al.name.split(".")[0])
            if isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            for c in ast.iter_child_nodes(n):
                visit(c, comp)
        body = fn.body if isinstance(fn.body, list) else [fn.body]
        for s in body:
            visit(s, False)
        return names - glob

    @staticmethod
    def join(*sts):
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        out = {k: set(v) for k, v in sts[0].items()}
        for s in sts[1:]:
            for k, v in s.items():
                out.setdefault(k, set()).update(v)
        return out

    def use(self, n, st):
        s = st.get(n.id)
        if s is None:
            return
        if s == {"U"}:
            self.definitely.append(n)
        elif "U" in s:
            self.maybe.append(n)

    def bind(self, name, st):
        if name in self.locals:
            st[name] = {"A"}

    def expr(self, e, st, shadow=frozenset()):
        if e is None or st is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id not in shadow:
                self.use(e, st)
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, st, shadow)
            self.bind(e.target.id, st)
            return
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x]:
                self.expr(d, st, shadow)
            return  # runs later
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            sh = set(shadow)
            for i, g in enumerate(e.generators):
                self.expr(g.iter, st, frozenset(sh))
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        sh.add(x.id)
                for c in g.ifs:
                    self.expr(c, st, frozenset(sh))
            if isinstance(e, ast.DictComp):
                self.expr(e.key, st, frozenset(sh))
                self.expr(e.value, st, frozenset(sh))
            else:
                self.expr(e.elt, st, frozenset(sh))
            return
        if isinstance(e, ast.BoolOp):
            self.expr(e.values[0], st, shadow)
            t = self.copy(st)
            for v in e.values[1:]:
                self.expr(v, t, shadow)
            return
        if isinstance(e, ast.IfExp):
            self.expr(e.test, st, shadow)
            self.expr(e.body, self.copy(st), shadow)
            self.expr(e.orelse, self.copy(st), shadow)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c, st, shadow)
            elif isinstance(c, ast.keyword):
                self.expr(c.value, st, shadow)
            elif isinstance(c, ast.comprehension):
                pass

    @staticmethod
    def copy(st):
        return {k: set(v) for k, v in st.items()}

    def target(self, t, st):
        if isinstance(t, ast.Name):
            self.bind(t.id, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x, st)
        elif isinstance(t, ast.Starred):
            self.target(t.value, st)
        else:
            self.expr(t, st)

    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list + s.args.defaults + [x for x in s.args.kw_defaults if x]:
                self.expr(d, st)
            self.bind(s.name, st)
            return st
        if isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases:
                self.expr(d, st)
            self.bind(s.name, st)
            return st
        if isinstance(s, ast.Assign):
            self.expr(s.value, st)
            for t in s.targets:
                self.target(t, st)
            return st
        if isinstance(s, ast.AugAssign):
            self.expr(s.value, st)
            if isinstance(s.target, ast.Name):
                n = ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target)
                n._parent = s
                self.use(n, st)
            self.target(s.target, st)
            return st
        if isinstance(s, ast.AnnAssign):
            self.expr(s.value, st)
            if s.value is not None:
                self.target(s.target, st)
            return st
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.expr(c, st)
            return None
        if isinstance(s, ast.Break):
            self.breaks[-1].append(self.copy(st))
            return None
        if isinstance(s, ast.Continue):
            self.conts[-1].append(self.copy(st))
            return None
        if isinstance(s, ast.If):
            self.expr(s.test, st)
            a = self.block(s.body, self.copy(st))
            b = self.block(s.orelse, self.copy(st))
            return self.join(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            wh = isinstance(s, ast.While)
            if wh:
                self.expr(s.test, st)
            else:
                self.expr(s.iter, st)
            self.breaks.append([])
            self.conts.append([])
            nd, nm = len(self.definitely), len(self.maybe)
            cur = self.copy(st)
            for _ in range(2):
                del self.definitely[nd:], self.maybe[nm:]
                self.breaks[-1], self.conts[-1] = [], []
                entry = self.copy(cur)
                if not wh:
                    self.target(s.target, entry)
                end = self.block(s.body, entry)
                cur = self.join(st, end, *self.conts[-1])
                if wh:
                    self.expr(s.test, self.copy(cur))
            brk = self.breaks.pop()
            self.conts.pop()
            after = None if wh and isinstance(s.test, ast.Constant) and s.test.value else cur
            if s.orelse and after is not None:
                after = self.block(s.orelse, self.copy(after))
            return self.join(after, *brk)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr, st)
                if i.optional_vars is not None:
                    self.target(i.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            before = self.copy(st)
            body = self.block(s.body, self.copy(st))
            assigned = self.assigned_in(s.body)
            mid = self.copy(before)
            for v in assigned:
                if v in mid:
                    mid[v] = mid[v] | {"A"}
            outs = []
            if body is not None and s.orelse:
                body = self.block(s.orelse, body)
            outs.append(body)
            for h in s.handlers:
                hs = self.copy(mid)
                self.expr(h.type, hs)
                if h.name:
                    self.bind(h.name, hs)
                e = self.block(h.body, hs)
                if e is not None and h.name in e:
                    e[h.name] = {"U"}
                outs.append(e)
            r = self.join(*outs)
            if s.finalbody:
                f = self.join(r, mid)
                nd, nm = len(self.definitely), len(self.maybe)
                self.block(s.finalbody, self.copy(f))
                del self.definitely[nd:], self.maybe[nm:]
                r = self.block(s.finalbody, r) if r is not None else None
            return r
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for al in s.names:
                self.bind(al.asname or al.name.split(".")[0], st)
            return st
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.use(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
                    if t.id in st:
                        st[t.id] = {"U"}
                else:
                    self.expr(t, st)
            return st
        if isinstance(s, ast.Assert):
            self.expr(s.test, st)
            return st
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.expr(c, st)
        return st

    def assigned_in(self, body):
        out = set()
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    out.update(a.asname or a.name.split(".")[0] for a in n.names)
        return out


def plain_path_unbound(fn, use):
    """The local is assigned only inside single-armed `if`s (or one arm of an
    if/else whose other arm falls through) that the use does not share, outside
    loops and try: a path on which it is unassigned reaches the use with no
    correlated condition in between."""
    name = use.id

    def gates(n):
        g = []
        while n is not fn and n is not None:
            par = getattr(n, "_parent", None)
            if isinstance(par, ast.If) and n is not par.test:
                g.append((par, "body" if n in par.body else "orelse"))
            elif isinstance(par, (ast.For, ast.While, ast.Try, ast.With, ast.IfExp, ast.BoolOp, ast.comprehension, ast.ListComp,
                                  ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Lambda)):
                g.append((par, None))
            elif isinstance(par, (ast.FunctionDef,)) and par is not fn:
                g.append((par, None))
            n = par
        return g
    ug = gates(use)
    defs = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
            defs.append(n)
        elif isinstance(n, (ast.Import, ast.ImportFrom, ast.ExceptHandler, ast.FunctionDef)) and n is not fn:
            if isinstance(n, ast.FunctionDef) and n.name == name or isinstance(n, ast.ExceptHandler) and n.name == name \
                    or isinstance(n, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name) == name for a in n.names):
                return False
    if not defs or ug:
        return False
    tests = set()
    for d in defs:
        g = gates(d)
        if len(g) != 1 or g[0][1] is None:
            return False
        i = g[0][0]
        if isinstance(i.test, ast.Constant):
            return False
        tests.add(id(i))
    return len(tests) == 1


# --------------------------------------------------------------------- imports
def find_library(name):
    """source file of a library module without importing it, or None"""
    parts = name.split(".")
    roots = []
    for b in SITE:
        if os.path.isdir(b):
            for d in os.listdir(b):
                s = os.path.join(b, d, "site-packages")
                if os.path.isdir(s):
                    roots.append(s)
    for r in roots:
        q = os.path.join(r, *parts)
        for c in (q + ".py", os.path.join(q, "__init__.py")):
            if os.path.exists(c):
                return c
    return None


_lib = {}


def library_names(path, depth=0):
    """(names, complete): names a library module binds at top level"""
    if path in _lib:
        return _lib[path]
    _lib[path] = (set(), False)
    try:
        with open(path, encoding="utf-8") as fh:
            tree = ast.parse(fh.read())
    except (SyntaxError, UnicodeDecodeError, OSError):
        return _lib[path]
    names, complete = set(), True
    pkg = os.path.dirname(path)
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
            if n.name == "__getattr__":
                complete = False
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            names.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name == "*":
                    sub = None
                    if isinstance(n, ast.ImportFrom) and n.level == 1:
                        q = os.path.join(pkg, *(n.module or "").split("."))
                        for c in (q + ".py", os.path.join(q, "__init__.py")):
                            if os.path.exists(c):
                                sub = c
                    elif isinstance(n, ast.ImportFrom) and not n.level:
                        sub = find_library(n.module)
                    if sub is None or depth > 4:
                        complete = False
                    else:
                        k, c = library_names(sub, depth + 1)
                        names |= k
                        complete = complete and c
                else:
                    names.add(a.asname or a.name.split(".")[0])
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("exec", "globals", "setattr", "vars"):
            complete = False
    if os.path.basename(path) == "__init__.py":
        for f in os.listdir(pkg):
            names.add(f.split(".")[0])
    _lib[path] = (names, complete)
    return _lib[path]


STD = set(sys.stdlib_module_names)


def import_exists(p, m, node, alias):
    """True / False / None, explanation"""
    if isinstance(node, ast.Import):
        mods = [(alias.name, None)]
    else:
        mods = [(p.abs_module(m, node), alias.name)]
    for mod, name in mods:
        if mod is None:
            return None, ""
        if mod == PKG or mod.startswith(PKG + "."):
            tm = p.modules.get(mod)
            if tm is None:
                return False, f"module {mod} does not exist"
            if name in (None, "*"):
                return True, ""
            if mod + "." + name in p.modules:
                return True, ""
            k, opaque = module_names(p, tm)
            if name in k:
                return True, ""
            return (None if opaque else False), f"{mod} defines no {name}"
        root = mod.split(".")[0]
        if root in STD:
            try:
                o = importlib.import_module(mod)
            except ImportError:
                return (False if root not in ("tkinter",) else None), f"no module {mod}"
            if name in (None, "*") or hasattr(o, name):
                return True, ""
            try:
                importlib.import_module(mod + "." + name)
                return True, ""
            except ImportError:
                return False, f"{mod} has no {name}"
        f = find_library(mod)
        if f is None:
            return None, f"library {mod} not installed here"
        if name in (None, "*"):
            return True, ""
        k, complete = library_names(f)
        if name in k:
            return True, ""
        return (False if complete else None), f"{mod} has no {name}"


# ----------------------------------------------------------------------- calls
def accepts(fn, call, skip):
    """None if the call fits the parameters, else what is wrong"""
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    posonly = {x.arg for x in a.posonlyargs}
    kwonly = [x.arg for x in a.kwonlyargs]
    ndef = len(a.defaults)
    req = pos[:max(0, len(pos) - ndef)] if ndef <= len(pos) else []
    reqkw = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return fits(pos, req, kwonly, reqkw, bool(a.vararg), bool(a.kwarg), call, posonly)


def fits(pos, req, kwonly, reqkw, vararg, kwarg, call, posonly=()):
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = len(call.args)
    if not star and n > len(pos) and not vararg:
        return f"takes at most {len(pos)} positional arguments, {n} given"
    given = set(pos[:n]) if not star else set()
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given:
            return f"argument {k.arg} given twice"
        if k.arg not in pos and k.arg not in kwonly and not kwarg:
            return f"has no parameter {k.arg}"
        if k.arg in posonly and not kwarg:
            return f"parameter {k.arg} is positional only"
        given.add(k.arg)
    if not star and not dstar:
        for r in req + reqkw:
            if r not in given:
                return f"required argument {r} is missing"
    elif not dstar:
        for r in reqkw:
            if r not in given:
                return f"required argument {r} is missing"
    return None


SAFE_DECO = {"property", "staticmethod", "classmethod", "setter", "cached_property", "lru_cache", "cache", "wraps"}


def plain(fn):
    return all(d in SAFE_DECO for d in deco_names(fn))


def record_fields(p, q):
    m, node = p.cls_node(q)
    for b in node.bases:
        nm = b.id if isinstance(b, ast.Name) else getattr(b, "attr", None)
        if nm == "NamedTuple":
            fs, req = [], []
            for n in node.body:
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    fs.append(n.target.id)
                    if n.value is None:
                        req.append(n.target.id)
            return fs, req
    for d in node.decorator_list:
        nm = d.id if isinstance(d, ast.Name) else getattr(getattr(d, "func", d), "id", getattr(d, "attr", None))
        if nm == "dataclass":
            return None
    return None


def closed_class(p, q):
    """every base of the class is defined in the package (or is object)"""
    for c in p.mro(q):
        m, node = p.cls_node(c)
        inpkg = len(p.bases(c))
        other = [b for b in node.bases if not (isinstance(b, ast.Name) and b.id == "object")]
        if len(other) != inpkg or node.keywords:
            return False
    return True


def check_class_call(p, q, call):
    """what is wrong with a constructor call, None if fine, '?' if unknown"""
    rf = record_fields(p, q)
    if rf is not None and p.find_method(q, "__new__") is None:
        fs, req = rf
        return fits(fs, req, [], [], False, False, call)
    f = p.find_method(q, "__init__")
    if f is None or p.find_method(q, "__new__") is not None and f[0] != q:
        if f is None and closed_class(p, q) and p.find_method(q, "__new__") is None and not p.cls_node(q)[1].decorator_list:
            return "takes no arguments" if call.args or call.keywords else None
        return "?"
    if p.find_method(q, "__new__") is not None:
        return "?"
    if p.cls_node(q)[1].decorator_list:
        return "?"
    return accepts(f[2], call, 1)
