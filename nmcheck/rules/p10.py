"""P10: every name on every path resolves."""
import ast

from ..names import *
from ..program import PKG

EXPLAIN = ("Name resolution: symbol tables of every module (tests excluded, scripts included) are resolved against module, "
           "star-import and builtin scopes; a forward dataflow computes for each local whether an assignment reaches each use; "
           "every import is looked up in the module it names (package, standard library, or the source of an installed library); "
           "every call whose target is a package function, method or class is matched against the target's parameters; attributes "
           "read from self and from package modules must be defined somewhere.")


def where(m, n, q=""):
    return f"neutrinomass/{m.rel}:{getattr(n, 'lineno', 0)} {q}".rstrip()


def short(m):
    return m.name[len(PKG) + 1:] or "neutrinomass"


def names_part(ctx, R):
    for m in ctx.src_modules():
        bad = undefined(ctx.p, m)
        rule = "every referenced name is bound in some enclosing scope"
        seen = set()
        for q, nm, node in bad:
            k = f"{short(m)}.{q}:undefined {nm}"
            if k in seen:
                continue
            seen.add(k)
            R.ob(k, False, where(m, node, q), rule, f"name {nm} is not defined")
        if not bad:
            R.ob(f"{short(m)}:names", True, f"neutrinomass/{m.rel}", rule)


def flow_part(ctx, R):
    rule = "an assignment reaches every use of a local"
    for m in ctx.src_modules():
        ok = True
        for q, fn in m.functions.items():
            f = Flow(fn)
            ctx.functions_seen.add(m.name + "." + q)
            seen = set()
            for n in f.definitely:
                if n.id in seen:
                    continue
                seen.add(n.id)
                ok = False
                R.ob(f"{short(m)}.{q}:unassigned {n.id}", False, where(m, n, q), rule, f"local {n.id} is used but no assignment reaches it")
            for n in f.maybe:
                if n.id in seen:
                    continue
                if plain_path_unbound(fn, n):
                    seen.add(n.id)
                    ok = False
                    R.ob(f"{short(m)}.{q}:unassigned {n.id}", False, where(m, n, q), rule,
                         f"local {n.id} is only assigned under a condition, and used without it")
        if ok:
            R.ob(f"{short(m)}:locals", True, f"neutrinomass/{m.rel}", rule)


def guarded_import(n):
    while n is not None:
        n = getattr(n, "_parent", None)
        if isinstance(n, ast.Try) and n.handlers:
            return True
    return False


def imports_part(ctx, R):
    rule = "an imported name exists in the module it is imported from"
    for m in ctx.src_modules():
        for n in ast.walk(m.tree):
            if not isinstance(n, (ast.Import, ast.ImportFrom)):
                continue
            for a in n.names:
                v, why = import_exists(ctx.p, m, n, a)
                if v is None:
                    continue
                if v is False and guarded_import(n):
                    continue
                src = a.name if isinstance(n, ast.Import) else ("." * n.level + (n.module or "")) + ":" + a.name
                R.ob(f"{short(m)}:import {src}", v, where(m, n), rule, why)


def local_scopes(n, m):
    """enclosing function nodes, innermost first"""
    out = []
    while n is not None:
        n = getattr(n, "_parent", None)
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            out.append(n)
    return out


def bound_locally(scopes, name, cache):
    for s in scopes:
        if id(s) not in cache:
            cache[id(s)] = Flow.find_locals(None, s)
        if name in cache[id(s)]:
            return s
    return None


def in_comp_target(n, name):
    while n is not None:
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name) and x.id == name:
                        return True
        n = getattr(n, "_parent", None)
    return False


def calls_part(ctx, R):
    p = ctx.p
    rule = "a call passes arguments its target accepts"
    for m in ctx.src_modules():
        cache = {}
        n_ok = 0
        bad = 0
        for c in ast.walk(m.tree):
            if not isinstance(c, ast.Call):
                continue
            scopes = local_scopes(c, m)
            err, tgt = "?", None
            f = c.func
            if isinstance(f, ast.Name):
                if in_comp_target(c, f.id):
                    continue
                s = bound_locally(scopes, f.id, cache)
                if s is not None:
                    err, tgt = local_call(s, f.id, c)
                else:
                    err, tgt = resolved_call(p, p.resolve(m, f.id), c)
            elif isinstance(f, ast.Attribute):
                err, tgt = method_call(p, m, f, c, scopes, cache)
            if err == "?":
                continue
            ctx.calls_seen += 1
            if err is None:
                n_ok += 1
                continue
            bad += 1
            q = ".".join(enclosing(c)) or "<module>"
            R.ob(f"{short(m)}.{q}:call {tgt}", False, where(m, c, q), rule, f"{tgt} {err}")
        if n_ok:
            R.ob(f"{short(m)}:calls", True, f"neutrinomass/{m.rel}", rule, f"{n_ok} call sites")


def local_call(s, name, c):
    defs = [n for n in ast.walk(s) if isinstance(n, ast.FunctionDef) and n.name == name and n is not s]
    stores = [n for n in ast.walk(s) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store)]
    a = s.args
    if len(defs) == 1 and not stores and name not in {x.arg for x in a.args + a.kwonlyargs}:
        if defs[0].decorator_list:
            return "?", None
        return accepts(defs[0], c, 0), name
    if len(stores) == 1 and not defs and name not in {x.arg for x in a.args + a.kwonlyargs}:
        par = getattr(stores[0], "_parent", None)
        if isinstance(par, ast.Assign) and len(par.targets) == 1 and isinstance(par.value, ast.Lambda):
            return accepts(par.value, c, 0), name
    return "?", None


def resolved_call(p, r, c):
    if r is None:
        return "?", None
    if r.op == "fn":
        try:
            _, fn = p.fn_node(r.args[0])
        except Exception:
            return "?", None
        if not plain(fn):
            return "?", None
        return accepts(fn, c, 0), r.args[0].split(".")[-1]
    if r.op == "cls":
        return check_class_call(p, r.args[0], c), r.args[0].split(".")[-1]
    return "?", None


def is_static(fn):
    return "staticmethod" in deco_names(fn)


def method_call(p, m, f, c, scopes, cache):
    b = f.value
    # module.attr
    if isinstance(b, ast.Name) and bound_locally(scopes, b.id, cache) is None and not in_comp_target(c, b.id):
        r = p.resolve(m, b.id)
        if r is not None and r.op == "mod":
            return resolved_call(p, p.mod_attr(r.args[0], f.attr), c)
        if r is not None and r.op == "cls":
            fm = p.find_method(r.args[0], f.attr)
            if fm is not None and plain(fm[2]):
                d = deco_names(fm[2])
                if "property" in d:
                    return "?", None
                skip = 1 if "classmethod" in d else 0
                return accepts(fm[2], c, skip), r.args[0].split(".")[-1] + "." + f.attr
            return "?", None
        if r is not None and r.op in ("ext", "builtin"):
            return "?", None
    # self.method
    cls = enclosing_class(c)
    if isinstance(b, ast.Name) and cls is not None and scopes and isinstance(scopes[-1], ast.FunctionDef) \
            and scopes[-1].args.args and b.id == scopes[-1].args.args[0].arg and not is_static(scopes[-1]) \
            and getattr(scopes[-1], "_parent", None) is cls and not any(b.id in Flow.find_locals(None, s) for s in scopes[:-1]):
        q = cls._qual
        cands = [p.find_method(q, f.attr)] + [p.find_method(s, f.attr) for s in p.subclasses(q)]
        cands = [x for x in cands if x is not None]
        if cands and all(plain(x[2]) and "property" not in deco_names(x[2]) for x in cands):
            errs = [accepts(x[2], c, 0 if is_static(x[2]) else 1) for x in cands]
            return (None if None in errs else errs[0]), "self." + f.attr
        return "?", None
    # super().method
    if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "super" and cls is not None:
        q = cls._qual
        for base in p.mro(q)[1:]:
            fm = p.find_method(base, f.attr)
            if fm is not None and plain(fm[2]):
                if not closed_class(p, q) and f.attr in ("__new__",):
                    return "?", None
                return accepts(fm[2], c, 0 if is_static(fm[2]) or f.attr == "__new__" else 1), "super()." + f.attr
        return "?", None
    # x.method, when every definition of that name is in the package
    if f.attr in p.method_index and f.attr not in FOREIGN and not f.attr.startswith("__"):
        errs = []
        for q, fn in p.method_index[f.attr]:
            d = deco_names(fn)
            if not plain(fn) or "property" in d:
                return "?", None
            errs.append(accepts(fn, c, 0 if is_static(fn) else 1))
        return (None if None in errs else errs[0]), "." + f.attr
    return "?", None


FOREIGN = set(dir(str)) | set(dir(list)) | set(dir(dict)) | set(dir(set)) | set(dir(tuple)) | set(dir(int)) | {
    "subs", "name", "new", "fill", "conj", "conjugate", "index", "indices", "components", "args", "func", "simplify", "query", "print",
    "merge", "filter", "process", "dimension", "info", "draw", "show"}


def enclosing_class(n):
    while n is not None:
        n = getattr(n, "_parent", None)
        if isinstance(n, ast.ClassDef):
            return n
    return None


def attrs_part(ctx, R):
    """attributes of package modules, and of self in classes whose bases are all known"""
    p = ctx.p
    rule = "an attribute read from a package module or from self is defined"
    stored = {}
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                stored.setdefault(n.attr, []).append(m)
    for m in ctx.src_modules():
        cache = {}
        ok = bad = 0
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Attribute) or not isinstance(n.value, ast.Name):
                continue
            scopes = local_scopes(n, m)
            b = n.value.id
            s = bound_locally(scopes, b, cache)
            if s is None and not in_comp_target(n, b):
                r = p.resolve(m, b)
                if r is not None and r.op == "mod":
                    tm = p.modules[r.args[0]]
                    k, opaque = module_names(p, tm)
                    if n.attr in k or r.args[0] + "." + n.attr in p.modules or n.attr.startswith("__"):
                        ok += 1
                    elif not opaque and isinstance(n.ctx, ast.Load):
                        bad += 1
                        q = ".".join(enclosing(n)) or "<module>"
                        R.ob(f"{short(m)}.{q}:attribute {b}.{n.attr}", False, where(m, n, q), rule, f"module {r.args[0]} has no {n.attr}")
                continue
            cls = enclosing_class(n)
            if cls is None or not scopes or s is not scopes[-1] or not isinstance(s, ast.FunctionDef) or not s.args.args \
                    or b != s.args.args[0].arg or getattr(s, "_parent", None) is not cls \
                    or {"staticmethod", "classmethod"} & set(deco_names(s)):
                continue
            q = cls._qual
            fam = set(p.mro(q)) | set(p.subclasses(q))
            for x in list(fam):
                fam |= set(p.mro(x))
            if not all(closed_class(p, x) for x in fam) or any(p.find_method(x, g) for x in fam for g in ("__getattr__", "__getattribute__")):
                continue
            if n.attr in stored or n.attr.startswith("__") or any(defines(p, x, n.attr) for x in fam):
                ok += 1
                continue
            bad += 1
            qq = ".".join(enclosing(n))
            R.ob(f"{short(m)}.{qq}:attribute self.{n.attr}", False, where(m, n, qq), rule, f"no class of {q} defines {n.attr}")
        if ok:
            R.ob(f"{short(m)}:attributes", True, f"neutrinomass/{m.rel}", rule, f"{ok} reads")


def defines(p, q, attr):
    if p.find_method(q, attr) is not None:
        return True
    for c in p.mro(q):
        m, node = p.cls_node(c)
        for n in node.body:
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == attr for t in n.targets):
                return True
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == attr:
                return True
        for n in ast.walk(node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                return True
            if isinstance(n, ast.Attribute) and n.attr == "__dict__":
                return True
    return False


PARTS = [("names are defined", names_part), ("locals are assigned", flow_part), ("imports exist", imports_part),
         ("calls fit their targets", calls_part), ("attributes exist", attrs_part)]
