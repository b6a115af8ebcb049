"""Behaviour-preserving rewrites of one function: used to confirm that the
checks stay quiet on them.  Every rewrite is one edit at one site."""
import ast
import copy
from collections import Counter

from .variants import fresh_tree, find_fn, is_doc


def parents(tree):
    for n in ast.walk(tree):
        for ch in ast.iter_child_nodes(n):
            ch._parent = n


def loads(n):
    out = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
    return out | {x.target.id for x in ast.walk(n) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}


def stores(n):
    out = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
    for x in ast.walk(n):
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out.add(x.name)
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split(".")[0] for a in x.names}
    return out


def has(n, *kinds):
    return any(isinstance(x, kinds) for x in ast.walk(n))


def pure(e):
    return not has(e, ast.Call, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Await)


def blocks(fn):
    for n in ast.walk(fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def locals_of(fn):
    """Names bound in the function's own scope (nested scopes left out)."""
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            return set()

    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.Lambda, ast.FunctionDef, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                out.add(c.id)
            go(c)
    go(fn)
    return out - {a.arg for a in fn.args.args + fn.args.kwonlyargs}


def rename_locals(fn, tree):
    ls = locals_of(fn) - {a.arg for n in ast.walk(fn) if n is not fn and isinstance(n, (ast.Lambda, ast.FunctionDef)) for a in n.args.args}
    if not ls:
        return
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in ls:
            n.id = n.id + "_v"
    yield "locals renamed"


def terminal(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def edits(fn, tree):
    """yield (name, callable performing the edit) - each on the given tree"""
    parents(tree)
    out = []

    # if/else inversion; nested ifs; else after return
    for n in list(ast.walk(fn)):
        if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            def f(n=n):
                n.test = ast.UnaryOp(ast.Not(), n.test)
                n.body, n.orelse = n.orelse, n.body
            out.append(("if/else inverted", n.lineno, f))
        if isinstance(n, ast.IfExp):
            def f(n=n):
                n.test = ast.UnaryOp(ast.Not(), n.test)
                n.body, n.orelse = n.orelse, n.body
            out.append(("conditional expression inverted", n.lineno, f))
        if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            def f(n=n):
                inner = ast.If(test=ast.BoolOp(ast.And(), n.test.values[1:]) if len(n.test.values) > 2 else n.test.values[1], body=n.body, orelse=[])
                n.test, n.body = n.test.values[0], [inner]
            out.append(("condition split into nested ifs", n.lineno, f))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            if isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
                def f(n=n):
                    n.left, n.comparators = n.comparators[0], [n.left]
                out.append(("comparison operands swapped", n.lineno, f))
            if isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
                def f(n=n):
                    n.left, n.comparators = n.comparators[0], [n.left]
                    n.ops = [{ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[type(n.ops[0])]()]
                out.append(("inequality flipped", n.lineno, f))
            if isinstance(n.ops[0], ast.NotEq):
                def f(n=n):
                    n.ops = [ast.Eq()]
                    par = n._parent
                    for fld, v in ast.iter_fields(par):
                        if v is n:
                            setattr(par, fld, ast.UnaryOp(ast.Not(), n))
                        elif isinstance(v, list) and n in v:
                            v[v.index(n)] = ast.UnaryOp(ast.Not(), n)
                out.append(("!= spelled not ==", n.lineno, f))
            if isinstance(n.ops[0], ast.In) and isinstance(n.comparators[0], (ast.Set, ast.List, ast.Tuple)) and 1 < len(n.comparators[0].elts) <= 4 and pure(n.left):
                def f(n=n):
                    new = ast.BoolOp(ast.Or(), [ast.Compare(copy.deepcopy(n.left), [ast.Eq()], [e]) for e in n.comparators[0].elts])
                    repl(n, new)
                out.append(("membership spelled as comparisons", n.lineno, f))
        if isinstance(n, ast.BoolOp) and len(n.values) == 2 and all(pure(v) for v in n.values) \
                and isinstance(getattr(n, "_parent", None), (ast.If, ast.IfExp, ast.While, ast.Assert)) \
                and not has(n, ast.Subscript):
            def f(n=n):
                neg = ast.Or() if isinstance(n.op, ast.And) else ast.And()
                repl(n, ast.UnaryOp(ast.Not(), ast.BoolOp(neg, [ast.UnaryOp(ast.Not(), v) for v in n.values])))
            out.append(("De Morgan", n.lineno, f))
        if isinstance(n, ast.JoinedStr) and all(isinstance(v, ast.Constant) or (isinstance(v, ast.FormattedValue) and v.format_spec is None and v.conversion == -1) for v in n.values):
            def f(n=n):
                fmt = "".join(v.value.replace("{", "{{").replace("}", "}}") if isinstance(v, ast.Constant) else "{}" for v in n.values)
                args = [v.value for v in n.values if isinstance(v, ast.FormattedValue)]
                repl(n, ast.Call(ast.Attribute(ast.Constant(fmt), "format", ast.Load()), args, []))
            out.append(("f-string as format call", n.lineno, f))

            def f2(n=n):
                e = ast.Constant("")
                for v in n.values:
                    e = ast.BinOp(e, ast.Add(), v if isinstance(v, ast.Constant) else ast.Call(ast.Name("str", ast.Load()), [v.value], []))
                repl(n, e)
            out.append(("f-string as concatenation", n.lineno, f2))
        if isinstance(n, ast.Lambda) and not n.args.defaults and not n.args.vararg and not n.args.kwarg:
            st = stmt_of(n)
            if st is not None and not in_comp(n, st):
                def f(n=n, st=st):
                    d = ast.FunctionDef(name="_fn", args=n.args, body=[ast.Return(n.body)], decorator_list=[], type_params=[])
                    repl(n, ast.Name("_fn", ast.Load()))
                    insert_before(st, [d])
                out.append(("lambda as nested function", n.lineno, f))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("any", "all") and len(n.args) == 1 \
                and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)):
            def f(n=n):
                g = n.args[0]
                n.func.id = "all" if n.func.id == "any" else "any"
                g.elt = ast.UnaryOp(ast.Not(), g.elt)
                repl(n, ast.UnaryOp(ast.Not(), n))
            if isinstance(n._parent, (ast.If, ast.IfExp, ast.Return, ast.BoolOp, ast.UnaryOp, ast.Assert)):
                out.append(("any/all dual", n.lineno, f))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "map" and len(n.args) == 2:
            def f(n=n):
                repl(n, ast.GeneratorExp(ast.Call(n.args[0], [ast.Name("_m", ast.Load())], []), [ast.comprehension(ast.Name("_m", ast.Store()), n.args[1], [], 0)]))
            out.append(("map as generator", n.lineno, f))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "filter" and len(n.args) == 2:
            def f(n=n):
                repl(n, ast.GeneratorExp(ast.Name("_m", ast.Load()), [ast.comprehension(ast.Name("_m", ast.Store()), n.args[1], [ast.Call(n.args[0], [ast.Name("_m", ast.Load())], [])], 0)]))
            out.append(("filter as generator", n.lineno, f))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "dict" and not n.args and n.keywords and all(k.arg for k in n.keywords):
            def f(n=n):
                repl(n, ast.Dict([ast.Constant(k.arg) for k in n.keywords], [k.value for k in n.keywords]))
            out.append(("dict() as literal", n.lineno, f))
        # for k, v in d.items()
        if isinstance(n, ast.For) and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and all(isinstance(e, ast.Name) for e in n.target.elts) \
                and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr == "items" and pure(n.iter.func.value):
            def f(n=n):
                k, v = n.target.elts
                d = n.iter.func.value
                n.iter = d
                n.target = k
                n.body.insert(0, ast.Assign([v], ast.Subscript(copy.deepcopy(d), ast.Name(k.id, ast.Load()), ast.Load())))
            out.append(("items() as key loop", n.lineno, f))
        if isinstance(n, ast.For):
            def f(n=n):
                n.iter = ast.Call(ast.Name("enumerate", ast.Load()), [n.iter], [])
                n.target = ast.Tuple([ast.Name("_k", ast.Store()), n.target], ast.Store())
            out.append(("loop with enumerate", n.lineno, f))
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and pure(n.iter) and not isinstance(n.iter, ast.Constant) and not n.orelse \
                and is_seq(n.iter, fn):
            def f(n=n):
                it = n.iter
                n.body.insert(0, ast.Assign([n.target], ast.Subscript(copy.deepcopy(it), ast.Name("_k", ast.Load()), ast.Load())))
                n.target = ast.Name("_k", ast.Store())
                n.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [it], [])], [])
            out.append(("loop by index", n.lineno, f))
        if isinstance(n, ast.For) and not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse and not terminal(n.body[0].body):
            def f(n=n):
                i = n.body[0]
                n.body = [ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Continue()], [])] + i.body
            out.append(("guard with continue", n.lineno, f))

    # block-level edits
    for owner, fld, b in list(blocks(fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and s.orelse and terminal(s.body):
                def f(b=b, i=i, s=s):
                    rest = s.orelse
                    s.orelse = []
                    b[i + 1:i + 1] = rest
                out.append(("else after return removed", s.lineno, f))
            if isinstance(s, ast.If) and not s.orelse and terminal(s.body) and isinstance(s.body[-1], ast.Return) and i + 1 < len(b) and owner is fn:
                def f(b=b, i=i, s=s):
                    s.orelse = b[i + 1:]
                    del b[i + 1:]
                out.append(("rest moved into else", s.lineno, f))
            if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                def f(b=b, i=i, s=s):
                    b[i] = ast.If(s.value.test, [ast.Return(s.value.body)], [ast.Return(s.value.orelse)])
                out.append(("conditional return as if", s.lineno, f))
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                def f(b=b, i=i, s=s):
                    b[i] = ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)], [ast.Assign(copy.deepcopy(s.targets), s.value.orelse)])
                out.append(("conditional assignment as if", s.lineno, f))
            if isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and s.body[0].value is not None and i + 1 < len(b) \
                    and isinstance(b[i + 1], ast.Return) and b[i + 1].value is not None and not s.orelse:
                def f(b=b, i=i, s=s):
                    b[i] = ast.Return(ast.IfExp(s.test, s.body[0].value, b[i + 1].value))
                    del b[i + 1]
                out.append(("if return as conditional", s.lineno, f))
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                def f(b=b, i=i, s=s):
                    b[i:i + 1] = [ast.Assign([ast.Name("_out", ast.Store())], s.value), ast.Return(ast.Name("_out", ast.Load()))]
                out.append(("return through a variable", s.lineno, f))
            if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, ast.ListComp):
                def f(b=b, i=i, s=s):
                    c = s.value
                    body = [ast.Expr(ast.Call(ast.Attribute(ast.Name("_acc", ast.Load()), "append", ast.Load()), [c.elt], []))]
                    for g in reversed(c.generators):
                        for t in reversed(g.ifs):
                            body = [ast.If(t, body, [])]
                        body = [ast.For(g.target, g.iter, body, [])]
                    s.value = ast.Name("_acc", ast.Load())
                    b[i:i] = [ast.Assign([ast.Name("_acc", ast.Store())], ast.List([], ast.Load()))] + body
                # comprehension variables must not clash with other locals
                tv = set().union(*[stores(g.target) for g in s.value.generators])
                others = set()
                for t in fn.body:
                    others |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name)} if t is not s and not contains(t, s) else set()
                params = {a.arg for a in fn.args.args}
                if not (tv & params) and not (tv & stores_outside(fn, s.value)):
                    out.append(("list comprehension as loop", s.lineno, f))
            if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, ast.DictComp):
                def f(b=b, i=i, s=s):
                    c = s.value
                    body = [ast.Assign([ast.Subscript(ast.Name("_acc", ast.Load()), c.key, ast.Store())], c.value)]
                    for g in reversed(c.generators):
                        for t in reversed(g.ifs):
                            body = [ast.If(t, body, [])]
                        body = [ast.For(g.target, g.iter, body, [])]
                    s.value = ast.Name("_acc", ast.Load())
                    b[i:i] = [ast.Assign([ast.Name("_acc", ast.Store())], ast.Dict([], []))] + body
                tv = set().union(*[stores(g.target) for g in s.value.generators])
                if not (tv & stores_outside(fn, s.value)) and not (tv & {a.arg for a in fn.args.args}):
                    out.append(("dict comprehension as loop", s.lineno, f))
            if isinstance(s, ast.Return) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ("any", "all") \
                    and len(s.value.args) == 1 and isinstance(s.value.args[0], (ast.GeneratorExp, ast.ListComp)):
                def f(b=b, i=i, s=s):
                    c = s.value.args[0]
                    anyp = s.value.func.id == "any"
                    body = [ast.If(c.elt if anyp else ast.UnaryOp(ast.Not(), c.elt), [ast.Return(ast.Constant(anyp))], [])]
                    for g in reversed(c.generators):
                        for t in reversed(g.ifs):
                            body = [ast.If(t, body, [])]
                        body = [ast.For(g.target, g.iter, body, [])]
                    b[i:i + 1] = body + [ast.Return(ast.Constant(not anyp))]
                out.append(("any/all as loop", s.lineno, f))
            # for ... append  ->  comprehension
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) \
                    and i + 1 < len(b) and isinstance(b[i + 1], ast.For) and not b[i + 1].orelse:
                acc = s.targets[0].id
                gens, body, ok = [], [b[i + 1]], True
                while len(body) == 1 and isinstance(body[0], (ast.For, ast.If)):
                    x = body[0]
                    if isinstance(x, ast.For) and not x.orelse:
                        gens.append(ast.comprehension(x.target, x.iter, [], 0))
                    elif isinstance(x, ast.If) and not x.orelse and gens:
                        gens[-1].ifs.append(x.test)
                    else:
                        ok = False
                        break
                    body = x.body
                if ok and len(body) == 1 and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Call) and isinstance(body[0].value.func, ast.Attribute) \
                        and body[0].value.func.attr == "append" and isinstance(body[0].value.func.value, ast.Name) and body[0].value.func.value.id == acc \
                        and acc not in loads(body[0].value.args[0]) and not any(acc in loads(g.iter) or any(acc in loads(t) for t in g.ifs) for g in gens):
                    def f(b=b, i=i, s=s, gens=gens, elt=body[0].value.args[0]):
                        s.value = ast.ListComp(elt, gens)
                        del b[i + 1]
                    out.append(("append loop as comprehension", s.lineno, f))
            # temp variable for a call argument
            if isinstance(s, (ast.Return, ast.Assign, ast.Expr, ast.If)):
                e = s.test if isinstance(s, ast.If) else s.value
                if isinstance(e, ast.Call) and e.args and isinstance(e.args[0], (ast.Call, ast.BinOp, ast.ListComp, ast.Attribute, ast.Subscript)) and not isinstance(e.args[0], ast.Starred) \
                        and pure(e.func):
                    def f(b=b, i=i, e=e):
                        b[i:i] = [ast.Assign([ast.Name("_arg", ast.Store())], e.args[0])]
                        e.args[0] = ast.Name("_arg", ast.Load())
                    if not (i > 0 and isinstance(s, ast.If) and isinstance(owner, ast.If) and fld == "orelse"):
                        out.append(("argument through a variable", s.lineno, f))
            # inline a temporary used once in the next statement
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and i + 1 < len(b) \
                    and isinstance(b[i + 1], (ast.Return, ast.Assign, ast.Expr)) and not isinstance(s.value, (ast.List, ast.Dict, ast.Set)):
                nm = s.targets[0].id
                uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == nm]
                nxt = [x for x in ast.walk(b[i + 1]) if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load)]
                if len(uses) == 2 and len(nxt) == 1 and not inside_scope(nxt[0], b[i + 1]):
                    def f(b=b, i=i, s=s, u=nxt[0]):
                        repl(u, s.value)
                        del b[i]
                    out.append(("temporary inlined", s.lineno, f))
            # swap independent neighbours
            if i + 1 < len(b) and isinstance(s, ast.Assign) and isinstance(b[i + 1], ast.Assign):
                t = b[i + 1]
                if all(isinstance(x, ast.Name) for x in s.targets + t.targets) and not (stores(s) & (loads(t) | stores(t))) and not (stores(t) & loads(s)) \
                        and (pure(s.value) or pure(t.value)):
                    def f(b=b, i=i):
                        b[i], b[i + 1] = b[i + 1], b[i]
                    out.append(("independent statements swapped", s.lineno, f))
            # x += number
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, (int, float)):
                def f(b=b, i=i, s=s):
                    b[i] = ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value))
                out.append(("augmented assignment spelled out", s.lineno, f))
            # do-nothing statement
            def f(b=b, i=i):
                b[i:i] = [ast.Pass()]
            if not is_doc(s):
                out.append(("pass inserted", s.lineno, f))

                def f3(b=b, i=i):
                    b[i:i] = [ast.Assign([ast.Name("_unused", ast.Store())], ast.Constant(None))]
                out.append(("dead assignment inserted", s.lineno, f3))
        # helper extraction: contiguous run of simple statements
        for i in range(len(b)):
            for j in range(i + 1, min(len(b), i + 4) + 1):
                run = b[i:j]
                if any(is_doc(x) for x in run):
                    continue
                if any(has(x, ast.Return, ast.Yield, ast.YieldFrom, ast.Break, ast.Continue, ast.FunctionDef, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, ast.Await) for x in run):
                    continue
                if any(isinstance(x, ast.Name) and x.id in ("super", "__class__", "locals") for y in run for x in ast.walk(y)):
                    continue
                if len(run) == 1 and isinstance(run[0], (ast.Pass, ast.Assert)):
                    continue
                st = set().union(*[stores(x) for x in run])
                ld = set().union(*[loads(x) for x in run])
                fl = locals_of(fn) | {a.arg for a in fn.args.args + fn.args.kwonlyargs} | {x.arg for x in (fn.args.vararg, fn.args.kwarg) if x}
                for nf in ast.walk(fn):
                    if isinstance(nf, ast.FunctionDef) and nf is not fn:
                        fl |= {nf.name}
                    if isinstance(nf, (ast.Import, ast.ImportFrom)):
                        fl |= stores(nf)
                if set(n.id for n in ast.walk(fn) if isinstance(n, ast.Name)) and any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(fn)):
                    continue
                inp = sorted(ld & fl)
                # variables possibly unset before: only pass those set for sure - skip when conditional
                before = {a.arg for a in fn.args.args + fn.args.kwonlyargs} | {x.arg for x in (fn.args.vararg, fn.args.kwarg) if x}
                if owner is not fn:
                    pass
                for x in fn.body:
                    if contains(x, run[0]):
                        break
                    before |= sure_stores(x)
                else:
                    pass
                anc = owner
                chain = []
                while anc is not None and anc is not fn:
                    chain.append(anc)
                    anc = getattr(anc, "_parent", None)
                for a in chain:
                    if isinstance(a, (ast.For,)):
                        before |= stores(a.target)
                for x in b[:i]:
                    before |= sure_stores(x)
                for a in chain:
                    pb = getattr(a, "_parent", None)
                    for ff in ("body", "orelse", "finalbody"):
                        bb = getattr(pb, ff, None)
                        if isinstance(bb, list) and a in bb:
                            for x in bb[:bb.index(a)]:
                                before |= sure_stores(x)
                need = [v for v in inp if v in before]
                if any(v not in before and v not in st for v in inp):
                    continue
                other = Counter(n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store))
                other.subtract(n.id for r in run for n in ast.walk(r) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store))
                if any(v not in before and other[v] for v in set(inp) | st):
                    continue
                carried = st & ld if any(isinstance(a, (ast.For, ast.While)) for a in chain) else set()
                outv = sorted(v for v in st if v in carried or used_outside(fn, run, v))
                if any(v not in set().union(*[sure_stores(x) for x in run]) and v not in before for v in outv):
                    continue
                need = sorted(set(need) | {v for v in outv if v in before and v not in set().union(*[sure_stores(x) for x in run])})

                def f(b=b, i=i, j=j, need=need, outv=outv):
                    run = b[i:j]
                    ret = [] if not outv else [ast.Return(ast.Name(outv[0], ast.Load()) if len(outv) == 1 else ast.Tuple([ast.Name(v, ast.Load()) for v in outv], ast.Load()))]
                    h = ast.FunctionDef(name="_helper_extracted", args=ast.arguments([], [ast.arg(v) for v in need], None, [], [], None, []),
                                        body=run + ret, decorator_list=[], type_params=[])
                    call = ast.Call(ast.Name("_helper_extracted", ast.Load()), [ast.Name(v, ast.Load()) for v in need], [])
                    if outv:
                        tg = ast.Name(outv[0], ast.Store()) if len(outv) == 1 else ast.Tuple([ast.Name(v, ast.Store()) for v in outv], ast.Store())
                        b[i:j] = [ast.Assign([tg], call)]
                    else:
                        b[i:j] = [ast.Expr(call)]
                    tree.body.append(h)
                out.append((f"statements {i}-{j} extracted into a helper", run[0].lineno, f))
    return out


def sure_stores(s):
    if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr, ast.FunctionDef, ast.Import, ast.ImportFrom)):
        return stores(s) if not isinstance(s, ast.FunctionDef) else {s.name}
    if isinstance(s, ast.If) and s.orelse:
        a = set().union(*[sure_stores(x) for x in s.body]) if not terminal(s.body) else None
        c = set().union(*[sure_stores(x) for x in s.orelse]) if not terminal(s.orelse) else None
        if a is None:
            return c or set()
        if c is None:
            return a
        return a & c
    return set()


def used_outside(fn, run, v):
    inside = {id(x) for s in run for x in ast.walk(s)}
    return any(isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load) and id(x) not in inside for x in ast.walk(fn))


def contains(big, small):
    return any(x is small for x in ast.walk(big))


def stores_outside(fn, e):
    inside = {id(x) for x in ast.walk(e)}
    return {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and id(x) not in inside}


def is_seq(e, fn):
    """iterated expression is certainly a list/tuple"""
    if isinstance(e, (ast.List, ast.Tuple)):
        return True
    if isinstance(e, ast.Attribute):
        return e.attr in ("fields", "indexed_fields", "tensors", "indices", "epsilons", "index_labels", "terms")
    if isinstance(e, ast.Name):
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                if not isinstance(n.value, (ast.List, ast.ListComp)):
                    return False
                return True
    return False


def stmt_of(n):
    while n is not None and not isinstance(n, ast.stmt):
        n = getattr(n, "_parent", None)
    return n


def in_comp(n, st):
    while n is not st:
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return True
        n = n._parent
        if isinstance(n, ast.Lambda):
            return True
    return isinstance(st, (ast.While, ast.For)) or (isinstance(st, ast.If))


def inside_scope(n, st):
    while n is not st:
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.FunctionDef)):
            return True
        n = n._parent
    return False


def insert_before(st, new):
    p = st._parent
    for f in ("body", "orelse", "finalbody"):
        b = getattr(p, f, None)
        if isinstance(b, list) and st in b:
            i = b.index(st)
            b[i:i] = new
            return


def repl(old, new):
    p = old._parent
    for f, v in ast.iter_fields(p):
        if v is old:
            setattr(p, f, new)
            return
        if isinstance(v, list):
            for i, x in enumerate(v):
                if x is old:
                    v[i] = new
                    return


def refactor_sources(m, qual, limit=None):
    n = 0
    k = 0
    while True:
        tree = fresh_tree(m)
        fn = find_fn(tree, qual)
        if fn is None:
            return
        es = edits(fn, tree)
        if k > len(es):
            return
        if k == len(es):
            got = list(rename_locals(fn, tree))
            if not got:
                return
            yield got[0], fn.lineno, ast.unparse(ast.fix_missing_locations(tree))
            return
        name, ln, f = es[k]
        k += 1
        try:
            f()
            src = ast.unparse(ast.fix_missing_locations(tree))
            ast.parse(src)
        except Exception as e:
            continue
        yield name, ln, src
