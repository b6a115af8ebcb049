"""Program variants used to measure the checks: semantic mutants and
behaviour-preserving rewrites of one function at a time."""
import ast
import copy

from ..program import Program, Module


def variant(program, modname, newtree_src):
    """The program with one module replaced."""
    old = program.modules[modname]
    m = Module(modname, old.path, old.rel, newtree_src)
    q = Program.__new__(Program)
    q.root = program.root
    q.modules = dict(program.modules)
    q.modules[modname] = m
    q._resolving = set()
    q.method_index = {}
    for mm in q.modules.values():
        if mm.rel.endswith("_test.py"):
            continue
        for cq, c in mm.classes.items():
            for n in c.body:
                if isinstance(n, ast.FunctionDef):
                    q.method_index.setdefault(n.name, []).append((mm.name + "." + cq, n))
    return q


def clean(tree):
    for n in ast.walk(tree):
        for a in ("_parent", "_qual", "_cls"):
            if hasattr(n, a):
                delattr(n, a)
    return tree


def fresh_tree(m):
    return ast.parse(m.source)


def find_fn(tree, qual):
    cur = tree.body
    node = None
    for p in qual.split("."):
        node = None
        stack = list(cur)
        while stack:
            n = stack.pop(0)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == p:
                node = n
            elif isinstance(n, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                stack += n.body + getattr(n, "orelse", [])
        if node is None:
            return None
        cur = node.body
    return node


def is_doc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)


NEG = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
EDGE = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv,
       ast.Pow: ast.Mult}


class Sites:
    """Enumerates edit sites of a function: apply(k) performs the k-th edit on a
    fresh copy and returns (description, lineno) or None past the end."""

    def __init__(self, edits):
        self.edits = edits


def mutants(fn):
    """Generator of (description, lineno, apply, undo)"""
    names = sorted({n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} |
                   {a.arg for a in fn.args.args})
    for n in list(ast.walk(fn)):
        ln = getattr(n, "lineno", 0)

        def setter(o, f, v):
            old = getattr(o, f)

            def do():
                setattr(o, f, v)

            def un():
                setattr(o, f, old)
            return do, un
        if isinstance(n, (ast.If, ast.IfExp, ast.While, ast.Assert)):
            yield ("negate condition", ln, *setter(n, "test", ast.UnaryOp(ast.Not(), n.test)))
            if isinstance(n, ast.If):
                yield ("condition always true", ln, *setter(n, "test", ast.Constant(True)))
                yield ("condition never true", ln, *setter(n, "test", ast.Constant(False)))
            if isinstance(n, ast.Assert):
                yield ("assert disabled", ln, *setter(n, "test", ast.Constant(True)))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            yield ("negated comparison", ln, *setter(n, "ops", [NEG[type(n.ops[0])]()]))
            if type(n.ops[0]) in EDGE:
                yield ("boundary comparison", ln, *setter(n, "ops", [EDGE[type(n.ops[0])]()]))
        if isinstance(n, ast.BoolOp):
            yield ("and/or swapped", ln, *setter(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And()))
            for i in range(len(n.values)):
                yield (f"operand {i} dropped", ln, *setter(n, "values", n.values[:i] + n.values[i + 1:]))
        if isinstance(n, ast.Constant) and not is_doc(getattr(n, "_parent", None) or n):
            if isinstance(n.value, bool):
                yield ("bool flipped", ln, *setter(n, "value", not n.value))
            elif isinstance(n.value, int):
                yield ("constant + 1", ln, *setter(n, "value", n.value + 1))
                if n.value:
                    yield ("constant - 1", ln, *setter(n, "value", n.value - 1))
            elif isinstance(n.value, str) and n.value and len(n.value) < 40:
                yield ("string changed", ln, *setter(n, "value", n.value + "x"))
        if isinstance(n, ast.UnaryOp):
            yield ("unary operator changed", ln, *setter(n, "op", ast.UAdd() if isinstance(n.op, ast.USub) else ast.Not() if not isinstance(n.op, ast.Not) else ast.Not()))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield ("operator changed", ln, *setter(n, "op", BIN[type(n.op)]()))
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            yield ("operator changed", ln, *setter(n, "op", BIN[type(n.op)]()))
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                yield ("arguments swapped", ln, *setter(n, "args", [n.args[1], n.args[0]] + n.args[2:]))
            for i, k in enumerate(n.keywords):
                yield (f"keyword {k.arg} dropped", ln, *setter(n, "keywords", n.keywords[:i] + n.keywords[i + 1:]))
        if isinstance(n, ast.comprehension) and n.ifs:
            yield ("comprehension filter dropped", getattr(n.target, "lineno", 0), *setter(n, "ifs", []))
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load) and len(n.elts) > 1:
            yield ("element dropped", ln, *setter(n, "elts", n.elts[:-1]))
        if isinstance(n, ast.Dict) and n.keys:
            yield ("dict entry dropped", ln, *setter(n, "keys", n.keys[:-1]))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names:
            i = names.index(n.id)
            o = names[(i + 1) % len(names)]
            if o != n.id:
                yield (f"{n.id} replaced by {o}", ln, *setter(n, "id", o))
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if not isinstance(b, list):
                continue
            for i, s in enumerate(b):
                if is_doc(s) or isinstance(s, (ast.Pass, ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                    continue
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == "print":
                    continue
                if isinstance(s, (ast.Assign, ast.Return)):
                    if isinstance(s, ast.Return) and s.value is not None and not (isinstance(s.value, ast.Constant)):
                        yield ("returns None", s.lineno, *setter(s, "value", ast.Constant(None)))
                    continue
                new = b[:i] + [ast.Pass()] + b[i + 1:]
                yield (f"{type(s).__name__} removed", s.lineno, *setter(n, fld, new))
        # wrapper removed:  f(x) -> x, x.attr -> x
        for fld, v in ast.iter_fields(n):
            if isinstance(v, ast.Call) and len(v.args) == 1 and not v.keywords and not isinstance(n, ast.Expr) \
                    and not isinstance(v.args[0], ast.Starred):
                yield (f"call unwrapped", getattr(v, "lineno", 0), *setter(n, fld, v.args[0]))
            if isinstance(v, ast.Attribute) and isinstance(v.ctx, ast.Load) and not (isinstance(n, ast.Call) and fld == "func"):
                yield (f".{v.attr} dropped", getattr(v, "lineno", 0), *setter(n, fld, v.value))


def mutant_sources(m, qual):
    tree = fresh_tree(m)
    fn = find_fn(tree, qual)
    if fn is None:
        return
    for node in ast.walk(tree):
        for ch in ast.iter_child_nodes(node):
            ch._parent = node
    for desc, ln, do, un in list(mutants(fn)):
        do()
        try:
            src = ast.unparse(ast.fix_missing_locations(tree))
            ast.parse(src)
        except Exception:
            un()
            continue
        un()
        yield desc, ln, src
