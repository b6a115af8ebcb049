"""Interprocedural side-effect analysis.

A points-to abstraction: objects are parameters and module globals (the object
itself, and everything below it), allocation sites of the function, and the
functions and classes a value may be.  Variables are tracked flow-sensitively,
the heap by object and field.  A write through a value is an effect on the
parameters and globals it may be; a call instantiates its callee's summary
(effects, stores and result) on the objects passed, to a fixpoint."""
import ast

from .program import deco_names

MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "add", "discard", "update", "setdefault",
            "popitem", "appendleft", "popleft", "extendleft", "intersection_update", "difference_update",
            "symmetric_difference_update", "subtract", "add_edge", "add_node", "add_edges_from", "add_nodes_from",
            "remove_edge", "remove_node", "remove_edges_from", "remove_nodes_from", "__setitem__", "__delitem__", "__setattr__"}
STORES_ARGS = {"append": 0, "add": 0, "insert": 1, "setdefault": 1, "appendleft": 0, "__setitem__": 1}
STORES_INNER = {"extend", "update", "extendleft"}
EXT_MUT = {"set_edge_attributes", "set_node_attributes", "shuffle", "heappush", "heappop", "heapify", "setattr", "delattr",
           "insort", "setitem", "delitem"}
# library calls whose result is a fresh container of the arguments' elements
SHALLOW = {"list", "tuple", "set", "sorted", "dict", "frozenset", "reversed", "iter", "chain", "from_iterable", "islice", "cycle",
           "defaultdict", "OrderedDict", "Counter", "deque", "flatten", "tqdm", "filter", "dropwhile", "takewhile", "filterfalse"}
# fresh container of fresh tuples of the arguments' elements
TUPLES = {"enumerate", "zip", "product", "combinations", "permutations", "combinations_with_replacement", "zip_longest", "groupby"}
ELEMENT = {"next", "min", "max", "choice"}
INNER = {"get", "pop", "setdefault", "popitem", "__getitem__", "popleft"}
VIEW = {"values", "copy", "keys", "union", "intersection", "difference", "elements", "__iter__"}
PAIRS = {"items", "most_common"}
STRM = {"join", "format", "replace", "split", "strip", "upper", "lower", "startswith", "endswith", "count", "index", "find", "translate",
        "lstrip", "rstrip", "encode", "decode", "title", "capitalize", "zfill", "isdigit"}
LISTY = {"List", "list", "Dict", "dict", "Set", "set"}
NOTHING = frozenset()


DEPTH = 3       # levels below a parameter or global that are told apart


def root(o):
    return o[0] in ("P", "G")


class Summary:
    def __init__(self):
        self.eff = {}
        self.ret = NOTHING
        self.heap = {}

    def key(self):
        return (frozenset(self.eff), self.ret, frozenset(self.heap.items()))


class Effects:
    def __init__(self, p, rounds=8):
        self.p = p
        self.sum, self.fns = {}, {}
        self.attr_props = {}
        for m in p.modules.values():
            if m.rel.endswith("_test.py"):
                continue
            for q, fn in m.functions.items():
                if "<locals>" not in q:
                    self.fns[m.name + "." + q] = (m, fn)
                    self.sum[m.name + "." + q] = Summary()
        for _ in range(rounds):
            changed = False
            for q, (m, fn) in self.fns.items():
                s = Walk(self, m, fn, q).run()
                if s.key() != self.sum[q].key():
                    changed = True
                self.sum[q] = s
            if not changed:
                break
        self.mod_eff = {}
        for m in p.modules.values():
            if not m.rel.endswith("_test.py"):
                self.mod_eff[m.name] = ModWalk(self, m).run_module()


def collapse(key):
    n = 0
    k = key
    while isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], tuple):
        n += 1
        k = k[1]
    return key if n < 3 else (key[0], key[1][0], "*")


class Walk:
    def __init__(self, E, m, fn, qual):
        self.E, self.p, self.m, self.fn, self.qual = E, E.p, m, fn, qual
        self.s = Summary()
        self.gl = set()
        self.loopdepth = 0
        self.heap = {}
        self.types = {}
        self.listy = set()
        self.active = ()
        self.frames = []

    # ------------------------------------------------------------------ driver
    def run(self):
        fn = self.fn
        a = fn.args
        env = {}
        pos = a.posonlyargs + a.args
        for x in pos + a.kwonlyargs:
            env[x.arg] = frozenset({("P", x.arg, 0)})
            if self.ann_listy(x.annotation):
                self.listy.add(("P", x.arg, 0))
        for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if isinstance(d, (ast.List, ast.Dict, ast.Set)):
                self.listy.add(("P", x.arg, 0))
        if fn.name in ("__init__", "__new__") and getattr(fn, "_cls", None) and pos:
            o = ("S", ("self",))
            self.types[o] = self.m.name + "." + fn._cls
            env[pos[0].arg] = frozenset({o})
        for v in (a.vararg, a.kwarg):
            if v:
                o = ("S", ("star", v.arg))
                env[v.arg] = frozenset({o})
                self.put(o, "[]", {("P", v.arg, 0)})
        self.env = env
        self.ret = set()
        self.block(fn.body)
        self.s.ret = frozenset(self.ret)
        self.finish()
        return self.s

    def finish(self):
        """keep the heap reachable from the result and the roots"""
        keep, todo = set(), set(self.s.ret) | {o for o, _ in self.heap if root(o)} | {("S", ("self",))}
        while todo:
            o = todo.pop()
            if o in keep:
                continue
            keep.add(o)
            for (b, f), vs in self.heap.items():
                if b == o:
                    todo |= {v for v in vs if v not in keep}
        self.s.heap = {k: frozenset(v) for k, v in self.heap.items() if k[0] in keep and v}
        self.s.types = {o: t for o, t in self.types.items() if o in keep}

    @staticmethod
    def ann_listy(ann):
        if isinstance(ann, ast.Subscript):
            ann = ann.value
        return isinstance(ann, (ast.Name, ast.Attribute)) and getattr(ann, "id", getattr(ann, "attr", "")) in LISTY

    # -------------------------------------------------------------------- heap
    def put(self, o, f, vals):
        if vals:
            self.heap.setdefault((o, f), set()).update(vals)

    def site(self, node, tag="", listy=False):
        o = ("S", (getattr(node, "lineno", 0), getattr(node, "col_offset", 0), tag))
        if listy:
            self.listy.add(o)
        return o

    def below(self, o):
        if root(o):
            return {(o[0], o[1], min(o[2] + 1, DEPTH))}
        return set()

    def load(self, v, f):
        """objects in field f of any object of v; f None = any item"""
        out = set()
        for o in v:
            out |= self.below(o)
            if f is None:
                for (b, k), vs in self.heap.items():
                    if b == o and (k == "[]" or isinstance(k, tuple)):
                        out |= vs
            else:
                out |= self.heap.get((o, f), set())
                if isinstance(f, tuple):
                    out |= self.heap.get((o, "[]"), set())
        return frozenset(out)

    def inner(self, v):
        return self.load(v, None)

    def reach(self, v):
        out, todo = set(), list(v)
        seen = set()
        while todo:
            o = todo.pop()
            if o in seen:
                continue
            seen.add(o)
            nxt = set(self.below(o))
            for (b, k), vs in self.heap.items():
                if b == o:
                    nxt |= vs
            out |= nxt
            todo.extend(nxt)
        return frozenset(out)

    def step(self, v):
        out = set()
        for o in v:
            out |= self.below(o)
            for (b, k), vs in self.heap.items():
                if b == o:
                    out |= vs
        return frozenset(out)

    def level(self, v, n):
        """objects exactly n steps below v (at least n for the last level)"""
        for _ in range(n):
            v = self.step(v)
        if n == DEPTH:
            v = v | self.reach(v)
        return v

    def effect(self, v, what, node, via=None):
        for o in v:
            if root(o):
                self.s.eff.setdefault(o, []).append((what, node, self.m, via))

    def container(self, node, vals, tag="", listy=False):
        o = self.site(node, tag, listy)
        self.put(o, "[]", vals)
        return frozenset({o})

    # -------------------------------------------------------------- statements
    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.env[s.name] = frozenset({("loc", s)})
        elif isinstance(s, ast.ClassDef):
            pass
        elif isinstance(s, (ast.Global,)):
            self.gl.update(s.names)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.ret |= self.ex(s.value)
        elif isinstance(s, ast.Assign):
            v = self.ex(s.value)
            for t in s.targets:
                self.bind(t, v)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ex(s.value))
        elif isinstance(s, ast.AugAssign):
            v = self.ex(s.value)
            if isinstance(s.target, ast.Name):
                old = self.name(s.target.id)
                if isinstance(s.op, (ast.Add, ast.BitOr, ast.Sub, ast.BitAnd)):
                    L = self.is_listy(s.value, v)
                    hit = frozenset(o for o in old if root(o) and (L or o in self.listy))
                    self.effect(hit, f"{s.target.id} {self.opstr(s.op)}= ... changes it in place", s)
                    inn = self.inner(v)
                    if not L and not any(o in self.listy for o in old):
                        # a plain rebinding to a new value
                        inn |= self.inner(old)
                        self.bind(s.target, self.container(s, inn, "aug"))
                    else:
                        for o in old:
                            self.put(o, "[]", inn)
                        if not old:
                            self.bind(s.target, self.container(s, inn, "aug"))
                else:
                    self.bind(s.target, NOTHING)
            else:
                self.bind(s.target, v)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.env.pop(t.id, None)
                elif isinstance(t, ast.Subscript):
                    b = self.ex(t.value)
                    self.ex(t.slice)
                    self.effect(b, f"del {ast.unparse(t)}", s)
                elif isinstance(t, ast.Attribute):
                    self.effect(self.ex(t.value), f"del {ast.unparse(t)}", s)
        elif isinstance(s, ast.If):
            self.ex(s.test)
            self.branch([s.body, s.orelse])
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.ex(s.iter)
            self.loop(s, lambda: self.bind_iter(s.target, s.iter))
        elif isinstance(s, ast.While):
            self.ex(s.test)
            self.loop(s, lambda: self.ex(s.test))
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.ex(i.context_expr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, NOTHING)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            before = dict(self.env)
            self.block(s.body)
            mid = self.merge(before, self.env)
            self.block(s.orelse)
            e = self.env
            for h in s.handlers:
                self.env = dict(mid)
                if h.name:
                    self.env[h.name] = NOTHING
                self.block(h.body)
                e = self.merge(e, self.env)
            self.env = e
            self.block(s.finalbody)
        elif isinstance(s, ast.Expr):
            self.ex(s.value)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                nm = a.asname or a.name.split(".")[0]
                r = self.p.resolve_import(self.m, s, a)
                self.env[nm] = self.resolved(r)
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.ex(c)

    @staticmethod
    def opstr(op):
        return {"Add": "+", "BitOr": "|", "Sub": "-", "BitAnd": "&"}[type(op).__name__]

    def is_listy(self, n, v):
        if isinstance(n, (ast.List, ast.ListComp, ast.Dict, ast.DictComp, ast.Set, ast.SetComp)):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "dict", "set", "sorted"):
            return True
        if isinstance(n, ast.BinOp):
            return self.is_listy(n.left, NOTHING) or self.is_listy(n.right, NOTHING)
        if isinstance(n, ast.Name):
            v = self.name(n.id)
        return any(o in self.listy for o in v)

    @staticmethod
    def merge(a, b):
        out = dict(a)
        for k, v in b.items():
            out[k] = out[k] | v if k in out else v
        return out

    def branch(self, bodies):
        before = self.env
        outs = []
        for b in bodies:
            self.env = dict(before)
            self.block(b)
            if not (b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))) or self.loopdepth:
                outs.append(self.env)
        e = outs[0] if outs else before
        for o in outs[1:]:
            e = self.merge(e, o)
        self.env = e

    def loop(self, s, head):
        self.loopdepth += 1
        for _ in range(2):
            before = dict(self.env)
            head()
            self.block(s.body)
            self.env = self.merge(before, self.env)
        self.loopdepth -= 1
        self.block(s.orelse)

    def bind(self, t, v):
        if isinstance(t, ast.Name):
            if t.id in self.gl:
                g = self.m.name + "." + t.id
                self.effect({("G", g, 0)}, f"assigns the module variable {t.id}", t)
                return
            self.env[t.id] = frozenset(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.bind(x.value, self.container(x, self.inner(v), "rest", True))
                else:
                    self.bind(x, self.load(v, ("k", i)))
        elif isinstance(t, ast.Attribute):
            b = self.ex(t.value)
            self.effect(b, f"{ast.unparse(t)} = ...", t)
            for o in b:
                self.put(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.ex(t.value)
            self.ex(t.slice)
            self.effect(b, f"{ast.unparse(t)} = ...", t)
            f = ("k", t.slice.value) if isinstance(t.slice, ast.Constant) else "[]"
            for o in b:
                self.put(o, f, v)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v)

    def bind_iter(self, target, node):
        self.bind(target, self.inner(self.ex(node)))

    # ------------------------------------------------------------- expressions
    def name(self, n):
        if n in self.env:
            return self.env[n]
        for fr in reversed(self.frames):
            if n in fr:
                return fr[n]
        return self.resolved(self.p.resolve(self.m, n))

    def resolved(self, r):
        if r is None:
            return NOTHING
        if r.op == "global":
            return frozenset({("G", r.args[0], 0)})
        if r.op in ("cls", "fn", "mod"):
            return frozenset({(r.op, r.args[0])})
        return NOTHING

    def ex(self, n):
        if n is None or isinstance(n, ast.Constant):
            return NOTHING
        if isinstance(n, ast.Name):
            return self.name(n.id)
        if isinstance(n, ast.NamedExpr):
            v = self.ex(n.value)
            self.bind(n.target, v)
            return v
        if isinstance(n, ast.Attribute):
            return self.read_attr(self.ex(n.value), n.attr, n)
        if isinstance(n, ast.Subscript):
            b = self.ex(n.value)
            if isinstance(n.slice, ast.Slice):
                for x in (n.slice.lower, n.slice.upper, n.slice.step):
                    self.ex(x)
                return self.container(n, self.inner(b), "slice", any(o in self.listy for o in b))
            self.ex(n.slice)
            if isinstance(n.slice, ast.Constant):
                return self.load(b, ("k", n.slice.value))
            return self.inner(b)
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
            o = self.site(n, "lit", isinstance(n, (ast.List, ast.Set)))
            star = any(isinstance(e, ast.Starred) for e in n.elts)
            for i, e in enumerate(n.elts):
                if isinstance(e, ast.Starred):
                    self.put(o, "[]", self.inner(self.ex(e.value)))
                else:
                    self.put(o, "[]" if star else ("k", i), self.ex(e))
            return frozenset({o})
        if isinstance(n, ast.Dict):
            o = self.site(n, "lit", True)
            for k, v in zip(n.keys, n.values):
                x = self.ex(v)
                if k is None:
                    self.put(o, "[]", self.inner(x))
                else:
                    kv = self.ex(k)
                    self.put(o, ("k", k.value) if isinstance(k, ast.Constant) else "[]", x)
                    self.put(o, "keys", kv)
            return frozenset({o})
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            old = dict(self.env)
            for g in n.generators:
                self.bind_iter(g.target, g.iter)
                for c in g.ifs:
                    self.ex(c)
            o = self.site(n, "comp", not isinstance(n, ast.GeneratorExp))
            if isinstance(n, ast.DictComp):
                self.put(o, "keys", self.ex(n.key))
                self.put(o, "[]", self.ex(n.value))
            else:
                self.put(o, "[]", self.ex(n.elt))
            self.env = old
            return frozenset({o})
        if isinstance(n, ast.IfExp):
            self.ex(n.test)
            return self.ex(n.body) | self.ex(n.orelse)
        if isinstance(n, ast.BoolOp):
            v = NOTHING
            for x in n.values:
                v = v | self.ex(x)
            return v
        if isinstance(n, ast.BinOp):
            a, b = self.ex(n.left), self.ex(n.right)
            if isinstance(n.op, (ast.Add, ast.Mult, ast.BitOr, ast.BitAnd, ast.Sub)):
                return self.container(n, self.inner(a) | self.inner(b), "bin", any(o in self.listy for o in a | b))
            return NOTHING
        if isinstance(n, ast.Lambda):
            return frozenset({("loc", n)})
        if isinstance(n, ast.Starred):
            return self.ex(n.value)
        if isinstance(n, ast.Call):
            return self.call(n)
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            v = self.ex(n.value) if n.value else NOTHING
            o = ("S", ("yield",))
            self.put(o, "[]", v if isinstance(n, ast.Yield) else self.inner(v))
            self.ret |= {o}
            return NOTHING
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ex(c)
        return NOTHING

    def read_attr(self, b, attr, node):
        out = set()
        rest = set()
        for o in b:
            if o[0] == "mod":
                r = self.p.mod_attr(o[1], attr)
                out |= self.resolved(r)
            elif o[0] == "cls":
                fm = self.p.find_method(o[1], attr)
                if fm is not None:
                    out.add(("fn", fm[2]._qual))
                elif attr in self.p.class_attr_nodes(o[1]):
                    out.add(("G", o[1] + "." + attr, 0))
            else:
                rest.add(o)
        if rest and attr != "__class__":
            props = self.props(frozenset(rest), attr)
            for q, f in props:
                s = self.E.sum.get(f._qual)
                if s is not None:
                    out |= self.instantiate(s, f, [frozenset(rest)], {}, node, f._qual)
            if not props:
                out |= self.load(frozenset(rest), attr)
                for o in rest:
                    t = self.types.get(o)
                    if t:
                        for c in self.p.mro(t):
                            if attr in self.p.class_attr_nodes(c):
                                out.add(("G", c + "." + attr, 0))
        return frozenset(out)

    def props(self, b, attr):
        cands = [(q, f) for q, f in self.p.method_index.get(attr, []) if {"property", "cached_property"} & set(deco_names(f))]
        return self.narrow(b, attr, cands)

    def narrow(self, b, name, cands):
        ts = {self.types.get(o) for o in b}
        ps = self.fn.args.args if self.fn is not None else []
        me = ps[0].arg if ps and self.p_class() and "staticmethod" not in deco_names(self.fn) else None
        if me and b and all(o == ("P", me, 0) for o in b):
            cq = self.p_class()
            ts = {cq} | set(self.p.subclasses(cq))
        if None in ts or not ts:
            return cands
        out = []
        for t in ts:
            fm = self.p.find_method(t, name)
            if fm is not None and (fm[0], fm[2]) in [(q, f) for q, f in cands] and (fm[0], fm[2]) not in out:
                out.append((fm[0], fm[2]))
        return out

    # ------------------------------------------------------------------- calls
    def call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute):
            base = self.ex(f.value)
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                return self.call_super(f.attr, n)
            special = frozenset(o for o in base if o[0] in ("mod", "cls"))
            if special:
                pos, kw = self.args(n)
                out = NOTHING
                for o in special:
                    if o[0] == "mod":
                        out |= self.apply(self.resolved(self.p.mod_attr(o[1], f.attr)), pos, kw, n, f.attr)
                    else:
                        fm = self.p.find_method(o[1], f.attr)
                        if fm is not None and fm[2]._qual in self.E.sum:
                            a = ([base] if "classmethod" in deco_names(fm[2]) else []) + self.flat(pos)
                            out |= self.instantiate(self.E.sum[fm[2]._qual], fm[2], a, kw, n, fm[2]._qual)
                return out
            return self.call_method(base, f.attr, n)
        v = self.ex(f)
        pos, kw = self.args(n)
        return self.apply(v, pos, kw, n, f.id if isinstance(f, ast.Name) else "")

    def args(self, n):
        pos = [("*" if isinstance(a, ast.Starred) else "", self.ex(a)) for a in n.args]
        kw = {}
        for k in n.keywords:
            v = self.ex(k.value)
            if k.arg is None:
                kw[None] = kw.get(None, NOTHING) | v
            else:
                kw[k.arg] = v
        return pos, kw

    def flat(self, pos):
        return [v if s == "" else self.inner(v) for s, v in pos]

    def apply(self, v, pos, kw, n, name):
        out = set()
        known = False
        for f in v:
            if f[0] == "fn":
                s = self.E.sum.get(f[1])
                if s is not None:
                    known = True
                    out |= self.instantiate(s, self.E.fns[f[1]][1], self.flat(pos), kw, n, f[1])
            elif f[0] == "cls":
                known = True
                out |= self.construct(f[1], pos, kw, n)
            elif f[0] == "loc":
                known = True
                out |= self.call_local(f[1], pos, kw, n)
        if known:
            return frozenset(out)
        if v and all(not root(o) for o in v):
            q = [o for o in v if o in self.types]
            for o in q:
                fm = self.p.find_method(self.types[o], "__call__")
                if fm is not None and fm[2]._qual in self.E.sum:
                    out |= self.instantiate(self.E.sum[fm[2]._qual], fm[2], [frozenset({o})] + self.flat(pos), kw, n, fm[2]._qual)
            if q:
                return frozenset(out)
        elif v:
            for q, f in self.p.method_index.get("__call__", []):
                if f._qual in self.E.sum:
                    out |= self.instantiate(self.E.sum[f._qual], f, [v] + self.flat(pos), kw, n, f._qual)
            return frozenset(out)
        return self.call_ext(name, pos, kw, n)

    def callback(self, v, args, n):
        out = set()
        for f in v:
            if f[0] == "loc":
                out |= self.call_local(f[1], [("", a) for a in args], {}, n)
            elif f[0] == "fn" and f[1] in self.E.sum:
                out |= self.instantiate(self.E.sum[f[1]], self.E.fns[f[1]][1], list(args), {}, n, f[1])
            elif f[0] == "cls":
                out |= self.construct(f[1], [("", a) for a in args], {}, n)
        return frozenset(out)

    def call_ext(self, name, pos, kw, n):
        vals = self.flat(pos)
        allv = NOTHING.union(*vals) if vals else NOTHING
        if name in EXT_MUT and vals:
            self.effect(vals[0], f"{name}({ast.unparse(n.args[0])}, ...)", n)
            if name in ("setattr", "setitem") and len(vals) > 2:
                for o in vals[0]:
                    self.put(o, "[]", vals[2])
            return NOTHING
        if name == "deepcopy":
            o = self.site(n, "deepcopy")
            return frozenset({o})
        if name == "copy" and vals:
            # same fields, new object
            o = self.site(n, "copy", any(x in self.listy for x in vals[0]))
            for b in vals[0]:
                self.put(o, "[]", self.below(b))
                for (bb, f), vs in list(self.heap.items()):
                    if bb == b:
                        self.put(o, f, vs)
                if b in self.types:
                    self.types[o] = self.types[b]
                if root(b):
                    self.put(o, "*", self.below(b))
            return frozenset({o})
        fns = [v for v in vals + list(kw.values()) if any(f[0] in ("loc", "fn", "cls") for f in v)]
        if name == "map" and len(vals) > 1:
            r = self.callback(vals[0], [self.inner(x) for x in vals[1:]], n)
            return self.container(n, r, "map")
        if name == "reduce" and len(vals) > 1:
            acc = vals[2] if len(vals) > 2 else self.inner(vals[1])
            for _ in range(2):
                acc = acc | self.callback(vals[0], [acc, self.inner(vals[1])], n)
            return acc
        for v in fns:
            others = NOTHING.union(*[self.inner(x) for x in vals if x is not v]) if len(vals) > 1 or kw else NOTHING
            for f in v:
                if f[0] == "loc":
                    self.callback(frozenset({f}), [others] * len(f[1].args.args), n)
        if name in SHALLOW:
            inn = NOTHING.union(*[self.inner(v) for v in vals]) if vals else NOTHING
            if name == "chain" or name == "from_iterable":
                inn = inn | self.inner(inn)
            if name == "dict" and kw:
                inn = inn.union(*kw.values())
            return self.container(n, inn, "call", name in ("list", "sorted", "dict", "set"))
        if name in TUPLES:
            o = self.site(n, "call")
            t = self.site(n, "tuple")
            if name == "enumerate" and vals:
                self.put(t, ("k", 1), self.inner(vals[0]))
            elif name == "zip":
                for i, (st, v) in enumerate(pos):
                    if st == "*":
                        self.put(t, "[]", self.inner(self.inner(v)))
                    else:
                        self.put(t, ("k", i), self.inner(v))
            elif name == "groupby" and vals:
                g = self.site(n, "group")
                self.put(g, "[]", self.inner(vals[0]))
                self.put(t, ("k", 1), {g})
                self.put(t, ("k", 0), self.inner(vals[0]))
            else:
                for v in vals:
                    self.put(t, "[]", self.inner(v))
            self.put(o, "[]", {t})
            return frozenset({o})
        if name == "getattr" and vals:
            a = n.args[1].value if len(n.args) > 1 and isinstance(n.args[1], ast.Constant) else None
            v = self.read_attr(vals[0], a, n) if isinstance(a, str) else self.reach(vals[0])
            return v | (vals[2] if len(vals) > 2 else NOTHING)
        if name in ELEMENT and vals:
            return self.inner(vals[0]) | (allv if len(vals) > 1 else NOTHING)
        return NOTHING

    def call_local(self, f, pos, kw, n):
        if f in self.active or len(self.active) > 6:
            return NOTHING
        old, oldret, oldfr = self.env, self.ret, self.frames
        self.active += (f,)
        env = {}
        a = f.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        vals = self.flat(pos)
        for p_, v in zip(ps, vals):
            env[p_] = v
        dfl = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
        for p_ in ps[len(vals):] + [x.arg for x in a.kwonlyargs]:
            env[p_] = kw.get(p_, self.ex(dfl[p_]) if p_ in dfl else NOTHING)
        if a.vararg:
            env[a.vararg.arg] = self.container(n, NOTHING.union(*vals[len(ps):]) if vals[len(ps):] else NOTHING, "varargs")
        if a.kwarg:
            env[a.kwarg.arg] = self.container(n, NOTHING.union(*kw.values()) if kw else NOTHING, "kwargs")
        nl = set()
        for x in ast.walk(f):
            if isinstance(x, ast.Nonlocal):
                nl.update(x.names)
        self.frames = oldfr + [old]
        self.env = env
        if isinstance(f, ast.Lambda):
            r = self.ex(f.body)
        else:
            self.ret = set()
            self.block(f.body)
            r = frozenset(self.ret)
        upd = {k: self.env[k] for k in nl if k in self.env}
        self.env, self.ret, self.frames = old, oldret, oldfr
        for k, v in upd.items():
            self.env[k] = self.env.get(k, NOTHING) | v
        self.active = self.active[:-1]
        return r

    def construct(self, q, pos, kw, n):
        o = self.site(n, "new " + q.split(".")[-1])
        self.types[o] = q
        vals = self.flat(pos)
        fm = self.p.find_method(q, "__init__")
        if fm is not None and fm[2]._qual in self.E.sum:
            self.instantiate(self.E.sum[fm[2]._qual], fm[2], [frozenset({o})] + vals, kw, n, fm[2]._qual, selfobj=o)
        else:
            fields = [x.target.id for x in self.p.cls_node(q)[1].body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
            for i, v in enumerate(vals):
                self.put(o, fields[i] if i < len(fields) else "[]", v)
                self.put(o, ("k", i), v)
            for k, v in kw.items():
                self.put(o, k or "[]", v)
                if k in fields:
                    self.put(o, ("k", fields.index(k)), v)
        fn = self.p.find_method(q, "__new__")
        if fn is not None and fn[2]._qual in self.E.sum:
            self.instantiate(self.E.sum[fn[2]._qual], fn[2], [NOTHING] + vals, kw, n, fn[2]._qual)
        return frozenset({o})

    def call_super(self, name, n):
        pos, kw = self.args(n)
        cq = self.p_class()
        ps = self.fn.args.args if self.fn is not None else []
        if not cq or not ps:
            return NOTHING
        me = self.env.get(ps[0].arg, NOTHING)
        for b in self.p.mro(cq)[1:]:
            fm = self.p.find_method(b, name)
            if fm is not None and fm[2]._qual in self.E.sum:
                if name == "__new__":
                    return self.instantiate(self.E.sum[fm[2]._qual], fm[2], self.flat(pos), kw, n, fm[2]._qual)
                so = next(iter(me)) if name == "__init__" and len(me) == 1 else None
                return self.instantiate(self.E.sum[fm[2]._qual], fm[2], [me] + self.flat(pos), kw, n, fm[2]._qual, selfobj=so)
        if name == "__new__":
            return frozenset({("S", ("self",))})
        return NOTHING

    def call_method(self, base, name, n):
        pos, kw = self.args(n)
        vals = self.flat(pos)
        cands = [(q, f) for q, f in self.p.method_index.get(name, []) if not {"property", "cached_property"} & set(deco_names(f))]
        typed = base and all(o in self.types for o in base)
        cands = self.narrow(base, name, cands)
        if cands and (typed or name not in MUTATORS | VIEW | INNER | STRM | PAIRS):
            out = NOTHING
            for q, f in cands:
                s = self.E.sum.get(f._qual)
                if s is None:
                    continue
                d = deco_names(f)
                a = ([] if "staticmethod" in d else [base if "classmethod" not in d else NOTHING]) + vals
                out |= self.instantiate(s, f, a, kw, n, f._qual)
            return out
        # a callable stored in an attribute
        held = frozenset(o for o in self.load(base, name) if o[0] in ("fn", "loc", "cls"))
        if held:
            return self.apply(held, pos, kw, n, name)
        if name in MUTATORS:
            self.effect(base, f"{ast.unparse(n.func)}(...)", n)
            out = NOTHING
            if name in INNER:
                out = self.inner(base)
            if name in STORES_ARGS and len(vals) > STORES_ARGS[name]:
                i = STORES_ARGS[name]
                k = n.args[0]
                f = ("k", k.value) if name == "setdefault" and isinstance(k, ast.Constant) else "[]"
                for o in base:
                    self.put(o, f, vals[i])
                if name == "setdefault":
                    out = out | vals[i]
            elif name in STORES_INNER:
                for o in base:
                    for v in vals:
                        self.put(o, "[]", self.inner(v))
                    for k, v in kw.items():
                        self.put(o, ("k", k) if k else "[]", v)
            if name == "pop" and len(vals) > 1:
                out = out | vals[1]
            return out
        if name in INNER:
            a = n.args[0].value if n.args and isinstance(n.args[0], ast.Constant) and name == "get" else None
            v = self.load(base, ("k", a)) if a is not None else self.inner(base)
            return v | (vals[1] if len(vals) > 1 else NOTHING)
        if name == "copy":
            return self.call_ext("copy", [("", base)], {}, n)
        if name == "keys":
            return self.container(n, self.load(base, "keys") | frozenset().union(*[self.below(o) for o in base]) if base else NOTHING, "keys")
        if name in VIEW:
            return self.container(n, self.inner(base), "view")
        if name in PAIRS:
            o, t = self.site(n, "items"), self.site(n, "pair")
            self.put(t, ("k", 1), self.inner(base))
            self.put(t, ("k", 0), self.load(base, "keys"))
            self.put(o, "[]", {t})
            return frozenset({o})
        if name in EXT_MUT | SHALLOW | TUPLES | ELEMENT | {"deepcopy", "map", "reduce", "copy"} and name not in STRM:
            return self.call_ext(name, pos, kw, n)
        return NOTHING

    def p_class(self):
        c = getattr(self.fn, "_cls", None)
        return self.m.name + "." + c if c else None

    def instantiate(self, s, fn, args, kw, node, callee, selfobj=None):
        a = fn.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        m = {}
        for p_, v in zip(ps, args):
            m[p_] = frozenset(v)
        if a.vararg:
            ex_ = args[len(ps):]
            m[a.vararg.arg] = NOTHING.union(*ex_) if ex_ else NOTHING
        rest = set()
        for k, v in kw.items():
            if k is not None and (k in ps or k in [x.arg for x in a.kwonlyargs]):
                m[k] = frozenset(v)
            elif k is None:
                iv = self.inner(v)
                rest |= iv
                for p_ in ps[len(args):]:
                    if p_ not in kw:
                        m[p_] = m.get(p_, NOTHING) | iv
            else:
                rest |= v
        if a.kwarg:
            m[a.kwarg.arg] = frozenset(rest)
        dfl = list(zip((a.posonlyargs + a.args)[len(ps) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults))
        for x, d in dfl:
            if x.arg not in m and isinstance(d, (ast.List, ast.Dict, ast.Set)):
                m[x.arg] = frozenset({("G", f"{callee}.<default {x.arg}>", 0)})
        reach = {}
        base = ("call", getattr(node, "lineno", 0), getattr(node, "col_offset", 0))

        def M(o):
            if o[0] == "P":
                k = (o[1], o[2])
                if k not in reach:
                    reach[k] = self.level(m.get(o[1], NOTHING), o[2])
                return reach[k]
            if o == ("S", ("self",)):
                return frozenset({selfobj}) if selfobj else frozenset({("S", collapse((base, ("self",))))})
            if o[0] == "S":
                return frozenset({("S", collapse((base, o[1])))})
            if o[0] == "loc":
                return NOTHING
            return frozenset({o})

        def MM(vs):
            return NOTHING.union(*[M(v) for v in vs]) if vs else NOTHING
        nm = callee.split(".")[-1]
        for o, es in s.eff.items():
            own = frozenset(x for x in M(o) if root(x))
            if own:
                what = es[0][0]
                self.effect(own, f"via {nm}: {what}" if len(what) < 160 else what, node, (callee, o))
        for (o, f), vs in s.heap.items():
            for x in M(o):
                self.put(x, f, MM(vs))
        for o, t in getattr(s, "types", {}).items():
            for x in M(o):
                self.types.setdefault(x, t)
        if {"lru_cache", "cache", "cached_property"} & set(deco_names(fn)) and any(x[0] == "S" for x in s.ret):
            # every caller gets the same object
            return frozenset({("G", f"<cached result of {callee}>", 0)})
        return MM(s.ret)


class ModWalk(Walk):
    """module level statements: only writes to objects of other modules count"""

    def __init__(self, E, m):
        super().__init__(E, m, None, "")
        self.env = {}
        self.ret = set()

    def p_class(self):
        return None

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
            return
        super().stmt(s)

    def run_module(self):
        self.block(self.m.tree.body)
        return self.s
