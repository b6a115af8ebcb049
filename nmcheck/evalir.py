"""Gated value-provenance dataflow over the Python syntax tree.

For a function the analysis computes, in one pass over its statements, the
gated (phi) term of every local value, of every return/yield/raise, and an
ordered list of events (calls, mutations, assertions) with the branch gate and
loop nest each one sits under.  Loops are summarised (comprehension, fold,
exists, loop-carried), helpers that are not in the rule's vocabulary are
inlined, nothing of the analysed program is executed and no solver is used.
"""
import ast
import builtins
from fractions import Fraction

from .terms import *
from .terms import Term
from .program import deco_names, AnalysisBroken

MAX_UNROLL = 400
MAX_DEPTH = 14

PURE_METHODS_STR = {"lower", "upper", "strip", "lstrip", "rstrip", "split", "replace", "startswith",
                    "endswith", "count", "index", "find", "isdigit", "title", "capitalize"}
MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "add", "discard",
            "update", "setdefault", "popitem", "appendleft", "popleft"}


class Event:
    __slots__ = ("kind", "data", "gate", "loops", "node", "mod", "fn", "seq", "stack")

    def __init__(self, kind, data, gate, loops, node, mod, fn, stack=()):
        self.kind, self.data, self.gate, self.loops = kind, data, gate, loops
        self.node, self.mod, self.fn, self.stack = node, mod, fn, stack

    def __repr__(self):
        return f"<{self.kind} {self.data} gate={self.gate} L{getattr(self.node, 'lineno', 0)}>"


class State:
    __slots__ = ("vars", "store", "heap", "gate")

    def __init__(self, vars=None, store=None, heap=None, gate=()):
        self.vars, self.store, self.heap = ({} if x is None else x for x in (vars, store, heap))
        self.gate = gate

    def clone(self, extra=None):
        g = self.gate if extra is None or extra == TRUE else self.gate + (extra,)
        return State(dict(self.vars), dict(self.store), dict(self.heap), g)


class Frame:
    _n = 0

    def __init__(self, mod, cls, node, parent=None, qual="<module>"):
        Frame._n += 1
        self.id = Frame._n
        self.mod, self.cls, self.node, self.parent, self.qual = mod, cls, node, parent, qual
        self.outcomes = []
        self.loopctl = []
        self.globals = set()
        self.nonlocals = set()
        self.locals = set()
        self.entry_gate = ()
        self.entry_loops = 0


class Outcome:
    __slots__ = ("kind", "gate", "term", "state", "node", "loops")

    def __init__(self, kind, gate, term, state, node, loops):
        self.kind, self.gate, self.term, self.state, self.node, self.loops = kind, gate, term, state, node, loops

    def __repr__(self):
        return f"<{self.kind} {self.term} if {self.gate}>"


class Result:
    def __init__(self):
        self.value = None
        self.outcomes = []
        self.events = []
        self.state = None
        self.params = {}

    def returns(self):
        return [o for o in self.outcomes if o.kind == "return"]

    def calls(self, name=None):
        return [e for e in self.events if e.kind == "call" and (name is None or e.data["name"] == name)]


def local_names(fn):
    """Names bound in a function body (not in nested scopes)."""
    out = set()
    gl, nl = set(), set()

    def targets(t):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            return
        if isinstance(n, ast.Global):
            gl.update(n.names)
        if isinstance(n, ast.Nonlocal):
            nl.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name != "*":
                    out.add(a.asname or a.name.split(".")[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)

    body = fn.body if isinstance(fn.body, list) else [fn.body]
    for s in body:
        visit(s)
    a = fn.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(p.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    return out - gl - nl, gl, nl


class Evaluator:
    def __init__(self, program, vocab, inline=(), opaque=(), types=None, self_types=None, unroll=True,
                 fold_new=True):
        self.p = program
        self.vocab = vocab            # def names of the reference tree: opaque unless listed in inline
        self.inline = set(inline)
        self.opaque = set(opaque)
        self.types = dict(types or {})
        self.events = []
        self.loops = ()
        self.filters = {}
        self.depth = 0
        self.stack = ()
        self.refn = 0
        self.closures = {}
        self.loopn = 0
        self.quiet = 0
        self.unroll = unroll
        self.const_cache = {}
        self.init_cache = {}

    # ------------------------------------------------------------- utilities
    def ev(self, kind, data, st, node, fr):
        if self.quiet:
            return
        self.events.append(Event(kind, data, st.gate, self.loops, node, fr.mod, fr.qual, self.stack))

    def new_ref(self, st, content):
        self.refn += 1
        st.store[self.refn] = content
        return Term("ref", self.refn)

    def freeze(self, t, st, depth=0):
        if depth > 30:
            return unknown("cyclic")
        if ops_in(t).isdisjoint(("ref", "closure")):
            return t

        def f(x):
            if x.op == "ref":
                c = st.store.get(x.args[0])
                if c is None:
                    return unknown("ref")
                return self.freeze(c, st, depth + 1)
            if x.op == "closure":
                return self.canon_closure(x, st, depth)
            return x
        return rewrite(t, f)

    def canon_closure(self, c, st, depth):
        info = self.closures.get(c.args[0])
        if info is None:
            return c
        node, fr, bound = info
        if getattr(self, "_canon_depth", 0) > 3:
            return c
        a = node.args
        self._canon_depth = getattr(self, "_canon_depth", 0) + 1
        self.quiet += 1
        try:
            d = self._canon_depth
            args = [sym(f"%{d}.{i}") for i in range(len(a.args) - len(bound))]
            kw = {k.arg: sym(f"%{d}.{k.arg}") for k in a.kwonlyargs}
            if a.vararg:
                args.append(Term("star", sym(f"%{d}.*")))
            if a.kwarg:
                kw["**"] = sym(f"%{d}.**")
            inner = st.clone()
            v = self.call_closure(c, args, kw, inner, fr, node)
            v = self.freeze(v, inner, depth + 1)
            if a.vararg or a.kwarg or a.kwonlyargs:
                return Term("lam", f"{len(args)}{'*' if a.vararg else ''}{','.join(sorted(kw))}", v)
            return Term("lam", len(args), v)
        except RecursionError:
            return c
        finally:
            self.quiet -= 1
            self._canon_depth -= 1

    # -------------------------------------------------------------- entry API
    def run(self, mod, fn, args=None, self_term=None, cls=None, gate=()):
        """Analyse one function with symbolic parameters (or given terms)."""
        res = Result()
        fr = Frame(mod, cls, fn, None, getattr(fn, "_qual", fn.name if hasattr(fn, "name") else "<lambda>"))
        st = State(gate=tuple(gate))
        fr.locals, fr.globals, fr.nonlocals = local_names(fn)
        fr.entry_gate = st.gate
        a = fn.args
        allp = a.posonlyargs + a.args + a.kwonlyargs
        args = dict(args or {})
        defaults = {}
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            defaults[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[p.arg] = d
        for p in allp:
            if p.arg in args:
                v = args[p.arg]
            else:
                v = sym(p.arg)
                self.note_list(p, v)
                t = self.annotation_class(mod, p.annotation)
                if t and v not in self.types:
                    self.types[v] = t
            if p.arg == "self" and self_term is not None:
                v = self_term
            if p.arg in ("self",) and cls and v not in self.types:
                self.types[v] = cls
            res.params[p.arg] = v
            st.vars[(fr.id, p.arg)] = v
        if a.vararg:
            st.vars[(fr.id, a.vararg.arg)] = args.get(a.vararg.arg, sym(a.vararg.arg))
        if a.kwarg:
            st.vars[(fr.id, a.kwarg.arg)] = args.get(a.kwarg.arg, sym(a.kwarg.arg))
        start = len(self.events)
        end = self.exec_block(fn.body, fr, st)
        if end is not None:
            fr.outcomes.append(Outcome("return", end.gate, NONE, end, None, ()))
        for o in fr.outcomes:
            o.term = self.freeze(o.term, o.state)
        res.outcomes = fr.outcomes
        res.events = self.events[start:]
        rets = [o for o in fr.outcomes if o.kind == "return" and mk_and(*o.gate) != FALSE]
        res.value = self.combine(rets, fr.entry_gate)
        res.state = self.join_states([o.state for o in rets], State(gate=fr.entry_gate)) if rets else None
        res.frame = fr
        return res

    def run_qual(self, mod, qual, cls=None, args=None, self_term=None):
        m, fn = self.p.function(mod, qual)
        if cls is None and getattr(fn, "_cls", None):
            cls = m.name + "." + fn._cls
        return self.run(m, fn, args=args, cls=cls, self_term=self_term)

    def run_module(self, mod):
        """Abstract value of every module-level name after the module body."""
        m = self.p.module(mod) if not hasattr(mod, "tree") else mod
        fr = Frame(m, None, m.tree, None, m.name)
        fr.is_module = True
        fr.locals = set(m.top)
        st = State()
        self.module_frame = fr
        end = self.exec_block(m.tree.body, fr, st)
        if end is None:
            end = st
        out = {}
        for (fid, name), v in end.vars.items():
            if fid == fr.id:
                out[name] = v
        self.mod_state = end
        return out, end

    def annotation_class(self, mod, ann):
        if ann is None:
            return None
        name = None
        if isinstance(ann, ast.Name):
            name = ann.id
        elif isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            name = ann.value
        if not name or not name.isidentifier():
            return None
        r = self.p.resolve(mod, name)
        return r.args[0] if r is not None and r.op == "cls" else None

    def combine(self, outs, entry):
        if not outs:
            return unknown("no return")
        v = outs[-1].term
        for o in reversed(outs[:-1]):
            g = mk_and(*o.gate[len(entry):]) if o.gate[len(entry):] else TRUE
            v = mk_phi(g, o.term, v)
        return v

    # ------------------------------------------------------------- statements
    def exec_block(self, stmts, fr, st):
        for s in stmts:
            st = self.exec_stmt(s, fr, st)
            if st is None:
                return None
        return st

    def join_states(self, states, base):
        states = [s for s in states if s is not None]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        acc = states[-1]
        for s in reversed(states[:-1]):
            acc = self.join2(s, acc, len(base.gate))
        return acc

    def join2(self, a, b, n):
        ga, gb = a.gate[n:], b.gate[n:]
        # common prefix beyond n
        k = 0
        while k < len(ga) and k < len(gb) and ga[k] == gb[k]:
            k += 1
        ca = mk_and(*ga[k:]) if ga[k:] else TRUE
        cb = mk_and(*gb[k:]) if gb[k:] else TRUE
        gate = a.gate[: n + k]
        if prop_equiv(mk_or(ca, cb), TRUE) is not True:
            gate = gate + (mk_or(ca, cb),)
        # condition distinguishing a from b: shortest
        c = ca
        if len(ga) > k and len(gb) > k and ga[k] == mk_not(gb[k]):
            c = ga[k]
        out = State(gate=gate)
        for k2 in set(a.vars) | set(b.vars):
            x = a.vars.get(k2)
            y = b.vars.get(k2)
            if x is None or y is None:
                out.vars[k2] = mk_phi(c, x if x is not None else Term("unbound"), y if y is not None else Term("unbound"))
            else:
                out.vars[k2] = x if x == y else mk_phi(c, x, y)
        for k2 in set(a.store) | set(b.store):
            x, y = a.store.get(k2), b.store.get(k2)
            out.store[k2] = x if y is None else y if x is None else (x if x == y else mk_phi(c, x, y))
        for k2 in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k2), b.heap.get(k2)
            dflt = Term("attr", *k2)
            x = dflt if x is None else x
            y = dflt if y is None else y
            out.heap[k2] = x if x == y else mk_phi(c, x, y)
        return out

    def exec_stmt(self, s, fr, st):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            self.ev("unhandled", {"what": type(s).__name__}, st, s, fr)
            return st
        st = m(s, fr, st)
        # nothing follows a call that never returns
        return None if st is not None and st.gate and st.gate[-1] == FALSE else st

    def st_Expr(self, s, fr, st):
        if isinstance(s.value, ast.Constant):
            return st
        self.eval(s.value, fr, st)
        return st

    def st_Pass(self, s, fr, st):
        return st

    def st_Global(self, s, fr, st):
        return st

    st_Nonlocal = st_Global

    def st_Import(self, s, fr, st):
        for a in s.names:
            t = self.p.resolve_import(fr.mod, s, a)
            st.vars[(fr.id, a.asname or a.name.split(".")[0])] = t if t is not None else unknown("import " + a.name)
        return st

    def st_ImportFrom(self, s, fr, st):
        for a in s.names:
            if a.name == "*":
                continue
            t = self.p.resolve_import(fr.mod, s, a)
            st.vars[(fr.id, a.asname or a.name)] = t if t is not None else unknown("import " + a.name)
        return st

    def st_FunctionDef(self, s, fr, st):
        if getattr(fr, "is_module", False):
            return st
        st.vars[(fr.id, s.name)] = self.make_closure(s, fr)
        return st

    def st_ClassDef(self, s, fr, st):
        return st

    def st_Return(self, s, fr, st):
        v = self.eval(s.value, fr, st) if s.value is not None else NONE
        fr.outcomes.append(Outcome("return", st.gate, v, st, s, self.loops))
        return None

    def st_Raise(self, s, fr, st):
        v = self.eval(s.exc, fr, st) if s.exc is not None else Term("reraise")
        fr.outcomes.append(Outcome("raise", st.gate, v, st, s, self.loops))
        self.ev("raise", {"exc": v}, st, s, fr)
        return None

    def st_Assert(self, s, fr, st):
        c = self.eval(s.test, fr, st)
        self.ev("assert", {"cond": self.freeze(c, st)}, st, s, fr)
        return st

    def st_Delete(self, s, fr, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.eval(t.value, fr, st)
                k = self.eval(t.slice, fr, st)
                self.ev("delitem", {"base": self.freeze(b, st), "key": self.freeze(k, st), "raw": b}, st, s, fr)
                if b.op == "ref":
                    st.store[b.args[0]] = Term("seqcat", (unknown("del"),))
        return st

    def st_Assign(self, s, fr, st):
        v = self.eval(s.value, fr, st)
        for t in s.targets:
            self.assign(t, v, fr, st, s)
        return st

    def st_AnnAssign(self, s, fr, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr, st), fr, st, s)
        return st

    def st_AugAssign(self, s, fr, st):
        opn = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id, fr, st, s)
            rhs = self.eval(s.value, fr, st)
            if opn == "Add" and cur.op == "ref":
                self.mutate(cur, "extend", (rhs,), {}, st, s, fr)
                return st
            if opn == "BitOr" and cur.op == "ref":
                self.mutate(cur, "update", (rhs,), {}, st, s, fr)
                return st
            if opn == "Add" and self.in_place(cur, rhs, s, st):
                fx = self.freeze(rhs, st)
                self.ev("mutate", {"base": self.freeze(cur, st), "method": "extend", "args": (fx,), "raw": cur}, st, s, fr)
                self.assign(s.target, Term("seqcat", ((cur,) if cur.op != "seqcat" else cur.args[0]) + (fx,)), fr, st, s)
                return st
            if opn == "Add" and cur.op not in ("const",):
                self.ev("augadd", {"target": self.freeze(cur, st), "value": self.freeze(rhs, st), "raw": cur}, st, s, fr)
            self.assign(s.target, self.binop(opn, cur, rhs, st, s, fr), fr, st, s)
            return st
        if isinstance(s.target, ast.Attribute):
            b = self.eval(s.target.value, fr, st)
            cur = self.get_attr(b, s.target.attr, fr, st, s)
            rhs = self.eval(s.value, fr, st)
            self.store_attr(b, s.target.attr, self.binop(opn, cur, rhs, st, s, fr), fr, st, s)
            return st
        if isinstance(s.target, ast.Subscript):
            b = self.eval(s.target.value, fr, st)
            k = self.eval(s.target.slice, fr, st)
            rhs = self.eval(s.value, fr, st)
            bb = st.store.get(b.args[0], b) if b.op == "ref" else b
            cur = mk_item(self.freeze(bb, st), self.freeze(k, st))
            if opn == "Add" and b.op == "ref":
                self.ev("grow", {"base": self.freeze(b, st), "key": self.freeze(k, st), "value": self.freeze(rhs, st),
                                 "raw": b, "how": "+="}, st, s, fr)
                self.grow((b, [self.freeze(k, st)]), "+=", [rhs], st)
                return st
            if b.op != "ref":
                own = self.own_root(s.target, fr, st)
                if own is not None:
                    self.grow(own, opn, [rhs], st)
                    return st
            self.store_item(b, k, self.binop(opn, cur, rhs, st, s, fr), fr, st, s)
            return st
        return st

    def assign(self, t, v, fr, st, node):
        if isinstance(t, ast.Name):
            key = self.var_key(t.id, fr, st)
            if v.op in ("list", "dict", "set") and False:
                v = self.new_ref(st, v)
            st.vars[key] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vv = st.store.get(v.args[0], v) if v.op == "ref" else v
            if vv.op == "as" and vv.args[0] in ("list", "tuple"):
                vv = vv.args[1]
            n = len(t.elts)
            if not star:
                for i, e in enumerate(t.elts):
                    self.assign(e, self.unpack(vv, i, n, st), fr, st, node)
            else:
                k = star[0]
                after = n - k - 1
                for i in range(k):
                    self.assign(t.elts[i], self.unpack(vv, i, n, st), fr, st, node)
                if vv.op in ("list", "tuple") and not any(x.op == "star" for x in vv.args[0]):
                    mid = Term("list", vv.args[0][k:len(vv.args[0]) - after])
                else:
                    mid = self.slice_term(vv, K(k) if k else NONE, K(-after) if after else NONE, NONE)
                    mid = mk_as("list", mid)
                self.assign(t.elts[k].value, mid, fr, st, node)
                for j in range(after):
                    self.assign(t.elts[k + 1 + j], mk_item(vv, K(j - after)), fr, st, node)
            return
        if isinstance(t, ast.Starred):
            self.assign(t.value, v, fr, st, node)
            return
        if isinstance(t, ast.Attribute):
            b = self.eval(t.value, fr, st)
            if b.op != "ref" and isinstance(t.value, ast.Subscript):
                own = self.own_root(t, fr, st)
                if own is not None:
                    self.grow(own, "=", [v], st)
                    return
            self.store_attr(b, t.attr, v, fr, st, node)
            return
        if isinstance(t, ast.Subscript):
            b = self.eval(t.value, fr, st)
            k = self.eval(t.slice, fr, st)
            if b.op != "ref":
                own = self.own_root(t, fr, st)
                if own is not None:
                    self.grow(own, "=", [v], st)
                    return
                part = self.own_part(t.value, b, fr, st)
                if part is not None:
                    self.dict_put(part, Term("pair", self.freeze(k, st), v), st)
                    self.put_part(t.value, part, fr, st)
                    return
            self.store_item(b, k, v, fr, st, node)

    def unpack(self, v, i, n, st):
        if v.op == "phi":
            return mk_phi(v.args[0], self.unpack(v.args[1], i, n, st), self.unpack(v.args[2], i, n, st))
        if v.op == "ref":
            v = st.store.get(v.args[0], v)
        if v.op in ("values", "keys", "items"):
            lit = self.literal_items(v, st)
            if lit is not None and len(lit) == n:
                return lit[i]
        if v.op in ("values",):
            return Term("nth_value", v.args[0], i)
        if v.op == "comp" and len(v.args[2]) == 1 and v.args[3] == TRUE:
            it = v.args[2][0]
            return subst(v.args[1], {mk_elem(it): self.unpack(it, i, n, st)})
        if v.op == "rev":
            # as many as are unpacked: counted from the other end
            return self.unpack(v.args[0], n - 1 - i, n, st)
        return mk_item(v, K(i))

    def store_attr(self, b, name, v, fr, st, node):
        self.ev("setattr", {"base": self.freeze(b, st), "attr": name, "value": self.freeze(v, st), "raw": b}, st, node, fr)
        if b.op == "ref":
            c = st.store.get(b.args[0])
            if c is not None and c.op == "new":
                d = dict(c.args[1])
                d[name] = v
                st.store[b.args[0]] = Term("new", c.args[0], tuple(sorted(d.items(), key=lambda kv: kv[0])))
                return
        st.heap[(b, name)] = v

    def store_item(self, b, k, v, fr, st, node):
        fk = self.freeze(k, st)
        self.ev("setitem", {"base": self.freeze(b, st), "key": fk, "value": self.freeze(v, st), "raw": b}, st, node, fr)
        if b.op == "ref":
            self.dict_put(b, Term("pair", fk, v), st)
            return
        # write-through for containers that live in an attribute of a symbolic object
        if b.op in ("attr", "global", "item", "sym", "new"):
            key = (b, "[]")
            old = st.heap.get(key, Term("list", ()))
            st.heap[key] = Term("seqcat", ((old,) if old.op != "seqcat" else old.args[0]) + (Term("pair", fk, v),))

    def dict_put(self, ref, pair, st):
        rid = ref.args[0]
        c = st.store.get(rid, unknown("ref"))
        if c.op == "list" and pair.op == "pair" and is_const(pair.args[0]) and isinstance(cval(pair.args[0]), int) \
                and not any(e.op == "star" for e in c.args[0]) and -len(c.args[0]) <= cval(pair.args[0]) < len(c.args[0]):
            l = list(c.args[0])
            l[cval(pair.args[0])] = pair.args[1]
            st.store[rid] = Term("list", tuple(l))
            return
        if c.op == "dict":
            es = list(c.args[0])
            if pair.op == "pair":
                if is_const(pair.args[0]) and all(e.op == "pair" and is_const(e.args[0]) for e in es):
                    for i, e in enumerate(es):
                        if e.args[0] == pair.args[0]:
                            es[i] = pair
                            break
                    else:
                        es.append(pair)
                else:
                    es = [e for e in es if not (e.op == "pair" and e.args[0] == pair.args[0])] + [pair]
            else:
                es.append(pair)
            st.store[rid] = Term("dict", tuple(es))
            return
        if c.op == "dictcat":
            st.store[rid] = Term("dictcat", c.args[0] + (pair,))
        else:
            st.store[rid] = Term("dictcat", (c, pair))

    def st_If(self, s, fr, st):
        c = self.eval_cond(s.test, fr, st)
        tv = truth(c)
        if tv is True:
            return self.exec_block(s.body, fr, st)
        if tv is False:
            return self.exec_block(s.orelse, fr, st)
        a = self.exec_block(s.body, fr, st.clone(c))
        b = self.exec_block(s.orelse, fr, st.clone(mk_not(c)))
        if a is None:
            return b
        if b is None:
            return a
        return self.join2(a, b, len(st.gate))

    def eval_cond(self, node, fr, st):
        c = self.freeze(self.eval(node, fr, st), st)
        # known from the gate?
        for g in st.gate:
            for at in conj_atoms(g):
                if at == c:
                    return TRUE
                if at == mk_not(c):
                    return FALSE
        return c

    def st_With(self, s, fr, st):
        for it in s.items:
            v = self.eval(it.context_expr, fr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, Term("entered", v), fr, st, s)
        return self.exec_block(s.body, fr, st)

    def st_Try(self, s, fr, st):
        before = st.clone()
        n = len(self.events)
        n_out = len(fr.outcomes)
        raised = []
        for h in s.handlers:
            exc = self.eval(h.type, fr, before.clone()) if h.type is not None else Term("anyexc")
            raised.append(Term("raised", self.freeze(exc, before), self.try_index(s)))
        body = self.exec_block(s.body, fr, st)
        for o in fr.outcomes[n_out:]:
            if o.kind == "return":
                o.gate = o.gate[:len(before.gate)] + tuple(mk_not(r) for r in raised) + o.gate[len(before.gate):]
        if body is not None and s.orelse:
            body = self.exec_block(s.orelse, fr, body)
        outs = []
        for h, rt in zip(s.handlers, raised):
            exc = rt.args[0]
            self.ev("handler", {"exc": exc, "span": (n, len(self.events))}, before, h, fr)
            hs = before.clone(rt)
            if h.name:
                hs.vars[(fr.id, h.name)] = unknown("exc")
            outs.append(self.exec_block(h.body, fr, hs))
        res = body
        for o in outs:
            if o is None:
                continue
            res = o if res is None else self.join2(o, res, len(before.gate))
        if s.finalbody and res is not None:
            res = self.exec_block(s.finalbody, fr, res)
        return res

    def try_index(self, s):
        self.tries = getattr(self, "tries", {})
        k = (id(s), self.stack)
        if k not in self.tries:
            self.tries[k] = len(self.tries)
        return self.tries[k]

    def st_Break(self, s, fr, st):
        if fr.loopctl:
            fr.loopctl[-1][0].append(st)
        return None

    def st_Continue(self, s, fr, st):
        if fr.loopctl:
            fr.loopctl[-1][1].append(st)
        return None

    # ------------------------------------------------------------------ loops
    def literal_items(self, it, st):
        """Elements of an iterable known literally (or None)."""
        x = st.store.get(it.args[0], it) if it.op == "ref" else it
        while x.op in ("as", "copy") and x.args[0] in ("list", "tuple", "iter", "shallow", "deep"):
            x = x.args[-1]
            x = st.store.get(x.args[0], x) if x.op == "ref" else x
        if x.op in ("list", "tuple", "set"):
            if any(e.op == "star" for e in x.args[0]):
                return None
            return list(x.args[0])
        if x.op == "dict" and all(e.op == "pair" for e in x.args[0]):
            return [e.args[0] for e in x.args[0]]
        if x.op in ("items", "keys", "values"):
            y = x.args[0]
            y = st.store.get(y.args[0], y) if y.op == "ref" else y
            if y.op == "dict" and all(e.op == "pair" for e in y.args[0]):
                if x.op == "items":
                    return [Term("tuple", (e.args[0], e.args[1])) for e in y.args[0]]
                return [e.args[0 if x.op == "keys" else 1] for e in y.args[0]]
            return None
        if x.op == "range" and all(is_const(a) and isinstance(cval(a), int) for a in x.args):
            r = range(cval(x.args[0]), cval(x.args[1]), cval(x.args[2]))
            return [K(i) for i in r] if len(r) <= MAX_UNROLL else None
        if x.op == "zip":
            ls = [self.literal_items(y, st) for y in x.args[0]]
            if ls and all(l is not None for l in ls):
                return [Term("tuple", tuple(t)) for t in zip(*ls)]
            return None
        if x.op == "enumerate":
            l = self.literal_items(x.args[0], st)
            if l is not None:
                return [Term("tuple", (K(i), e)) for i, e in enumerate(l)]
            return None
        if x.op == "rev":
            l = self.literal_items(x.args[0], st)
            return l[::-1] if l is not None else None
        if x.op == "const" and isinstance(cval(x), str):
            return [K(ch) for ch in cval(x)]
        return None

    def st_For(self, s, fr, st):
        it = self.eval(s.iter, fr, st)
        lits = self.literal_items(it, st) if self.unroll else None
        if lits is not None and len(lits) <= MAX_UNROLL:
            cur = st
            n = len(st.gate)
            broke = []
            for e in lits:
                fr.loopctl.append(([], []))
                self.assign(s.target, e, fr, cur, s)
                end = self.exec_block(s.body, fr, cur)
                b, c = fr.loopctl.pop()
                broke += b
                cur = self.join_states(([end] if end is not None else []) + c, st)
                if cur is None:
                    break
            if cur is not None and s.orelse:
                cur = self.exec_block(s.orelse, fr, cur)
            allst = broke + ([cur] if cur is not None else [])
            if not allst:
                return None
            if not broke:
                return cur
            return self.join_states(allst, State(gate=st.gate[:n]))
        itf = self.freeze(it, st)
        return self.generic_loop(s, fr, st, itf, s.target, s.body, s.orelse)

    st_AsyncFor = st_For

    def st_While(self, s, fr, st):
        s = while_exit(s)
        return self.generic_loop(s, fr, st, None, None, s.body, s.orelse)

    def nesting(self, it):
        """How many enclosing loops already run over the same sequence."""
        r = loop_root(it)
        return sum(1 for l in self.loops if l[0] == "for" and loop_root(l[1]) == r)

    def generic_loop(self, s, fr, st, it, target, body, orelse):
        base_n = len(st.gate)
        saved_loops = self.loops
        if it is not None:
            nest = self.nesting(it)
            kept, el, it = loop_filter(it, nest, self.filters)
        else:
            nest, el, kept = 0, None, TRUE

        def one(st0):
            fr.loopctl.append(([], []))
            passed = []
            if kept != TRUE:
                passed = [st0.clone(mk_not(kept))]
                st0 = st0.clone(kept)
            if it is not None:
                self.assign(target, el, fr, st0, s)
                self.loops = saved_loops + (("for", it, nest, s.lineno),)
            else:
                c = self.freeze(self.eval(s.test, fr, st0), st0)
                self.loops = saved_loops + (("while", c, 0, s.lineno),)
            end = self.exec_block(body, fr, st0)
            brk, cont = fr.loopctl.pop()
            cont = passed + cont
            self.loops = saved_loops
            return end, brk, cont

        # pass 1: what does the body modify?
        probe = st.clone()
        snap_v, snap_s, snap_h = dict(probe.vars), dict(probe.store), dict(probe.heap)
        n_out = len(fr.outcomes)
        self.quiet += 1
        end, brk, cont = one(probe)
        self.quiet -= 1
        probe_outs = fr.outcomes[n_out:]
        del fr.outcomes[n_out:]
        allends = [x for x in [end] + brk + cont if x is not None] + [o.state for o in probe_outs]
        mod_v, mod_s, mod_h = set(), set(), set()
        for e in allends:
            mod_v |= {k for k, v in e.vars.items() if snap_v.get(k) != v}
            mod_s |= {k for k, v in e.store.items() if k in snap_s and snap_s[k] != v}
            mod_h |= {k for k, v in e.heap.items() if snap_h.get(k) != v}
        # pass 2
        self.loopn += 1
        lid = self.loopn
        st0 = st.clone()
        tnames = set()
        if target is not None:
            for x in ast.walk(target):
                if isinstance(x, ast.Name):
                    tnames.add((fr.id, x.id))
        # names assigned before read in the body need no loop-carried value
        for k in mod_v:
            if k in snap_v and k not in tnames:
                st0.vars[k] = Term("mu", lid, f"v{k[1]}")
        for k in mod_s:
            st0.store[k] = Term("mu", lid, f"r{k}")
        for k in mod_h:
            st0.heap[k] = Term("mu", lid, f"h{k[1]}{tkey(k[0])}")
        st0_in = st0.clone()
        n_ev = len(self.events)
        end, brk, cont = one(st0)
        loop_outs = fr.outcomes[n_out:]
        fin = self.join_states(([end] if end is not None else []) + cont, State(gate=st.gate))
        # the loop as seen from outside
        wcond = None
        if it is None:
            self.quiet += 1
            sw = st.clone()
            sw.vars, sw.store, sw.heap = dict(st0_in.vars), dict(st0_in.store), dict(st0_in.heap)
            wcond = self.freeze(self.eval(s.test, fr, sw), sw)
            self.quiet -= 1
        iters = (it,) if it is not None else (Term("whilec", wcond),)
        closer = Closer(self, lid, fin, st, snap_v, snap_s, snap_h, iters,
                        [(b.gate, b) for b in brk] + [(o.gate, o.state) for o in loop_outs if o.kind == "return"], base_n, len(saved_loops),
                        end is None and not cont)
        for o in loop_outs:
            o.term = self.freeze(o.term, o.state)
            if not (o.term.op == "ref"):
                o.term = closer.close(o.term)
        for e in self.events[n_ev:]:
            closer.close_event(e)
        if it is None:
            iters = (closer.close(iters[0]),)
        # returns from inside the loop
        exit_conds = []
        for o in loop_outs:
            inner = o.gate[base_n:]
            ex = Term("exists", closer.close(mk_and(*inner)) if inner else TRUE, iters)
            o.gate = st.gate + (ex,)
            exit_conds.append(ex)
            o.loops = saved_loops
        res = State(gate=st.gate)
        if fin is None and not brk:
            # body always leaves: loop acts as "if iterable non-empty"
            fin_state = st.clone()
            post = fin_state
        else:
            post = st.clone()
            src = fin if fin is not None else None
            if src is not None:
                for k in mod_v:
                    new = src.vars.get(k)
                    mu = Term("mu", lid, f"v{k[1]}")
                    old = snap_v.get(k)
                    v = self.summ_scalar(new, mu, old, iters, nest, src.gate[base_n:], src) if it is not None and not brk else Term("loopval")
                    if v.op != "loopval" and closer.mus(v):
                        v = Term("loopval")
                    post.vars[k] = closer.final(k, mu) if v.op == "loopval" and k in snap_v else v if v.op != "loopval" else Term("last", self.freeze(new, src), iters) if new is not None else unknown("loop")
                for k in src.vars:
                    if k not in snap_v and k not in post.vars:
                        post.vars[k] = mk_last(closer.close(self.freeze(src.vars[k], src)), iters)
                for k in mod_s:
                    new = src.store.get(k)
                    mu = Term("mu", lid, f"r{k}")
                    v = self.summ_container(new, mu, snap_s[k], iters, src) if it is not None else Term("loopval")
                    post.store[k] = closer.final(k, mu) if v.op == "loopval" or closer.mus(v) else v
                for k in mod_h:
                    mu = Term("mu", lid, f"h{k[1]}{tkey(k[0])}")
                    old = snap_h.get(k, Term("attr", *k) if k[1] != "[]" else Term("list", ()))
                    new = src.heap.get(k)
                    v = self.summ_container(new, mu, old, iters, src)
                    if v.op == "loopval":
                        v = self.summ_scalar(new, mu, old, iters, nest, (), src)
                    post.heap[k] = closer.final(k, mu, old) if v.op == "loopval" or it is None or closer.mus(v) else v
                for k, v in src.store.items():
                    if k not in post.store:
                        post.store[k] = closer.close(v)
        notex = [mk_not(e) for e in exit_conds]
        post.gate = st.gate + tuple(notex)
        broken = []
        for b in brk:
            inner = b.gate[base_n:]
            ex = Term("exists", closer.close(mk_and(*inner)) if inner else TRUE, iters)
            bs = b.clone()
            bs.gate = st.gate + (ex,)
            # values carried over previous iterations are summarised
            for k in mod_v:
                if k in bs.vars and any(t.op == "mu" and t.args[0] == lid for t in subterms(bs.vars[k])):
                    bs.vars[k] = closer.close(self.freeze(bs.vars[k], bs))
            for k in mod_s:
                if any(t.op == "mu" and t.args[0] == lid for t in subterms(bs.store[k])):
                    bs.store[k] = closer.close(self.freeze(bs.store[k], bs))
            broken.append((ex, bs))
        if broken:
            post.gate = post.gate + tuple(mk_not(ex) for ex, _ in broken)
        if orelse:
            post = self.exec_block(orelse, fr, post)
        if broken:
            sts = [b for _, b in broken] + ([post] if post is not None else [])
            return self.join_states(sts, State(gate=st.gate))
        return post

    def summ_scalar(self, new, mu, old, iters, nest, gate, src):
        if new is None:
            return unknown("loop")
        if new == mu:
            return old if old is not None else Term("unbound")
        def uses(t):
            return any(x == mu for x in subterms(t))
        if old is None:
            old = Term("unbound")
        fz = self.freeze(new, src)
        if not uses(new):
            if any(x.op == "mu" for x in subterms(new)):
                return Term("loopval", iters, mu.args[1])
            return mk_last(fz, iters)
        g, body = TRUE, new
        while body.op == "phi":
            c, a, b = body.args
            if b == mu and not uses(c):
                g, body = mk_and(g, c), a
            elif a == mu and not uses(c):
                g, body = mk_and(g, mk_not(c)), b
            else:
                break
        if not uses(body):
            return Term("lastif", self.freeze(body, src), iters, g, old)
        if body.op in ("add", "mul", "sub", "seqcat", "concat", "and", "or", "floordiv", "div"):
            xs = list(body.args[0]) if body.op in ("seqcat", "concat") else list(body.args)
            rest = [x for x in xs if x != mu]
            if len(rest) == len(xs) - 1 and not any(uses(x) for x in rest):
                rest = [self.freeze(x, src) for x in rest]
                if body.op == "and":
                    return mk_and(old, mk_not(mk_exists(mk_not(mk_and(*rest)), iters, g)))
                if body.op == "or":
                    return mk_or(old, mk_exists(mk_or(*rest), iters, g))
                if body.op == "seqcat":
                    parts = []
                    for x in rest:
                        if x.op == "list" and len(x.args[0]) == 1 and x.args[0][0].op != "star":
                            parts.append(Term("comp", "list", x.args[0][0], iters, g))
                        elif x.op == "comp" and x.args[0] in ("list", "tuple", "gen"):
                            parts.append(Term("comp", "list", x.args[1], iters + x.args[2], mk_and(g, x.args[3])))
                        else:
                            parts.append(Term("comp", "list", mk_elem(x), iters + (x,), g))
                    if len(parts) == 1:
                        return mk_add(old, parts[0])
                    return Term("loopval", iters, mu.args[1])
                e = rest[0] if len(rest) == 1 else rebuild(body.op, tuple(rest)) if body.op in ("add", "mul") else Term(body.op, *rest)
                if body.op == "sub" and xs[0] != mu:
                    return Term("loopval", iters, mu.args[1])
                if body.op == "sub":
                    return Term("fold", "add", old, mk_neg(e), iters, g)
                return Term("fold", body.op, old, e, iters, g)
        if body.op == "phi":
            # boolean accumulators spelled with phis
            pass
        # nested product  (mu*a)*b
        if body.op in ("mul", "add"):
            fs = flatten_op(body, body.op)
            rest = [x for x in fs if x != mu]
            if len(rest) == len(fs) - 1 and not any(uses(x) for x in rest):
                e = rest[0]
                for x in rest[1:]:
                    e = rebuild(body.op, (e, x))
                return Term("fold", body.op, old, self.freeze(e, src), iters, g)
        if body.op == "fold" and body.args[1] == mu or (body.op == "fold" and body.args[1] == mu):
            return Term("fold", body.args[0], old, body.args[2], iters + body.args[3], mk_and(g, body.args[4]))
        if body.op == "fold" and body.args[1] == mu:
            pass
        # x = None first:  phi(x is None, e, op(mu,e))
        if body.op == "phi":
            c, a, b = body.args
            if c == mk_eq(mu, NONE) and old == NONE and not uses(a):
                for opn in ("mul", "add"):
                    if b == rebuild(opn, (mu, a)):
                        return Term("fold", opn, Term("first"), self.freeze(a, src), iters, g)
        return Term("loopval", iters, mu.args[1])

    def deltas(self, new, mu):
        """Growth of a container over one loop iteration: [(guard, entry)]."""
        if new == mu:
            return []
        if new.op in ("seqcat", "dictcat"):
            xs = new.args[0]
            first = self.deltas(xs[0], mu)
            if first is None:
                return None
            out = list(first)
            for x in xs[1:]:
                if any(t == mu for t in subterms(x)):
                    return None
                if x.op in ("list", "tuple", "set") and new.op == "seqcat":
                    out += [(TRUE, e) for e in x.args[0]]
                elif x.op == "dict":
                    out += [(TRUE, e) for e in x.args[0]]
                elif x.op in ("pair", "grow", "dstar"):
                    out.append((TRUE, x))
                else:
                    out.append((TRUE, Term("star", x)))
            return out
        if new.op == "phi":
            c, a, b = new.args
            if any(t == mu for t in subterms(c)):
                # membership tests on the container itself (seen-guards)
                c = rewrite(c, lambda x: Term("self_so_far") if x == mu else x)
            da, db = self.deltas(a, mu), self.deltas(b, mu)
            if da is None or db is None:
                return None
            out = []
            k = 0
            while k < len(da) and k < len(db) and da[k] == db[k]:
                out.append(da[k])
                k += 1
            db_rest = list(db[k:])
            for g, e in da[k:]:
                m = [x for x in db_rest if x[1] == e]
                if m:
                    db_rest.remove(m[0])
                    out.append((mk_or(mk_and(c, g), mk_and(mk_not(c), m[0][0])), e))
                else:
                    out.append((mk_and(c, g), e))
            out += [(mk_and(mk_not(c), g), e) for g, e in db_rest]
            return out
        return None

    def summ_container(self, new, mu, old, iters, src):
        if new is None:
            return unknown("loop")
        if new == mu:
            return old
        d = self.deltas(new, mu)
        if d is None:
            return Term("loopval", iters, mu.args[1])
        d = [(self.freeze(g, src), self.freeze(e, src)) for g, e in d]
        parts = []
        for g, e in d:
            if e.op == "pair":
                parts.append(Term("dcomp", e.args[0], e.args[1], iters, g))
            elif e.op == "grow":
                parts.append(Term("dgrow", e.args[0], e.args[1], iters, g))
            elif e.op in ("dcomp",):
                parts.append(Term("dcomp", e.args[0], e.args[1], iters + e.args[2], mk_and(g, e.args[3])))
            elif e.op == "dgrow":
                parts.append(Term("dgrow", e.args[0], e.args[1], iters + e.args[2], mk_and(g, e.args[3])))
            elif e.op == "star":
                x = e.args[0]
                if x.op in ("dcomp", "dgrow"):
                    parts.append(Term(x.op, x.args[0], x.args[1], iters + x.args[2], mk_and(g, x.args[3])))
                elif x.op == "comp":
                    parts.append(Term("comp", "list", x.args[1], iters + x.args[2], mk_and(g, x.args[3])))
                else:
                    parts.append(Term("comp", "list", mk_elem(x), iters + (x,), g))
            else:
                parts.append(Term("comp", "list", e, iters, g))
        if any(p.op in ("dcomp", "dgrow") for p in parts):
            parts = merge_growth(parts)
            if old.op == "dict" and not old.args[0] and len(parts) == 1:
                return parts[0]
            head = () if (old.op == "dict" and not old.args[0]) else (old,)
            return Term("dictcat", head + tuple(parts))
        kind = "set" if old.op == "set" else "list"
        parts = [Term("comp", kind, *p.args[1:]) for p in parts]
        if old.op in ("list", "set") and not old.args[0] and len(parts) == 1:
            return parts[0]
        head = () if (old.op in ("list", "set") and not old.args[0]) else (old,)
        return Term("seqcat", head + tuple(parts))

    # ------------------------------------------------------------------ names
    def var_key(self, name, fr, st):
        if name in fr.globals:
            return ("global", fr.mod.name + "." + name)
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in f.locals:
                    return (f.id, name)
                f = f.parent
        return (fr.id, name)

    def lookup(self, name, fr, st, node):
        f = fr
        while f is not None:
            if (f.id, name) in st.vars and name not in fr.globals:
                return st.vars[(f.id, name)]
            if name in f.locals and name not in f.globals and not getattr(f, "is_module", False):
                return Term("unbound")
            f = f.parent
        if ("global", fr.mod.name + "." + name) in st.vars:
            return st.vars[("global", fr.mod.name + "." + name)]
        r = self.p.resolve(fr.mod, name)
        if r is None:
            return Term("undefined", name)
        if r.op == "global":
            return self.global_value(r)
        return r

    def global_value(self, g):
        """Literal value of a module-level constant, else the symbolic global."""
        q = g.args[0]
        if q in self.const_cache:
            return self.const_cache[q]
        self.const_cache[q] = g
        parts = q.split(".")
        m = self.p.modules.get(".".join(parts[:-1]))
        res = g
        if m is not None:
            b = m.top.get(parts[-1], [])
            if len(b) == 1 and isinstance(b[0], ast.Assign):
                n = b[0]
                if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and simple_literal(n.value):
                    if not isinstance(n.value, (ast.List, ast.Dict, ast.Set, ast.DictComp)) or not self.mutated_global(m, parts[-1]):
                        res = self.eval_global_expr(m, n.value)
                elif len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Tuple) \
                        and len(n.targets[0].elts) == len(n.value.elts):
                    for t, v in zip(n.targets[0].elts, n.value.elts):
                        if isinstance(t, ast.Name) and t.id == parts[-1] and simple_literal(v):
                            res = self.eval_global_expr(m, v)
        self.const_cache[q] = res
        return res

    def mutated_global(self, m, name):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                    and n.func.value.id == name and n.func.attr in MUTATORS:
                return True
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) \
                    and n.value.id == name:
                return True
        return False

    def eval_global_expr(self, m, node):
        fr = Frame(m, None, node, None, m.name)
        fr.is_module = True
        fr.locals = set(m.top)
        st = State()
        self.quiet += 1
        v = self.eval(node, fr, st)
        self.quiet -= 1
        return self.freeze(v, st)

    # ------------------------------------------------------------- expressions
    def eval(self, n, fr, st):
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            return unknown(type(n).__name__)
        return m(n, fr, st)

    def ex_Constant(self, n, fr, st):
        if isinstance(n.value, float) and False:
            pass
        return K(n.value)

    def ex_Name(self, n, fr, st):
        return self.lookup(n.id, fr, st, n)

    def ex_NamedExpr(self, n, fr, st):
        v = self.eval(n.value, fr, st)
        self.assign(n.target, v, fr, st, n)
        return v

    def elts(self, elts, fr, st):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, fr, st)
                lit = self.literal_items(v, st)
                if lit is not None:
                    out += lit
                else:
                    out.append(Term("star", self.freeze(v, st)))
            else:
                out.append(self.eval(e, fr, st))
        return tuple(out)

    def ex_Tuple(self, n, fr, st):
        return Term("tuple", self.elts(n.elts, fr, st))

    def ex_List(self, n, fr, st):
        return self.new_ref(st, Term("list", self.elts(n.elts, fr, st)))

    def ex_Set(self, n, fr, st):
        return self.new_ref(st, Term("set", self.elts(n.elts, fr, st)))

    def ex_Dict(self, n, fr, st):
        es = []
        for k, v in zip(n.keys, n.values):
            vv = self.eval(v, fr, st)
            if k is None:
                c = st.store.get(vv.args[0], vv) if vv.op == "ref" else vv
                if c.op == "dict":
                    for e in c.args[0]:
                        es = self._put(es, e)
                else:
                    es.append(Term("dstar", self.freeze(vv, st)))
            else:
                es = self._put(es, Term("pair", self.freeze(self.eval(k, fr, st), st), vv))
        return self.new_ref(st, Term("dict", tuple(es)))

    def _put(self, es, pair):
        if pair.op == "pair" and all(e.op == "pair" and is_const(e.args[0]) for e in es) and is_const(pair.args[0]):
            for i, e in enumerate(es):
                if e.args[0] == pair.args[0]:
                    return es[:i] + [pair] + es[i + 1:]
        return es + [pair]

    def ex_Starred(self, n, fr, st):
        return Term("star", self.eval(n.value, fr, st))

    def ex_Attribute(self, n, fr, st):
        b = self.eval(n.value, fr, st)
        return self.get_attr(b, n.attr, fr, st, n)

    def in_place(self, cur, rhs, node, st):
        """`x += y` extends a list that existed before the call."""
        if cur.op not in ("sym", "attr", "item", "global") or self.type_of(cur, st) is not None:
            return False
        b = st.store.get(rhs.args[0], rhs) if rhs.op == "ref" else rhs
        if b.op in ("list", "comp", "seqcat") and not (b.op == "comp" and b.args[0] in ("tuple", "gen", "set")):
            return True
        if cur.op != "sym":
            return False
        return cur in self.__dict__.get("listy", ())

    def note_list(self, a, v):
        if a.annotation is not None and ast.unparse(a.annotation).split("[")[0].split(".")[-1] in ("list", "List", "MutableSequence"):
            self.__dict__.setdefault("listy", set()).add(v)

    def type_of(self, t, st=None):
        if t in self.types:
            return self.types[t]
        if t.op == "ref" and st is not None:
            c = st.store.get(t.args[0])
            if c is not None:
                return self.type_of(c)
        if t.op == "new":
            return t.args[0]
        if t.op == "phi":
            a, b = self.type_of(t.args[1], st), self.type_of(t.args[2], st)
            return a if a == b else None
        return None

    def should_inline(self, qual):
        short = qual.split(".")[-1]
        if qual in self.opaque or short in self.opaque:
            return False
        if qual in self.inline or short in self.inline:
            return True
        return not self.in_vocab(qual)

    def in_vocab(self, qual):
        return qual in self.vocab

    def get_attr(self, b, name, fr, st, node):
        if (b, name) in st.heap:
            return st.heap[(b, name)]
        if b.op == "mod":
            r = self.p.mod_attr(b.args[0], name)
            if r is None:
                return Term("undefined", b.args[0] + "." + name)
            return self.global_value(r) if r.op == "global" else r
        if b.op == "ext":
            return Term("ext", b.args[0] + "." + name)
        if b.op == "phi" and b.args[1].op in ("ref", "new") and b.args[2].op in ("ref", "new"):
            return self.either(b.args[0], st, lambda s: self.get_attr(b.args[1], name, fr, s, node),
                               lambda s: self.get_attr(b.args[2], name, fr, s, node))
        bb = st.store.get(b.args[0], b) if b.op == "ref" else b
        if bb.op == "new":
            d = dict(bb.args[1])
            if name in d:
                return d[name]
        if b.op == "cls":
            ca = self.p.class_attr_nodes(b.args[0])
            if name in ca and simple_literal(ca[name]):
                m, _ = self.p.cls_node(b.args[0])
                return self.eval_global_expr(m, ca[name])
        cls = b.args[0] if b.op == "cls" else self.type_of(b, st)
        fm = self.p.find_method(cls, name) if cls else None
        if fm is None and cls is None and name in self.p.method_index:
            cands = self.p.method_index[name]
            if len(cands) == 1 and (not self.in_vocab(cands[0][1]._qual) or cands[0][1]._qual in self.inline):
                c, f = cands[0]
                fm = (c, self.p.cls_node(c)[0], f)
        if fm is not None:
            c, m, f = fm
            decos = deco_names(f)
            if b.op != "cls" and ("property" in decos or "cached_property" in decos):
                if self.should_inline(f._qual) and self.depth < MAX_DEPTH and f._qual not in self.stack:
                    return self.inline_call(m, f, cls or c, [b], {}, st, fr, node)
                self.ev("getprop", {"name": f._qual, "base": self.freeze(b, st)}, st, node, fr)
        base = self.freeze(b, st) if b.op == "ref" else b
        return mk_attr(base, name)

    def ex_Subscript(self, n, fr, st):
        b = self.eval(n.value, fr, st)
        bb = st.store.get(b.args[0], b) if b.op == "ref" else b
        if isinstance(n.slice, ast.Slice):
            lo = self.eval(n.slice.lower, fr, st) if n.slice.lower else NONE
            hi = self.eval(n.slice.upper, fr, st) if n.slice.upper else NONE
            stp = self.eval(n.slice.step, fr, st) if n.slice.step else NONE
            return self.slice_term(self.freeze(bb, st) if bb.op not in ("list", "tuple") else bb, lo, hi, stp)
        k = self.eval(n.slice, fr, st)
        fk = self.freeze(k, st)
        if (b, "[]") in st.heap:
            r = self.stored_item(st.heap[(b, "[]")], fk, lambda: mk_item(self.freeze(bb, st), fk))
            if r is not None:
                return r
        if bb.op in ("list", "tuple", "dict"):
            r = mk_item(bb, fk)
            if r.op == "item":
                return self.freeze(r, st)
            return r
        r = mk_item(self.freeze(bb, st), fk)
        if r.op == "elem":
            return self.filters.get(r, r)
        if r.op == "item" and fk.op == "idx" and fk.args[1] == 0:
            x, y = strip_iter(r.args[0]), strip_iter(fk.args[0])
            if x.op == y.op == "comp" and x.args[0] in ("list", "tuple") and x.args[2:] == y.args[2:] and mk_elem(y, 0) in self.filters:
                return x.args[1]
        return r

    def stored_item(self, c, k, old):
        """What was stored under the key, or None"""
        if c.op == "seqcat":
            for e in reversed(c.args[0]):
                if e.op == "pair" and e.args[0] == k:
                    return e.args[1]
                if not (e.op == "pair" and is_const(e.args[0]) and is_const(k)):
                    break
        if c.op == "phi":
            x, y = self.stored_item(c.args[1], k, old), self.stored_item(c.args[2], k, old)
            if x is not None or y is not None:
                return mk_phi(c.args[0], x if x is not None else old(), y if y is not None else old())
        return None

    def slice_term(self, b, lo, hi, stp):
        if b.op == "phi":
            return mk_phi(b.args[0], self.slice_term(b.args[1], lo, hi, stp), self.slice_term(b.args[2], lo, hi, stp))
        def iv(t):
            return None if t == NONE else cval(t)
        if all(t == NONE or (is_const(t) and isinstance(cval(t), int)) for t in (lo, hi, stp)):
            if is_const(b) and isinstance(cval(b), str):
                return K(cval(b)[iv(lo):iv(hi):iv(stp)])
            if b.op in ("list", "tuple") and not any(e.op == "star" for e in b.args[0]):
                return Term(b.op, b.args[0][iv(lo):iv(hi):iv(stp)])
            if lo == NONE and hi == NONE and stp == K(-1):
                return mk_rev(b)
            if lo in (NONE, K(0)) and hi == NONE and stp in (NONE, K(1)):
                return mk_copy("shallow", b)
        if lo == K(0):
            lo = NONE
        if b.op == "slice" and stp == NONE and b.args[3] == NONE:
            l0, h0 = b.args[1], b.args[2]
            nn = lambda t: t == NONE or (is_const(t) and isinstance(cval(t), int) and cval(t) >= 0)
            if all(nn(t) for t in (l0, h0, lo, hi)):
                base = 0 if l0 == NONE else cval(l0)
                nlo = base + (0 if lo == NONE else cval(lo))
                nhi = None if hi == NONE else base + cval(hi)
                if h0 != NONE:
                    nhi = cval(h0) if nhi is None else min(nhi, cval(h0))
                return self.slice_term(b.args[0], K(nlo) if nlo else NONE, NONE if nhi is None else K(nhi), NONE)
        if b.op == "as" and b.args[0] in ("tuple", "list") and b.args[1].op == "slice":
            return mk_as(b.args[0], self.slice_term(b.args[1], lo, hi, stp))
        return mk_slice(b, lo, hi, stp)

    def ex_UnaryOp(self, n, fr, st):
        v = self.eval(n.operand, fr, st)
        if isinstance(n.op, ast.Not):
            f = self.freeze(v, st)
            tv = truth(f)
            return K(not tv) if tv is not None else mk_not(f)
        if isinstance(n.op, ast.USub):
            cq = self.type_of(v, st)
            if cq:
                fm = self.p.find_method(cq, "__neg__")
                if fm is not None and self.should_inline(fm[2]._qual):
                    return self.inline_call(fm[1], fm[2], cq, [v], {}, st, fr, n)
            return mk_neg(self.freeze(v, st))
        return Term("unary", type(n.op).__name__, v)

    def ex_BoolOp(self, n, fr, st):
        vals = []
        isand = isinstance(n.op, ast.And)
        cur = st
        for i, x in enumerate(n.values):
            v = self.freeze(self.eval(x, fr, cur), cur)
            vals.append(v)
            tv = truth(v)
            if tv is not None and tv != isand:
                break
            cur2 = State(st.vars, st.store, st.heap, cur.gate + ((v if isand else mk_not(v)),))
            cur = cur2
        return mk_and(*vals) if isand else mk_or(*vals)

    def ex_Compare(self, n, fr, st):
        left = self.freeze(self.eval(n.left, fr, st), st)
        out = []
        for op, c in zip(n.ops, n.comparators):
            r = self.freeze(self.eval(c, fr, st), st)
            out.append(self.cmp(op, left, r))
            left = r
        return mk_and(*out)

    def cmp(self, op, a, b):
        o = type(op).__name__
        if o in ("Eq",):
            return mk_eq(a, b)
        if o == "NotEq":
            return mk_not(mk_eq(a, b))
        if o == "Is":
            if b == NONE or a == NONE or is_const(a) or is_const(b):
                return mk_eq(a, b)
            return Term("is", a, b)
        if o == "IsNot":
            return mk_not(self.cmp(ast.Is(), a, b))
        if o == "Lt":
            return mk_lt(a, b)
        if o == "Gt":
            return mk_lt(b, a)
        if o == "GtE":
            return mk_not(mk_lt(a, b))
        if o == "LtE":
            return mk_not(mk_lt(b, a))
        if o == "In":
            return mk_in(a, b)
        if o == "NotIn":
            return mk_not(mk_in(a, b))
        return unknown(o)

    def ex_IfExp(self, n, fr, st):
        c = self.eval_cond(n.test, fr, st)
        tv = truth(c)
        if tv is True:
            return self.eval(n.body, fr, st)
        if tv is False:
            return self.eval(n.orelse, fr, st)
        return self.either(c, st, lambda s: self.eval(n.body, fr, s), lambda s: self.eval(n.orelse, fr, s))

    def either(self, c, st, f, g):
        """The value of f under c and of g otherwise; what they change is
        changed in that case only."""
        sa, sb = st.clone(c), st.clone(mk_not(c))
        a, b = f(sa), g(sb)
        j = self.join2(sa, sb, len(st.gate))
        for old, new in ((st.vars, j.vars), (st.store, j.store), (st.heap, j.heap)):
            old.clear()
            old.update(new)
        return mk_phi(c, a, b)

    def ex_BinOp(self, n, fr, st):
        a = self.eval(n.left, fr, st)
        b = self.eval(n.right, fr, st)
        return self.binop(type(n.op).__name__, a, b, st, n, fr)

    def binop(self, opn, a, b, st, node, fr):
        fa = st.store.get(a.args[0], a) if a.op == "ref" else a
        fb = st.store.get(b.args[0], b) if b.op == "ref" else b
        fa = self.freeze(fa, st) if fa.op not in ("list", "tuple") else fa
        fb = self.freeze(fb, st) if fb.op not in ("list", "tuple") else fb
        if opn == "Add":
            r = mk_add(fa, fb)
            if r.op == "list":
                return self.new_ref(st, r)
            if r.op == "seqcat":
                return self.freeze(r, st)
            return r
        if opn == "Sub":
            return mk_sub(fa, fb)
        if opn == "Mult":
            r = mk_mul(fa, fb)
            if r.op == "list":
                return self.new_ref(st, r)
            return self.freeze(r, st)
        fa, fb = self.freeze(fa, st), self.freeze(fb, st)
        if opn == "Mod":
            if is_const(fa) and isinstance(cval(fa), str):
                return Term("strm", "%", fa, fb) if not (is_const(fb)) else K(cval(fa) % cval(fb))
            if _isnum(fa) and _isnum(fb):
                return K(cval(fa) % cval(fb))
            return Term("mod_", fa, fb)
        if opn == "Div":
            if _isnum(fa) and _isnum(fb) and cval(fb) != 0:
                x, y = cval(fa), cval(fb)
                if isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)):
                    return K(Fraction(x) / Fraction(y))
                return K(x / y)
            return Term("div", fa, fb)
        if opn == "FloorDiv":
            if _isnum(fa) and _isnum(fb) and cval(fb) != 0:
                return K(cval(fa) // cval(fb))
            return Term("floordiv", fa, fb)
        if opn == "Pow":
            if _isnum(fa) and _isnum(fb) and abs(cval(fb)) < 50:
                return K(cval(fa) ** cval(fb))
            return Term("pow", fa, fb)
        return Term("bin" + opn, fa, fb)

    def ex_JoinedStr(self, n, fr, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(K(v.value))
            else:
                x = self.freeze(self.eval(v.value, fr, st), st)
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    spec = self.eval(v.format_spec, fr, st) if v.format_spec is not None else K("")
                    parts.append(Term("fmt", x, spec))
                else:
                    parts.append(mk_str(x))
        return mk_concat(parts)

    def ex_FormattedValue(self, n, fr, st):
        return mk_str(self.freeze(self.eval(n.value, fr, st), st))

    def make_closure(self, node, fr):
        self.refn += 1
        self.closures[self.refn] = (node, fr, ())
        return Term("closure", self.refn)

    def ex_Lambda(self, n, fr, st):
        return self.make_closure(n, fr)

    def ex_Yield(self, n, fr, st):
        v = self.eval(n.value, fr, st) if n.value is not None else NONE
        self.ev("yield", {"value": self.freeze(v, st)}, st, n, fr)
        return NONE

    def ex_YieldFrom(self, n, fr, st):
        v = self.eval(n.value, fr, st)
        self.ev("yield_from", {"value": self.freeze(v, st)}, st, n, fr)
        return NONE

    def ex_Await(self, n, fr, st):
        return self.eval(n.value, fr, st)

    # comprehension
    def comp(self, n, fr, st, elts, kind):
        cf = Frame(fr.mod, fr.cls, n, fr, fr.qual)
        cf.parent = fr
        cs = State(dict(st.vars), st.store, dict(st.heap), st.gate)
        iters, guards = [], []
        saved = self.loops
        # fully literal single-generator comprehensions unroll
        g0 = n.generators[0]
        it0 = self.eval(g0.iter, fr, st)
        if len(n.generators) == 1 and self.unroll:
            lits = self.literal_items(it0, st)
            if lits is not None and len(lits) <= MAX_UNROLL:
                outs = []
                for e in lits:
                    cs2 = State(dict(st.vars), st.store, dict(st.heap), st.gate)
                    for x in ast.walk(g0.target):
                        if isinstance(x, ast.Name):
                            cf.locals.add(x.id)
                    self.assign(g0.target, e, cf, cs2, n)
                    gs = [self.freeze(self.eval(c, cf, cs2), cs2) for c in g0.ifs]
                    g = mk_and(*gs) if gs else TRUE
                    tv = truth(g)
                    if tv is False:
                        continue
                    if tv is None:
                        outs = None
                        break
                    outs.append(tuple(self.eval(x, cf, cs2) for x in elts))
                if outs is not None:
                    for o in cf.outcomes:
                        if o.kind == "raise":
                            fr.outcomes.append(o)
                            st.gate = st.gate + (mk_not(mk_and(*o.gate[len(st.gate):])),) if o.gate[:len(st.gate)] == st.gate else st.gate
                    return ("lit", outs)
                del cf.outcomes[:]
        for gi, g in enumerate(n.generators):
            it = it0 if gi == 0 else self.eval(g.iter, cf, cs)
            itf = self.freeze(it, cs)
            nest = self.nesting(itf)
            kept, el, itf = loop_filter(itf, nest, self.filters)
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    cf.locals.add(x.id)
            self.assign(g.target, el, cf, cs, n)
            self.loops = self.loops + (("for", itf, nest, n.lineno),)
            iters.append(itf)
            if kept != TRUE:
                guards.append(kept)
                cs.gate = cs.gate + (kept,)
            for c in g.ifs:
                gg = self.freeze(self.eval(c, cf, cs), cs)
                guards.append(gg)
                cs.gate = cs.gate + (gg,)
        vals = tuple(self.freeze(self.eval(x, cf, cs), cs) for x in elts)
        self.loops = saved
        guard = mk_and(*guards) if guards else TRUE
        base = st.gate
        for o in cf.outcomes:
            # raised while some element is worked out
            if o.kind == "raise":
                inner = o.gate[len(base):]
                ex = Term("exists", mk_and(*inner) if inner else TRUE, tuple(iters))
                fr.outcomes.append(Outcome("raise", base + (ex,), self.freeze(o.term, o.state), st.clone(), o.node, saved))
                st.gate = st.gate + (mk_not(ex),)
        # flatten  [e for x in [f(y) for y in ys]]  (single generic element)
        return ("gen", vals, tuple(iters), guard)

    def mk_comp(self, kind, e, iters, guard):
        # [x for x in xs] is a copy of xs
        if kind in ("list", "gen", "set") and guard == TRUE and len(iters) == 1 and e == mk_elem(iters[0]):
            return mk_as("list" if kind == "gen" else kind, iters[0])
        # inline inner unconditional comps in iters: elem(comp) was already substituted by mk_elem
        its = []
        g = guard
        for i in iters:
            while i.op == "comp" and i.args[0] in ("list", "gen", "tuple") and i.args[3] == TRUE and len(i.args[2]) == 1:
                i = i.args[2][0]
            while i.op == "as" and i.args[0] in ("list", "tuple", "iter"):
                i = i.args[1]
            its.append(i)
        return Term("comp", kind, e, tuple(its), g)

    def ex_ListComp(self, n, fr, st):
        r = self.comp(n, fr, st, [n.elt], "list")
        if r[0] == "lit":
            return self.new_ref(st, Term("list", tuple(x[0] for x in r[1])))
        return self.new_ref(st, self.mk_comp("list", r[1][0], r[2], r[3]))

    def ex_GeneratorExp(self, n, fr, st):
        r = self.comp(n, fr, st, [n.elt], "gen")
        if r[0] == "lit":
            return Term("list", tuple(x[0] for x in r[1]))
        return self.mk_comp("gen", r[1][0], r[2], r[3])

    def ex_SetComp(self, n, fr, st):
        r = self.comp(n, fr, st, [n.elt], "set")
        if r[0] == "lit":
            return self.new_ref(st, Term("set", tuple(x[0] for x in r[1])))
        return self.new_ref(st, self.mk_comp("set", r[1][0], r[2], r[3]))

    def ex_DictComp(self, n, fr, st):
        r = self.comp(n, fr, st, [n.key, n.value], "dict")
        if r[0] == "lit":
            es = []
            for k, v in r[1]:
                es = self._put(es, Term("pair", self.freeze(k, st), v))
            return self.new_ref(st, Term("dict", tuple(es)))
        return self.new_ref(st, Term("dcomp", r[1][0], r[1][1], r[2], r[3]))

    # ------------------------------------------------------------------ calls
    def call_closure(self, c, args, kwargs, st, fr, node):
        cnode, cfr, bound = self.closures[c.args[0]]
        args = list(bound) + list(args)
        if isinstance(cnode, ast.Lambda):
            nf = Frame(cfr.mod, cfr.cls, cnode, cfr, cfr.qual)
            nf.locals, _, _ = local_names(cnode)
            if not self.bind(cnode, args, kwargs, nf, st, cfr):
                return self.opaque_call(self.freeze(c, st), "lambda", args, kwargs, fr, st, node)
            if self.depth > MAX_DEPTH:
                return unknown("depth")
            self.depth += 1
            try:
                return self.eval(cnode.body, nf, st)
            finally:
                self.depth -= 1
        return self.inline_call(cfr.mod, cnode, cfr.cls, args, kwargs, st, fr, node, parent=cfr)

    def bind(self, fn, args, kwargs, nf, st, dfr):
        a = fn.args
        pos = a.posonlyargs + a.args
        vals = {}
        extra = []
        if any(x.op == "star" for x in args) or "**" in kwargs:
            # a star we could not expand
            if any(x.op == "star" for x in args) and not (a.vararg and all(x.op != "star" for x in args[:len(pos)])):
                return False
            if "**" in kwargs and not a.kwarg:
                return False
        for i, v in enumerate(args):
            if i < len(pos):
                vals[pos[i].arg] = v
            else:
                extra.append(v)
        if extra and not a.vararg:
            return False
        kwextra = {}
        names = {p.arg for p in pos + a.kwonlyargs}
        for k, v in kwargs.items():
            if k in names:
                vals[k] = v
            else:
                kwextra[k] = v
        if kwextra and not a.kwarg:
            return False
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            if p.arg not in vals:
                vals[p.arg] = self.eval(d, dfr, st)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in vals and d is not None:
                vals[p.arg] = self.eval(d, dfr, st)
        for p in pos + a.kwonlyargs:
            if p.arg not in vals:
                return False
            st.vars[(nf.id, p.arg)] = vals[p.arg]
            t = self.annotation_class(nf.mod, p.annotation) if not isinstance(fn, ast.Lambda) else None
            v = vals[p.arg]
            if t and v.op not in ("const", "ref") and self.type_of(v, st) is None:
                self.types[v] = t
        if a.vararg:
            st.vars[(nf.id, a.vararg.arg)] = Term("tuple", tuple(extra))
        if a.kwarg:
            st.vars[(nf.id, a.kwarg.arg)] = self.new_ref(st, Term("dict", tuple(
                Term("dstar", v) if k == "**" else Term("pair", K(k), v) for k, v in sorted(kwextra.items()))))
        return True

    def inline_call(self, mod, fn, cls, args, kwargs, st, fr, node, parent=None):
        qual = getattr(fn, "_qual", fn.name)
        if self.depth >= MAX_DEPTH or self.stack.count(qual) >= 1:
            return Term("call", Term("fn", qual), tuple(self.freeze(x, st) for x in args),
                        tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs.items())))
        nf = Frame(mod, cls, fn, parent, qual)
        nf.locals, nf.globals, nf.nonlocals = local_names(fn)
        dfr = Frame(mod, None, fn, None, mod.name)
        dfr.is_module = True
        if not self.bind(fn, args, kwargs, nf, st, parent or dfr):
            return self.opaque_call(Term("fn", qual) if parent is None else Term("unbound args", qual), fn.name, args, kwargs, fr, st, node)
        if is_generator(fn):
            return self.inline_generator(nf, fn, st, fr, node, qual)
        nf.entry_gate = st.gate
        self.depth += 1
        self.stack = self.stack + (qual,)
        inner = st.clone()
        try:
            end = self.exec_block(fn.body, nf, inner)
        finally:
            self.depth -= 1
            self.stack = self.stack[:-1]
        outs = list(nf.outcomes)
        if end is not None:
            outs.append(Outcome("return", end.gate, NONE, end, None, ()))
        rets = [o for o in outs if o.kind == "return" and mk_and(*o.gate) != FALSE]
        for o in outs:
            if o.kind == "raise" and fr is not None:
                fr.outcomes.append(Outcome("raise", o.gate, self.freeze(o.term, o.state), o.state, o.node, self.loops))
        if not rets:
            st.gate = st.gate + (FALSE,)
            return Term("never")
        v = self.combine(rets, nf.entry_gate)
        post = self.join_states([o.state for o in rets], State(gate=nf.entry_gate))
        st.vars.clear(); st.vars.update(post.vars)
        st.store.clear(); st.store.update(post.store)
        st.heap.clear(); st.heap.update(post.heap)
        # outcomes that raise restrict what follows
        for o in outs:
            if o.kind == "raise":
                st.gate = st.gate + (mk_not(mk_and(*o.gate[len(nf.entry_gate):])),)
        return v

    def inline_generator(self, nf, fn, st, fr, node, qual):
        n0 = len(self.events)
        base_loops = self.loops
        inner = st.clone()
        base_gate = len(st.gate)
        q = self.quiet
        self.quiet = 0
        self.depth += 1
        self.stack = self.stack + (qual,)
        try:
            self.exec_block(fn.body, nf, inner)
        finally:
            self.depth -= 1
            self.stack = self.stack[:-1]
            self.quiet = q
        evs = self.events[n0:]
        ys = [e for e in evs if e.kind in ("yield", "yield_from") and e.fn == qual]
        if q:
            del self.events[n0:]
        else:
            self.events[n0:] = [e for e in evs if e not in ys]
        parts = []
        for e in ys:
            loops = e.loops[len(base_loops):]
            if any(l[0] != "for" for l in loops):
                return unknown("generator")
            iters = tuple(l[1] for l in loops)
            g = e.gate[base_gate:]
            g = mk_and(*g) if g else TRUE
            if e.kind == "yield":
                if iters:
                    parts.append(self.mk_comp("gen", e.data["value"], iters, g))
                elif g == TRUE:
                    parts.append(Term("list", (e.data["value"],)))
                else:
                    parts.append(mk_phi(g, Term("list", (e.data["value"],)), Term("list", ())))
            else:
                v = e.data["value"]
                if not iters and g == TRUE:
                    parts.append(v)
                else:
                    parts.append(self.mk_comp("gen", mk_elem(v), iters + (v,), g))
        if not parts:
            return Term("list", ())
        if len(parts) == 1:
            return parts[0]
        if len(parts) == 2 and parts[0].op == "comp" and parts[1].op == "comp" and parts[0].args[:3] == parts[1].args[:3]:
            return Term("comp", *parts[0].args[:3], mk_or(parts[0].args[3], parts[1].args[3]))
        return Term("seqcat", tuple(parts))

    def default_of(self, f, fr, st, node):
        """the value a defaultdict factory makes"""
        if f.op == "builtin":
            v = {"list": Term("list", ()), "dict": Term("dict", ()), "set": Term("set", ()), "int": K(0), "str": K(""), "float": K(0.0)}.get(f.args[0])
            return v
        if f.op in ("closure", "lam", "fn"):
            try:
                return self.freeze(self.call(f, [], {}, fr, st, node), st)
            except Exception:
                return None
        return None

    def own_root(self, node, fr, st):
        """(ref, path) when the expression denotes a part of a container this
        function created itself, reached through subscripts and attributes."""
        path = []
        n = node
        while isinstance(n, (ast.Subscript, ast.Attribute)) and not (isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice)):
            self.quiet += 1
            try:
                inner = self.eval(n.value, fr, st)
                key = self.freeze(self.eval(n.slice, fr, st), st) if isinstance(n, ast.Subscript) else Term("name", n.attr)
            finally:
                self.quiet -= 1
            path.insert(0, key)
            if inner.op == "ref":
                c = st.store.get(inner.args[0])
                if c is None or c.op == "new":
                    return None
                return inner, path
            n = n.value
        return None

    def own_part(self, n, value, fr, st):
        """a scratch reference holding the container in attribute n of an object
        this code created itself"""
        if not isinstance(n, ast.Attribute) or value.op not in ("dict", "list", "dictcat", "seqcat"):
            return None
        self.quiet += 1
        try:
            o = self.eval(n.value, fr, st)
        finally:
            self.quiet -= 1
        c = st.store.get(o.args[0]) if o.op == "ref" else None
        if c is None or c.op != "new" or n.attr not in dict(c.args[1]):
            return None
        return self.new_ref(st, value)

    def put_part(self, n, part, fr, st):
        self.quiet += 1
        try:
            o = self.eval(n.value, fr, st)
        finally:
            self.quiet -= 1
        c = st.store[o.args[0]]
        d = dict(c.args[1])
        d[n.attr] = self.freeze(part, st)
        st.store[o.args[0]] = Term("new", c.args[0], tuple(sorted(d.items(), key=lambda kv: kv[0])))

    def grow(self, owner, what, args, st):
        """an element of an own container is changed in place"""
        ref, path = owner[0], owner[1]
        dflt = owner[2] if len(owner) > 2 else getattr(self, "factories", {}).get(ref.args[0], NONE)
        k = path[0] if len(path) == 1 else Term("path", tuple(path))
        if what == "+=" and dflt.op == "list":
            what = "extend"
        self.dict_put(ref, Term("grow", k, Term("act", what, dflt, tuple(self.freeze(a, st) for a in args))), st)

    def ex_Call(self, n, fr, st):
        # method call?
        f = n.func
        args, kwargs = [], {}
        if isinstance(f, ast.Attribute):
            # super().method(...) and plain methods
            base = self.eval(f.value, fr, st)
            args, kwargs = self.eval_args(n, fr, st)
            if f.attr in MUTATORS and base.op != "ref":
                own = (base.args[0], [base.args[1]], base.args[2]) if base.op == "slot" else self.own_root(f.value, fr, st)
                if own is not None and self.type_of(base, st) is None:
                    self.grow(own, f.attr, args, st)
                    return NONE if f.attr not in ("pop", "popitem", "setdefault", "popleft") else Term("popped", self.freeze(base, st), tuple(self.freeze(a, st) for a in args))
                part = self.own_part(f.value, base, fr, st)
                if part is not None:
                    r = self.call_method(part, f.attr, args, kwargs, fr, st, n)
                    self.put_part(f.value, part, fr, st)
                    return r
            return self.call_method(base, f.attr, args, kwargs, fr, st, n)
        callee = self.eval(f, fr, st)
        args, kwargs = self.eval_args(n, fr, st)
        return self.call(callee, args, kwargs, fr, st, n)

    def eval_args(self, n, fr, st):
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr, st)
                lit = self.literal_items(v, st)
                if lit is not None:
                    args += lit
                else:
                    args.append(Term("star", self.freeze(v, st)))
            else:
                args.append(self.eval(a, fr, st))
        for k in n.keywords:
            v = self.eval(k.value, fr, st)
            if k.arg is None:
                c = st.store.get(v.args[0], v) if v.op == "ref" else v
                if c.op == "dict" and all(e.op == "pair" and is_const(e.args[0]) for e in c.args[0]):
                    for e in c.args[0]:
                        kwargs[cval(e.args[0])] = e.args[1]
                elif c.op == "dict":
                    stars = []
                    for e in c.args[0]:
                        if e.op == "pair" and is_const(e.args[0]):
                            kwargs[cval(e.args[0])] = e.args[1]
                        else:
                            stars.append(e)
                    if len(stars) == 1 and stars[0].op == "dstar":
                        kwargs["**"] = self.freeze(stars[0].args[0], st)
                    else:
                        kwargs["**"] = self.freeze(Term("dict", tuple(stars)), st)
                else:
                    kwargs["**"] = self.freeze(v, st)
            else:
                kwargs[k.arg] = v
        return args, kwargs

    def opaque_call(self, callee, name, args, kwargs, fr, st, node, base=None):
        fa = tuple(self.freeze(x, st) for x in args)
        fk = tuple(sorted(((k, self.freeze(v, st)) for k, v in kwargs.items()), key=lambda kv: kv[0]))
        t = Term("call", callee, fa, fk)
        self.ev("call", {"name": name, "callee": callee, "args": fa, "kwargs": dict(fk), "term": t,
                         "raw": tuple(args), "rawkw": dict(kwargs),
                         "base": self.freeze(base, st) if base is not None else None}, st, node, fr)
        return t

    def normalise_args(self, fn, args, kwargs, skip):
        """Bind to parameter names so positional/keyword spellings coincide."""
        a = fn.args
        pos = (a.posonlyargs + a.args)[skip:]
        if any(x.op == "star" for x in args) or a.vararg or "**" in kwargs:
            return args, kwargs
        if len(args) > len(pos):
            return args, kwargs
        out = dict(kwargs)
        for p, v in zip(pos, args):
            out[p.arg] = v
        for p, d in zip((a.posonlyargs + a.args)[len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults):
            if p.arg not in out and isinstance(d, ast.Constant):
                out[p.arg] = K(d.value)
        return [], out

    def call(self, callee, args, kwargs, fr, st, node):
        op = callee.op
        if op == "phi":
            return self.either(callee.args[0], st, lambda s: self.call(callee.args[1], args, kwargs, fr, s, node),
                               lambda s: self.call(callee.args[2], args, kwargs, fr, s, node))
        if op == "builtin":
            r = self.call_builtin(callee.args[0], args, kwargs, fr, st, node)
            if r is not None:
                return r
            return self.opaque_call(callee, callee.args[0], args, kwargs, fr, st, node)
        if op == "closure":
            return self.call_closure(callee, args, kwargs, st, fr, node)
        if op == "partial":
            return self.call(callee.args[0], list(callee.args[1]) + list(args), {**dict(callee.args[2]), **kwargs}, fr, st, node)
        if op == "bound":
            return self.call_method(callee.args[0], callee.args[1], args, kwargs, fr, st, node)
        if op == "fn":
            m, fn = self.p.fn_node(callee.args[0])
            if self.should_inline(callee.args[0]) and not deco_blocks(fn):
                self.ev("enter", {"name": callee.args[0]}, st, node, fr)
                return self.inline_call(m, fn, None, args, kwargs, st, fr, node)
            args, kwargs = self.normalise_args(fn, args, kwargs, 0)
            return self.opaque_call(callee, fn.name, args, kwargs, fr, st, node)
        if op == "cls":
            return self.construct(callee.args[0], args, kwargs, fr, st, node)
        if op == "ext":
            r = self.call_ext(callee.args[0], args, kwargs, fr, st, node)
            if r is not None:
                return r
            return self.opaque_call(callee, callee.args[0].split(".")[-1], args, kwargs, fr, st, node)
        if op == "attr":
            return self.call_method(callee.args[0], callee.args[1], args, kwargs, fr, st, node)
        cls = self.type_of(callee, st)
        if cls:
            fm = self.p.find_method(cls, "__call__")
            if fm is not None:
                c, m, fn = fm
                if self.should_inline(fn._qual):
                    return self.inline_call(m, fn, cls, [callee] + list(args), kwargs, st, fr, node)
        return self.opaque_call(Term("apply", self.freeze(callee, st)), "__call__", args, kwargs, fr, st, node, base=callee)

    def construct(self, q, args, kwargs, fr, st, node, dynamic=False):
        fm = self.p.find_method(q, "__init__")
        if fm is not None:
            args, kwargs = self.normalise_args(fm[2], args, kwargs, 1)
        else:
            flds = self.record_fields(q)
            if flds and not any(a.op == "star" for a in args) and len(args) <= len(flds):
                for nme, v in zip(flds, args):
                    kwargs = {**kwargs, nme: v}
                args = []
        kw = dict(kwargs)
        for i, a in enumerate(args):
            kw[f"*{i}"] = a
        if dynamic:
            kw["__class__"] = K("dynamic")
        fk = tuple(sorted(((k, self.freeze(v, st)) for k, v in kw.items()), key=lambda kv: kv[0]))
        t = Term("new", q, fk)
        self.ev("call", {"name": q.split(".")[-1], "callee": Term("cls", q), "args": (), "kwargs": dict(fk), "term": t,
                         "raw": tuple(args), "rawkw": dict(kwargs), "base": None}, st, node, fr)
        if self.record_fields(q):
            return t
        return self.new_ref(st, t)

    def record_fields(self, q):
        m, node = self.p.cls_node(q)
        for b in node.bases:
            nm = b.id if isinstance(b, ast.Name) else getattr(b, "attr", None)
            if nm == "NamedTuple":
                return [x.target.id for x in node.body if isinstance(x, ast.AnnAssign)]
        return None

    # ---- methods
    def call_method(self, base, name, args, kwargs, fr, st, node):
        if base.op == "mod" or base.op == "ext":
            return self.call(self.get_attr(base, name, fr, st, node), args, kwargs, fr, st, node)
        sup = self.super_target(base, name, fr, st)
        if sup is not None:
            c, m, fn, me = sup
            if "property" not in deco_names(fn) and "classmethod" not in deco_names(fn) \
                    and "staticmethod" not in deco_names(fn) and not deco_blocks(fn):
                if self.should_inline(fn._qual):
                    self.ev("enter", {"name": fn._qual}, st, node, fr)
                    return self.inline_call(m, fn, self.type_of(me, st) or c, [me] + list(args), kwargs, st, fr, node)
        if base.op == "phi" and base.args[1].op in ("ref", "new", "closure", "bound") and base.args[2].op in ("ref", "new", "closure", "bound"):
            return self.either(base.args[0], st, lambda s: self.call_method(base.args[1], name, args, kwargs, fr, s, node),
                               lambda s: self.call_method(base.args[2], name, args, kwargs, fr, s, node))
        if name == "__class__" and base.op != "cls":
            cq = self.type_of(base, st)
            if cq:
                return self.construct(cq, args, kwargs, fr, st, node, dynamic=True)
        # heap attribute holding a callable
        if (base, name) in st.heap:
            return self.call(st.heap[(base, name)], args, kwargs, fr, st, node)
        bb = st.store.get(base.args[0], base) if base.op == "ref" else base
        cls = base.args[0] if base.op == "cls" else self.type_of(base, st)
        fm = self.p.find_method(cls, name) if cls else None
        if fm is None and cls is None and name in self.p.method_index and bb.op not in ("list", "dict", "set", "const"):
            cands = self.p.method_index[name]
            if len(cands) == 1 and "property" not in deco_names(cands[0][1]) \
                    and (not self.in_vocab(cands[0][1]._qual) or cands[0][1]._qual in self.inline) and name not in MUTATORS:
                c, f = cands[0]
                fm = (c, self.p.cls_node(c)[0], f)
        if fm is not None:
            c, m, fn = fm
            decos = deco_names(fn)
            if "property" in decos:
                v = self.get_attr(base, name, fr, st, node)
                return self.call(v, args, kwargs, fr, st, node) if v.op != "attr" else \
                    self.opaque_call(Term("apply", self.freeze(v, st)), "__call__", args, kwargs, fr, st, node, base=v)
            if "staticmethod" in decos:
                full, skip = list(args), 0
            elif "classmethod" in decos:
                full, skip = [base if base.op == "cls" else Term("cls", cls or c)] + list(args), 1
            elif base.op == "cls":
                full, skip = list(args), 1  # unbound call: self passed explicitly
            else:
                full, skip = [base] + list(args), 1
            if self.should_inline(fn._qual) and not deco_blocks(fn):
                self.ev("enter", {"name": fn._qual}, st, node, fr)
                return self.inline_call(m, fn, cls or c, full, kwargs, st, fr, node)
            if base.op == "cls" and skip == 1 and "classmethod" not in decos:
                selfarg, rest = full[:1], full[1:]
            elif skip:
                selfarg, rest = full[:1], full[1:]
            else:
                selfarg, rest = [], full
            a2, k2 = self.normalise_args(fn, rest, kwargs, skip)
            return self.opaque_call(Term("method", name), name, selfarg + list(a2), k2, fr, st, node, base=base)
        # containers
        if base.op == "ref" or bb.op in ("list", "tuple", "dict", "set", "const", "comp", "dcomp", "seqcat", "dictcat", "concat", "str"):
            r = self.container_method(base, bb, name, args, kwargs, fr, st, node)
            if r is not None:
                return r
        fb = self.freeze(base, st)
        r = self.pure_method(fb, name, [self.freeze(a, st) for a in args], kwargs, st)
        if r is not None:
            return r
        if name in MUTATORS:
            self.ev("mutate", {"base": fb, "method": name, "args": tuple(self.freeze(a, st) for a in args), "raw": base}, st, node, fr)
            if name in ("append", "extend", "add", "update") and args and base.op in ("attr", "sym", "item", "global", "elem", "keyof", "valof"):
                key = (base, "[]")
                old = st.heap.get(key, Term("list", ()))
                a0 = self.freeze(args[0], st)
                e = Term("list", (a0,)) if name in ("append", "add") else a0
                st.heap[key] = Term("seqcat", ((old,) if old.op != "seqcat" else old.args[0]) + (e,))
            if base.op == "item" and name in ("append", "extend", "add", "update"):
                pass
        return self.opaque_call(Term("method", name), name, [base] + list(args), kwargs, fr, st, node, base=base)

    def super_target(self, base, name, fr, st):
        """(class, module, function, self) a super() call resolves to."""
        if base.op != "super":
            return None
        f = fr
        while f is not None and not isinstance(f.node, ast.FunctionDef):
            f = f.parent
        if f is None:
            return None
        if len(base.args) == 2:
            c, me = base.args
            if c.op != "cls":
                return None
            cq = c.args[0]
        else:
            ps = f.node.args.posonlyargs + f.node.args.args
            if not ps or getattr(f.node, "_cls", None) is None:
                return None
            me = st.vars.get((f.id, ps[0].arg))
            cq = f.mod.name + "." + f.node._cls
        if me is None:
            return None
        dyn = self.type_of(me, st) or cq
        mro = self.p.mro(dyn)
        if cq not in mro:
            mro = self.p.mro(cq)
        for b in mro[mro.index(cq) + 1:]:
            try:
                m, n = self.p.cls_node(b)
            except Exception:
                return None
            for x in n.body:
                if isinstance(x, ast.FunctionDef) and x.name == name:
                    return b, m, x, me
        return None

    def pure_method(self, b, name, args, kwargs, st):
        if name == "items" and not args:
            return Term("items", strip_copy_top(b))
        if name == "keys" and not args:
            return Term("keys", strip_copy_top(b))
        if name == "values" and not args:
            return Term("values", strip_copy_top(b))
        if name == "copy" and not args:
            return mk_copy("shallow", b)
        if name in PURE_METHODS_STR and is_const(b) and isinstance(cval(b), str) and all(is_const(a) for a in args):
            try:
                v = getattr(cval(b), name)(*[cval(a) for a in args])
            except Exception:
                return None
            if isinstance(v, list):
                return Term("list", tuple(K(x) for x in v))
            return K(v)
        if name == "join" and len(args) == 1 and (is_const(b) and isinstance(cval(b), str)):
            x = args[0]
            if x.op in ("list", "tuple") and not any(e.op == "star" for e in x.args[0]):
                parts = []
                for i, e in enumerate(x.args[0]):
                    if i:
                        parts.append(b)
                    parts.append(mk_str(e))
                return mk_concat(parts)
            if x.op == "comp" and x.args[0] in ("list", "tuple", "gen"):
                x = Term("comp", "list", *x.args[1:])
            return Term("sjoin", b, strip_as(x))
        if name == "format" and is_const(b) and isinstance(cval(b), str):
            return format_str(cval(b), args, kwargs)
        if name == "split" and b.op == "concat" and len(args) == 1 and is_const(args[0]):
            return split_concat(b, cval(args[0]))
        if name == "get" and len(args) in (1, 2) and b.op == "dict":
            r = mk_item(b, args[0])
            if r.op != "item":
                return r
            if all(e.op == "pair" and is_const(e.args[0]) for e in b.args[0]) and is_const(args[0]):
                return args[1] if len(args) == 2 else NONE
        return None

    def container_method(self, base, bb, name, args, kwargs, fr, st, node):
        if base.op == "ref":
            if name in MUTATORS:
                return self.mutate(base, name, args, kwargs, st, node, fr)
            if name in ("items", "keys", "values") and not args:
                return Term(name, base if bb.op == "dict" else self.freeze(bb, st))
            if name == "copy" and not args:
                return self.new_ref(st, bb if bb.op in ("list", "dict", "set", "seqcat", "comp", "dcomp", "dictcat") else mk_copy("shallow", self.freeze(bb, st)))
            if name == "get" and bb.op == "dict":
                return self.pure_method(self.freeze(bb, st), name, [self.freeze(a, st) for a in args], kwargs, st)
            if name == "index" and bb.op == "list":
                return None
        fb = self.freeze(bb, st)
        return self.pure_method(fb, name, [self.freeze(a, st) for a in args], kwargs, st)

    def mutate(self, ref, name, args, kwargs, st, node, fr):
        rid = ref.args[0]
        c = st.store.get(rid, unknown("ref"))
        fa = tuple(self.freeze(a, st) for a in args)
        self.ev("mutate", {"base": None, "method": name, "args": fa, "raw": ref, "content": c}, st, node, fr)
        ret = NONE

        def cat(x, part):
            if x.op == "list" and part.op == "list":
                return Term("list", x.args[0] + part.args[0])
            if x.op == "set" and part.op in ("list", "set"):
                return Term("set", x.args[0] + tuple(e for e in part.args[0] if e not in x.args[0]))
            if x.op in ("list", "set") and not x.args[0] and part.op in ("comp", "as", "seqcat") and x.op == "list":
                return mk_as("list", part)
            return Term("seqcat", (x.args[0] if x.op == "seqcat" else (x,)) + (part.args[0] if part.op == "seqcat" else (part,)))

        if name in ("append", "add"):
            st.store[rid] = cat(c, Term("list", (args[0],)))
        elif name == "extend":
            x = args[0]
            lit = self.literal_items(x, st)
            if lit is not None:
                st.store[rid] = cat(c, Term("list", tuple(lit)))
            else:
                st.store[rid] = cat(c, fa[0])
        elif name == "update" and c.op in ("dict", "dictcat", "dcomp", "mu", "copy") or name == "update" and c.op == "phi":
            if args:
                x = st.store.get(args[0].args[0], args[0]) if args[0].op == "ref" else args[0]
                if x.op == "dict":
                    for e in x.args[0]:
                        self.dict_put(ref, e, st)
                else:
                    self.dict_put(ref, Term("dstar", self.freeze(x, st)), st)
            for k, v in kwargs.items():
                self.dict_put(ref, Term("pair", K(k), v), st)
        elif name == "update":
            st.store[rid] = cat(c, fa[0]) if fa else c
        elif name == "insert" and c.op == "list" and args and is_const(args[0]) and not any(e.op == "star" for e in c.args[0]):
            l = list(c.args[0])
            l.insert(cval(args[0]), args[1])
            st.store[rid] = Term("list", tuple(l))
        elif name == "pop":
            if c.op == "list" and (not args or is_const(args[0])) and c.args[0] and not any(e.op == "star" for e in c.args[0]):
                l = list(c.args[0])
                k = cval(args[0]) if args else -1
                try:
                    ret = l.pop(k)
                    st.store[rid] = Term("list", tuple(l))
                except IndexError:
                    ret = Term("never")
            elif c.op == "dict" and args and all(e.op == "pair" and is_const(e.args[0]) for e in c.args[0]) and is_const(args[0]):
                ret = mk_item(c, args[0])
                st.store[rid] = Term("dict", tuple(e for e in c.args[0] if e.args[0] != args[0]))
            else:
                ret = Term("popped", self.freeze(c, st), fa)
                st.store[rid] = Term("seqcat", (Term("afterpop", self.freeze(c, st), fa),))
        elif name == "setdefault":
            k = fa[0]
            cur = mk_item(c, k) if c.op == "dict" else Term("item", self.freeze(c, st), k)
            if cur.op == "item":
                # model as a growable slot of this dict
                ret = Term("slot", ref, k, self.freeze(args[1], st) if len(args) > 1 else NONE)
                return ret
            ret = cur
        elif name in ("sort",):
            st.store[rid] = Term("sorted", self.freeze(c, st), self.freeze(kwargs.get("key", NONE), st), self.freeze(kwargs.get("reverse", FALSE), st))
        elif name == "reverse":
            st.store[rid] = mk_rev(c)
        elif name == "clear":
            st.store[rid] = Term("dict" if c.op in ("dict", "dcomp", "dictcat") else "list", ())
        else:
            st.store[rid] = Term("mutated", name, self.freeze(c, st), fa)
        return ret

    # ---- builtins and standard library
    def call_builtin(self, name, args, kwargs, fr, st, node):
        def raw(i):
            a = args[i]
            return st.store.get(a.args[0], a) if a.op == "ref" else a
        def fz(i):
            return self.freeze(args[i], st)
        n = len(args)
        if any(a.op == "star" for a in args) and name not in ("zip", "print", "map"):
            return None
        if name == "len" and n == 1:
            return mk_len(self.freeze(raw(0), st))
        if name in ("list", "tuple", "set", "frozenset"):
            if n == 0:
                return self.new_ref(st, Term(name, ())) if name in ("list", "set") else Term("tuple", ())
            lit = self.literal_items(args[0], st)
            if lit is not None and name != "set" and name != "frozenset":
                t = Term(name, tuple(lit))
                return self.new_ref(st, t) if name == "list" else t
            x = self.freeze(raw(0), st)
            if x.op == "const" and isinstance(cval(x), str):
                x = Term("list", tuple(K(ch) for ch in cval(x)))
            t = mk_as("set" if name == "frozenset" else name, x)
            return self.new_ref(st, t) if name in ("list", "set") else t
        if name == "dict":
            if n == 0:
                return self.new_ref(st, Term("dict", tuple(Term("pair", K(k), v) for k, v in kwargs.items())))
            x = self.freeze(raw(0), st)
            if x.op in ("dict", "dcomp", "dictcat"):
                return self.new_ref(st, x)
            lit = self.literal_items(args[0], st)
            if lit is not None and all(e.op == "tuple" and len(e.args[0]) == 2 for e in lit):
                es = []
                for e in lit:
                    es = self._put(es, Term("pair", self.freeze(e.args[0][0], st), e.args[0][1]))
                return self.new_ref(st, Term("dict", tuple(es)))
            if x.op == "comp" and x.args[1].op == "tuple" and len(x.args[1].args[0]) == 2:
                k, v = x.args[1].args[0]
                return self.new_ref(st, Term("dcomp", k, v, x.args[2], x.args[3]))
            if x.op == "zip" and len(x.args[0]) == 2:
                return self.new_ref(st, Term("dcomp", mk_elem(x.args[0][0]), mk_elem(x.args[0][1]), (x,), TRUE))
            if x.op == "items":
                return self.new_ref(st, mk_copy("shallow", x.args[0]))
            return self.new_ref(st, mk_copy("shallow", x))
        if name == "sorted" and n == 1:
            x = self.freeze(raw(0), st)
            key = self.freeze(kwargs.get("key", NONE), st)
            rev = self.freeze(kwargs.get("reverse", FALSE), st)
            lit = self.literal_items(args[0], st)
            if lit is not None and key == NONE and rev == FALSE and all(is_const(e) for e in lit):
                try:
                    return self.new_ref(st, Term("list", tuple(sorted(lit, key=cval))))
                except TypeError:
                    pass
            if lit is not None and len(lit) <= 1:
                return self.new_ref(st, Term("list", tuple(lit)))
            return self.new_ref(st, Term("sorted", strip_iter(x), key, rev))
        if name == "reversed" and n == 1:
            return mk_rev(self.freeze(raw(0), st))
        if name == "enumerate" and n == 1 and not kwargs:
            return Term("enumerate", args[0] if args[0].op == "ref" and self.literal_items(args[0], st) is not None else fz(0))
        if name == "zip":
            xs = []
            for a in args:
                if a.op == "star":
                    return Term("zipstar", self.freeze(a.args[0], st))
                xs.append(a if self.literal_items(a, st) is not None else self.freeze(a, st))
            return Term("zip", tuple(xs))
        if name == "range":
            a = [fz(i) for i in range(n)]
            if n == 1:
                return Term("range", K(0), a[0], K(1))
            if n == 2:
                return Term("range", a[0], a[1], K(1))
            if n == 3:
                return Term("range", *a)
        if name == "map" and n == 2 and args[1].op != "star":
            f, xs = args
            lit = self.literal_items(xs, st)
            if lit is not None:
                return Term("list", tuple(self.call(f, [e], {}, fr, st, node) for e in lit))
            x = self.freeze(xs, st)
            nest = sum(1 for l in self.loops if l[0] == "for" and l[1] == x)
            saved = self.loops
            self.loops = self.loops + (("for", x, nest, getattr(node, "lineno", 0)),)
            e = self.freeze(self.call(f, [mk_elem(x, nest)], {}, fr, st, node), st)
            self.loops = saved
            return self.mk_comp("gen", e, (x,), TRUE)
        if name == "filter" and n == 2:
            f, xs = args
            x = self.freeze(xs, st)
            el = mk_elem(x)
            g = el if f == NONE else self.freeze(self.call(f, [el], {}, fr, st, node), st)
            return self.mk_comp("gen", el, (x,), g)
        if name in ("any", "all") and n == 1:
            x = self.freeze(raw(0), st)
            lit = self.literal_items(args[0], st)
            if lit is not None:
                lit = [self.freeze(l, st) for l in lit]
                return (mk_or if name == "any" else mk_and)(*lit) if lit else K(name == "all")
            if x.op == "comp":
                e, its, g = x.args[1], x.args[2], x.args[3]
            else:
                e, its, g = mk_elem(x), (x,), TRUE
            if name == "any":
                return mk_exists(e, its, g)
            return mk_not(mk_exists(mk_not(e), its, g))
        if name == "sum" and 1 <= n <= 2:
            init = fz(1) if n == 2 else self.freeze(kwargs.get("start", K(0)), st)
            lit = self.literal_items(args[0], st)
            if lit is not None:
                acc = init
                for e in lit:
                    acc = mk_add(acc, self.freeze(e, st))
                return acc
            x = self.freeze(raw(0), st)
            if x.op == "comp":
                return Term("fold", "add", init, x.args[1], x.args[2], x.args[3])
            return Term("fold", "add", init, mk_elem(x), (strip_iter(x),), TRUE)
        if name == "str" and n == 1:
            return mk_str(fz(0))
        if name == "repr" and n == 1:
            return Term("repr", fz(0))
        if name == "int" and n == 1:
            x = fz(0)
            if is_const(x) and isinstance(cval(x), (int, str)):
                try:
                    return K(int(cval(x)))
                except ValueError:
                    return None
            return Term("int", x)
        if name == "float" and n == 1:
            return Term("float", fz(0))
        if name == "abs" and n == 1:
            x = fz(0)
            return K(abs(cval(x))) if _isnum(x) else Term("abs", x)
        if name == "bool" and n == 1:
            x = fz(0)
            return K(truth(x)) if truth(x) is not None else x if is_boolish(x) else mk_not(mk_not(Term("truthy", x)))
        if name in ("min", "max"):
            a = [self.freeze(raw(i), st) for i in range(n)]
            if all(_isnum(x) for x in a) and n > 1:
                return K((min if name == "min" else max)(cval(x) for x in a))
            if n == 2 and not kwargs and not any(x.op == "star" for x in a):
                # of two, the lesser and the other (what is equal is as good)
                return mk_phi(mk_lt(a[1], a[0]), *((a[1], a[0]) if name == "min" else (a[0], a[1])))
            return Term(name, tuple(a), tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs.items())))
        if name == "isinstance" and n == 2:
            c = args[1]
            c = st.store.get(c.args[0], c) if c.op == "ref" else c
            alts = list(c.args[0]) if c.op in ("tuple", "list") else [c]
            x = self.freeze(args[0], st)
            return mk_or(*[self.isinst(x, self.freeze(a, st), st) for a in alts])
        if name == "hasattr" and n == 2 and is_const(args[1]):
            return Term("hasattr", fz(0), cval(args[1]))
        if name == "getattr" and n in (2, 3) and is_const(args[1]) and isinstance(cval(args[1]), str):
            if n == 2:
                return self.get_attr(args[0], cval(args[1]), fr, st, node)
            b = fz(0)
            return mk_phi(Term("hasattr", b, cval(args[1])), mk_attr(b, cval(args[1])), fz(2))
        if name == "setattr" and n == 3 and is_const(args[1]):
            self.store_attr(args[0], cval(args[1]), args[2], fr, st, node)
            return NONE
        if name == "iter" and n == 1:
            return args[0]
        if name == "type" and n == 1:
            return mk_attr(fz(0), "__class__") if fz(0).op not in ("new",) else Term("attr", fz(0), "__class__")
        if name == "print":
            self.ev("call", {"name": "print", "callee": Term("builtin", "print"), "args": tuple(self.freeze(a, st) for a in args),
                             "kwargs": {}, "term": NONE, "raw": tuple(args), "rawkw": {}, "base": None}, st, node, fr)
            return NONE
        if name == "eval" and n == 1:
            scope, f = {}, fr
            while f is not None and not getattr(f, "is_module", False):
                for k, v in st.vars.items():
                    # local functions are visible to the evaluated text under their names
                    if k[0] == f.id and v.op in ("closure", "lam", "fn", "partial") and k[1] not in scope:
                        scope[k[1]] = self.freeze(v, st)
                f = f.parent
            t = Term("evald", fz(0), *([tuple(sorted(scope.items()))] if scope else []))
            self.ev("call", {"name": "eval", "callee": Term("builtin", "eval"), "args": (fz(0),), "kwargs": {},
                             "term": t, "raw": tuple(args), "rawkw": {}, "base": None}, st, node, fr)
            return t
        if name == "super":
            return Term("super", *[fz(i) for i in range(n)])
        if name == "object" and n == 0:
            return Term("object")
        return None

    def isinst(self, x, c, st):
        if x.op == "phi":
            return mk_phi(x.args[0], self.isinst(x.args[1], c, st), self.isinst(x.args[2], c, st))
        if c.op == "builtin" and c.args[0] in ("str", "int", "list", "tuple", "dict", "set", "float", "bool"):
            if is_const(x):
                return K(isinstance(cval(x), getattr(builtins, c.args[0])) if not isinstance(cval(x), Fraction) else False)
            if x.op in ("list", "tuple", "dict", "set"):
                return K(x.op == c.args[0])
            if x.op in ("concat", "str", "sjoin", "fmt"):
                return K(c.args[0] == "str")
            if x.op in ("new", "fold", "lam"):
                if x.op == "new":
                    return K(False)
        if c.op == "cls":
            if x.op == "new":
                return K(c.args[0] in self.p.mro(x.args[0]))
            if x.op == "const" or x.op in ("list", "dict", "concat", "sjoin", "fmt"):
                return K(False)
        if x.op == "phi":
            return mk_phi(x.args[0], self.isinst(x.args[1], c, st), self.isinst(x.args[2], c, st))
        return Term("isinstance", x, c)

    def call_ext(self, q, args, kwargs, fr, st, node):
        short = q.split(".")[-1]
        def fz(i):
            return self.freeze(args[i], st)
        n = len(args)
        if q == "functools.reduce" and n in (2, 3) and not any(a.op == "star" for a in args):
            return self.do_reduce(args, fr, st, node)
        if q in ("copy.copy", "copy.deepcopy"):
            x = self.freeze(args[0], st)
            kind = "deep" if short == "deepcopy" else "shallow"
            if x.op in ("list", "dict", "set"):
                return self.new_ref(st, x)
            return mk_copy(kind, x)
        if q in ("sympy.Rational", "sympy.Integer", "sympy.S", "sympy.sympify", "fractions.Fraction") and n >= 1:
            vals = [self.freeze(a, st) for a in args]
            if all(is_const(v) for v in vals):
                try:
                    return K(Fraction(*[Fraction(cval(v)) if not isinstance(cval(v), float) else Fraction(repr(cval(v))) for v in vals]))
                except Exception:
                    return None
            if n == 1:
                return Term("rational", vals[0])
            return None
        if q == "functools.partial" and n >= 1:
            return Term("partial", args[0], tuple(args[1:]), tuple(sorted(kwargs.items(), key=lambda kv: kv[0])))
        if q in ("itertools.chain",):
            if any(a.op == "star" for a in args):
                if n == 1:
                    x = self.freeze(args[0].args[0], st)
                    return self.mk_comp("gen", mk_elem(mk_elem(x)), (x, mk_elem(x)), TRUE)
                return None
            return Term("seqcat", tuple(self.freeze(a, st) for a in args))
        if q in ("itertools.chain.from_iterable",) and n == 1:
            x = fz(0)
            if x.op == "comp":
                e = x.args[1]
                return self.mk_comp("gen", mk_elem(e), x.args[2] + (e,), x.args[3])
            return self.mk_comp("gen", mk_elem(mk_elem(x)), (x, mk_elem(x)), TRUE)
        if q == "collections.defaultdict":
            r = self.new_ref(st, Term("dict", ()))
            f = args[0] if args else NONE
            v = self.default_of(f, fr, st, node)
            if v is not None:
                self.__dict__.setdefault("factories", {})[r.args[0]] = v
            return r
        if q == "collections.Counter" and n <= 1 and not kwargs:
            return self.new_ref(st, Term("call", Term("ext", q), (fz(0),) if n else (), ()))
        if q == "collections.OrderedDict" and n == 0:
            return self.new_ref(st, Term("dict", ()))
        if q.startswith("operator.") and n == 2:
            m = {"mul": "Mult", "add": "Add", "sub": "Sub", "mod": "Mod"}.get(short)
            if m:
                return self.binop(m, args[0], args[1], st, node, fr)
            m = {"eq": ast.Eq, "ne": ast.NotEq, "lt": ast.Lt, "gt": ast.Gt, "ge": ast.GtE, "le": ast.LtE, "contains": None}.get(short)
            if m:
                return self.cmp(m(), fz(0), fz(1))
        if q == "operator.neg" and n == 1:
            return mk_neg(fz(0))
        if q in ("operator.itemgetter", "operator.attrgetter") and n == 1 and is_const(args[0]):
            k = args[0]
            if short == "itemgetter":
                return Term("lam", 1, Term("item", sym("%1.0"), k))
            return Term("lam", 1, Term("attr", sym("%1.0"), cval(k)))
        return None

    def do_reduce(self, args, fr, st, node):
        f = args[0]
        lit = self.literal_items(args[1], st)
        if lit is not None and len(lit) <= 60:
            seq = list(lit)
            if len(args) == 3:
                seq = [args[2]] + seq
            if not seq:
                return Term("never")
            acc = seq[0]
            for e in seq[1:]:
                acc = self.call(f, [acc, e], {}, fr, st, node)
            return acc
        xs = st.store.get(args[1].args[0], args[1]) if args[1].op == "ref" else args[1]
        x = self.freeze(xs, st)
        a, b = sym("%acc"), mk_elem(x)
        init = self.freeze(args[2], st) if len(args) == 3 else Term("first")
        pieces = None
        if x.op in ("list", "tuple"):
            pieces = [(e.args[0], True) if e.op == "star" else (e, False) for e in x.args[0]]
        elif x.op == "seqcat":
            pieces = []
            for part in x.args[0]:
                l = self.literal_items(part, st)
                if l is not None:
                    pieces += [(e, False) for e in l]
                else:
                    pieces.append((part, True))
        r = None
        if pieces is not None:
            acc = init
            okp = True
            for e, star in pieces:
                if star:
                    v = self.reduce_step(f, e, fr, st, node)
                    if v is None:
                        okp = False
                        break
                    acc = Term("fold", v[0], acc, v[1], (strip_iter(e),), TRUE)
                else:
                    if acc == Term("first"):
                        acc = self.freeze(e, st)
                    else:
                        acc = self.freeze(self.call(f, [acc, e], {}, fr, st, node), st)
            if okp:
                return acc
        v = self.reduce_step(f, x, fr, st, node)
        if v is None:
            return Term("call", Term("ext", "functools.reduce"), (self.freeze(f, st), x, init), ())
        if x.op == "comp":
            return Term("fold", v[0], init, v[1], x.args[2], x.args[3])
        return Term("fold", v[0], init, v[1], (strip_iter(x),), TRUE)

    def reduce_step(self, f, x, fr, st, node):
        a = sym("%acc")
        el = x.args[1] if x.op == "comp" else mk_elem(x)
        self.quiet += 1
        try:
            r = self.freeze(self.call(f, [a, el], {}, fr, st.clone(), node), st)
        finally:
            self.quiet -= 1
        if r.op in ("mul", "add") and r.args[0] == a:
            return r.op, r.args[1]
        if r.op in ("mul", "add") and r.args[1] == a:
            return r.op, r.args[0]
        if r.op == "seqcat" and r.args[0][0] == a and len(r.args[0]) == 2:
            return "add", r.args[0][1]
        return None


# -------------------------------------------------------------------- helpers

class Closer:
    """Closed form of values that depend on loop-carried state: the loop as a
    term (iterable or condition, exit conditions, initial values, updates)."""

    def __init__(self, ev, lid, fin, st, snap_v, snap_s, snap_h, iters, brk, base_n, level, leaves):
        self.ev, self.lid, self.fin, self.st = ev, lid, fin, st
        self.snap = (snap_v, snap_s, snap_h)
        self.iters, self.brk, self.base_n, self.level = iters, brk, base_n, level
        self.keys = {}
        self.leaves = leaves

    def find(self, mu):
        """(initial value, updated value) of a carried slot"""
        if mu.args[1] in self.keys:
            return self.keys[mu.args[1]]
        nm = mu.args[1]
        r = None
        sv, ss, sh = self.snap
        if nm[0] == "v":
            for k in sv:
                if isinstance(k, tuple) and k[1] == nm[1:]:
                    new = self.fin.vars.get(k) if self.fin is not None else None
                    r = (self.ev.freeze(sv[k], self.st), self.ev.freeze(new, self.fin) if new is not None else mu)
        elif nm[0] == "r":
            k = int(nm[1:])
            new = self.fin.store.get(k) if self.fin is not None else None
            r = (self.ev.freeze(ss[k], self.st), self.ev.freeze(new, self.fin) if new is not None else mu)
        elif nm[0] == "h":
            for k, v in (self.fin.heap.items() if self.fin is not None else ()):
                if f"h{k[1]}{tkey(k[0])}" == nm:
                    old = sh.get(k, mk_attr(k[0], k[1]) if k[1] != "[]" else Term("list", ()))
                    r = (self.ev.freeze(old, self.st), self.ev.freeze(v, self.fin))
        self.keys[nm] = r
        return r

    def mus(self, t):
        out = []
        for x in subterms(t):
            if x.op == "mu" and x.args[0] == self.lid and x not in out:
                out.append(x)
        return out

    def final(self, k, mu, old=None):
        return self.close(mu)

    def close(self, t):
        order = self.mus(t)
        if not order:
            return t
        exits = []
        for gate, b in self.brk:
            inner = gate[self.base_n:]
            exits.append(self.ev.freeze(mk_and(*inner), b) if inner else TRUE)
        if len(exits) > 1:
            exits = [mk_or(*exits)]
        w = self.iters[0]
        pend = list(order)
        ups, inits = {}, {}
        todo = list(order)
        first = True
        while todo or first:
            if not todo:
                first = False
                for x in exits + [w]:
                    for m in self.mus(x):
                        if m not in order:
                            order.append(m)
                            todo.append(m)
                continue
            m = todo.pop(0)
            f = self.find(m)
            if f is None:
                return Term("loopval", self.iters, m.args[1])
            inits[m], ups[m] = f
            for y in self.mus(f[1]):
                if y not in order:
                    order.append(y)
                    todo.append(y)
        # what no pass changes is still the initial value
        still = {m: inits[m] for m in order if ups[m] == m and not self.mus(inits[m])}
        if still:
            g = lambda x: still.get(x, x)
            t, w, exits = rewrite(t, g), rewrite(w, g), [rewrite(x, g) for x in exits]
            order = [m for m in order if m not in still]
            ups = {m: rewrite(ups[m], g) for m in order}
            if not self.mus(t):
                return t
        sub = {m: Term("rec", self.level, i) for i, m in enumerate(order)}
        f = lambda x: sub.get(x, x)
        return Term("fix", rewrite(w, f), tuple(rewrite(x, f) for x in exits),
                    tuple(inits[m] for m in order), tuple(rewrite(ups[m], f) for m in order), rewrite(t, f))

    def close_any(self, v):
        if isinstance(v, Term):
            return self.close(v)
        if isinstance(v, tuple):
            return tuple(self.close_any(x) for x in v)
        if isinstance(v, dict):
            return {k: self.close_any(x) for k, x in v.items()}
        return v

    def close_event(self, e):
        for k, v in list(e.data.items()):
            if k not in ("raw", "rawkw", "content", "span"):
                e.data[k] = self.close_any(v)
        e.gate = tuple(self.close(g) for g in e.gate)
        e.loops = tuple((l[0], self.close(l[1]) if isinstance(l[1], Term) else l[1]) + tuple(l[2:]) for l in e.loops)


def mk_exists(e, iters, g=TRUE):
    c = mk_and(g, e) if g != TRUE else e
    its = []
    for i in iters:
        while i.op == "comp" and i.args[0] in ("list", "gen", "tuple") and len(i.args[2]) == 1 and i.args[3] == TRUE:
            i = i.args[2][0]
        its.append(strip_iter(i))
    if c == FALSE:
        return FALSE
    return Term("exists", c, tuple(its))


_whiles = {}


def while_exit(s):
    """while True: (if c: ...leave); rest   is   while not c: rest, else: ...leave"""
    if id(s) in _whiles:
        return _whiles[id(s)][1]
    out = s
    first = s.body[0]
    if isinstance(s.test, ast.Constant) and s.test.value in (True, 1) and not s.orelse and isinstance(first, ast.If) and not first.orelse \
            and len(s.body) > 1 and isinstance(first.body[-1], (ast.Break, ast.Return, ast.Raise)) \
            and not any(isinstance(x, (ast.Break, ast.Continue, ast.For, ast.While, ast.NamedExpr)) for y in first.body[:-1] for x in ast.walk(y)):
        leave = first.body[:-1] if isinstance(first.body[-1], ast.Break) else first.body
        t = first.test
        t = t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.copy_location(ast.UnaryOp(ast.Not(), t), t)
        out = ast.copy_location(ast.While(t, s.body[1:], list(leave)), s)
        out.end_lineno = s.end_lineno
        out._parent = getattr(s, "_parent", None)
    _whiles[id(s)] = (s, out)
    return out


def mk_last(t, iters):
    """what it was in the last turn"""
    if len(iters) == 1 and iters[0].op not in ("whilec", "items", "keys", "values", "dict", "set", "dcomp", "range", "zip"):
        it = iters[0]
        vs = [x for x in subterms(t) if x.op in ("elem", "idx", "keyof", "valof", "mu", "rec") and it in x.args]
        if vs and all(x == mk_elem(it) for x in vs) and mk_elem(it).op == "elem":
            return subst(t, {mk_elem(it): mk_item(it, K(-1))})
    return Term("last", t, iters)


def loop_filter(it, nest, known):
    """(condition, element, sequence) a loop over `it` goes through."""
    x = strip_iter(it)
    if x.op == "add":
        # what is looped over is a sequence, so a sum of such is one after the other
        parts = []
        stack = [x]
        while stack:
            y = strip_iter(stack.pop())
            if y.op == "add" and len(y.args) == 2:
                stack += [y.args[1], y.args[0]]
            elif y.op in ("list", "tuple"):
                parts += list(y.args[0])
            else:
                parts.append(Term("star", y))
        it = x = Term("list", tuple(parts))
    whole, x = x, loop_iter(x)
    if nest == 0 and x.op == "comp" and x.args[0] in ("list", "gen", "tuple") and len(x.args[2]) == 1 and x.args[3] != TRUE:
        src = x.args[2][0]
        if loop_iter(src, 0) == src and not any(t.op in ("mu", "elem", "idx", "keyof", "valof") and src in t.args and t.args[-1] != 0
                                                for t in subterms(x.args[1]) + subterms(x.args[3])):
            known[mk_elem(x, 0)] = x.args[1]
            return x.args[3], subst(mk_elem(whole, 0), {mk_elem(x, 0): x.args[1]}), src
    return TRUE, mk_elem(it, nest), loop_iter(it, nest)


def loop_iter(x, nest=1):
    """What a loop runs over, however the running index is spelled."""
    while True:
        if x.op == "enumerate":
            x = x.args[0]
        elif x.op == "range" and x.args[0] == K(0) and x.args[1].op == "len" and x.args[2] == K(1):
            x = x.args[1].args[0]
        elif x.op == "as" and x.args[0] in ("list", "tuple", "iter"):
            x = x.args[1]
        elif nest == 0 and x.op == "comp" and x.args[0] in ("list", "gen", "tuple") and len(x.args[2]) == 1 \
                and x.args[3] == TRUE:
            x = x.args[2][0]
        elif nest == 0 and x.op == "zip":
            y = Term("zip", tuple(loop_iter(i, 0) for i in x.args[0]))
            if y is x:
                return x
            x = y
        else:
            return x


def loop_root(x):
    while True:
        y = loop_iter(x)
        if y.op in ("items", "keys", "values"):
            y = y.args[0]
        elif y.op == "copy":
            y = y.args[-1]
        elif y.op == "comp" and len(y.args[2]) == 1 and y.args[3] == TRUE:
            y = y.args[2][0]
        if y is x:
            return x
        x = y


def strip_iter(x):
    while x.op == "as" and x.args[0] in ("list", "tuple", "iter"):
        x = x.args[1]
    return x


def strip_copy_top(x):
    while x.op == "copy" or (x.op == "as" and x.args[0] == "dict"):
        x = x.args[1]
    return x


def flatten_op(t, op):
    if t.op == op:
        return flatten_op(t.args[0], op) + flatten_op(t.args[1], op)
    return [t]


def _isnum(t):
    return is_const(t) and isinstance(cval(t), (int, float, Fraction)) and not isinstance(cval(t), str)


def is_generator(fn):
    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return False
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        return any(visit(c) for c in ast.iter_child_nodes(n))
    return any(visit(s) for s in fn.body)


def deco_blocks(fn):
    return any(d not in ("staticmethod", "classmethod", "property", "lru_cache", "cached_property") for d in deco_names(fn))


def simple_literal(n):
    if isinstance(n, ast.Constant):
        return True
    if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
        return all(simple_literal(e) for e in n.elts)
    if isinstance(n, ast.Dict):
        return all(k is not None and simple_literal(k) for k in n.keys) and all(simple_literal(v) for v in n.values)
    if isinstance(n, ast.UnaryOp):
        return simple_literal(n.operand)
    if isinstance(n, ast.BinOp):
        return simple_literal(n.left) and simple_literal(n.right)
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("Rational", "frozenset", "tuple", "set", "list"):
        return all(simple_literal(a) for a in n.args)
    if isinstance(n, ast.Name):
        return n.id.isupper() and len(n.id) > 1 or n.id == "__file__"
    # paths
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in PATH_CALLS and not n.keywords:
        return all(simple_literal(a) for a in n.args) and (not isinstance(n.func.value, ast.Call) or simple_literal(n.func.value))
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("str", "Path", "join", "dirname", "abspath", "realpath"):
        return all(simple_literal(a) for a in n.args)
    if isinstance(n, ast.Attribute) and n.attr == "parent":
        return simple_literal(n.value)
    if isinstance(n, ast.JoinedStr):
        return all(isinstance(v, ast.Constant) or v.format_spec is None and simple_literal(v.value) for v in n.values)
    return False


PATH_CALLS = {"join", "dirname", "abspath", "realpath", "resolve", "absolute", "joinpath", "Path", "normpath"}


def format_str(s, args, kwargs):
    import string
    parts = []
    i = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                parts.append(K(lit))
            if field is None:
                continue
            if field == "":
                x = args[i]
                i += 1
            elif field.isdigit():
                x = args[int(field)]
            elif field in kwargs:
                x = kwargs[field]
            else:
                return None
            parts.append(mk_str(x) if not spec and not conv else Term("fmt", x, K(spec or "")))
    except (IndexError, ValueError):
        return None
    return mk_concat(parts)


def split_concat(b, sep):
    """Split a known concatenation at a separator that only occurs in its
    constant parts."""
    parts = [[]]
    for p in b.args[0]:
        if is_const(p):
            chunks = cval(p).split(sep)
            parts[-1].append(K(chunks[0]))
            for ch in chunks[1:]:
                parts.append([K(ch)])
        else:
            parts[-1].append(p)
    return Term("list", tuple(mk_concat(x) if x else K("") for x in parts))


def merge_growth(parts):
    """`if k not in d: d[k] = []` before `d[k].append(x)`, and
    `if k in d: d[k].append(x) else: d[k] = [x]`, are growth from a default."""
    out = []
    for p in parts:
        if p.op == "dgrow" and p.args[1].op == "act" and p.args[1].args[1] == NONE:
            k, act, its, g = p.args
            fresh = mk_not(mk_in(k, Term("self_so_far")))
            for i, q in enumerate(out):
                if q.op == "dcomp" and q.args[0] == k and q.args[2] == its and is_empty_literal(q.args[1]) and q.args[3] == mk_and(g, fresh):
                    how = "extend" if act.args[0] == "+=" and q.args[1].op == "list" else act.args[0]
                    out[i] = Term("dgrow", k, Term("act", how, q.args[1], act.args[2]), its, g)
                    break
                one = Term("list", act.args[2])
                if q.op == "dcomp" and q.args[0] == k and q.args[2] == its and act.args[0] in ("append", "add") \
                        and (q.args[1] == one or q.args[1] == Term("set", act.args[2])) and g == mk_not(q.args[3]):
                    out[i] = Term("dgrow", k, Term("act", act.args[0], Term(q.args[1].op, ()), act.args[2]), its, TRUE)
                    break
            else:
                out.append(p)
            continue
        if p.op == "dcomp" and p.args[3].op == "not":
            k, v, its, g = p.args
            for i, q in enumerate(out):
                if q.op == "dgrow" and q.args[0] == k and q.args[2] == its and q.args[1].op == "act" and q.args[1].args[0] in ("append", "add") \
                        and q.args[1].args[1] == NONE and v.op in ("list", "set") and v.args[0] == q.args[1].args[2] and g == mk_not(q.args[3]):
                    out[i] = Term("dgrow", k, Term("act", q.args[1].args[0], Term(v.op, ()), q.args[1].args[2]), its, TRUE)
                    break
            else:
                out.append(p)
            continue
        out.append(p)
    return out
