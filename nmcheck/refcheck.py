"""Specification equivalence: the observable summary of a function (returned
value, raising conditions, effects) must equal the summary of its specification
in nmcheck/refs, which is written as plain Python over the same vocabulary.

Both sides go through the same analysis; the comparison is semantic (case split
over branch conditions, helpers not shared by both sides are dissolved), so a
rewrite that computes the same thing is equal and only a difference in content
is reported.  Three stages keep it from alarming on moved responsibilities:
1. compare with the common vocabulary opaque;
2. if different, compare again with field properties and every callee whose own
   definition differs from its specification dissolved into the caller;
3. if still different but every caller in the package is equal with the function
   dissolved into it, the difference is not observable: undecided."""
import ast
import os
import signal
import time

from .ctx import Ctx
from .program import AnalysisBroken
from .behave import SILENT, PRINTERS, observe, compare, signature, compare_signature
from .terms import *
from .terms import Term, has_unknown, show, subterms
from .same import same, norm

HERE = os.path.dirname(os.path.abspath(__file__))
REFROOT = os.path.join(HERE, "refs")
_ref = None


def ref_ctx():
    global _ref
    if _ref is None:
        _ref = Ctx(REFROOT)
        _ref.vocab_full = set(_ref.vocab)
    return _ref


def strip_doc(fn):
    b = fn.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
        b = b[1:]
    return b


def fingerprint(fn):
    if getattr(fn, "_fp", None) is None:
        fn._fp = _fingerprint(fn)
    return fn._fp


def _fingerprint(fn):
    return ast.dump(fn.args) + "|" + ",".join(ast.dump(d) for d in fn.decorator_list) + "|" + \
        "\n".join(ast.dump(s) for s in strip_doc(fn))


class Pair:
    """Current program and specification program, with their common vocabulary."""

    def __init__(self, ctx):
        self.ctx, self.ref = ctx, ref_ctx()
        cur, spec = self.defs(ctx.p), self.defs(self.ref.p)
        vocab = set(self.ref.vocab_full)
        gone = {q for q in spec if q not in cur}
        # a function whose parameters changed is dissolved on both sides
        resig = {q for q in spec if q in cur and self.sig(spec[q]) != self.sig(cur[q]) and q.split(".")[-1] != "__init__"}
        self.vocab = vocab - gone - resig
        self.changed = {q for q in spec if q in cur and fingerprint(spec[q]) != fingerprint(cur[q])}
        self.changed |= gone | resig
        self.cur, self.spec = cur, spec
        self.ref_globals = {m.name + "." + n for m in self.ref.p.modules.values() for n in m.top}
        self.memo = {}

    def cur_classes(self):
        return {m.name + "." + q for m in self.ctx.p.modules.values() for q in m.classes}

    @staticmethod
    def defs(p):
        return {m.name + "." + q: f for m in p.modules.values() if not m.rel.endswith("_test.py") for q, f in m.functions.items()
                if "<locals>" not in q}

    @staticmethod
    def sig(fn):
        a = fn.args
        return ([x.arg for x in a.posonlyargs + a.args], [x.arg for x in a.kwonlyargs], bool(a.vararg), bool(a.kwarg))

    def obs(self, which, mod, qual, inline=()):
        key = (which, mod, qual, tuple(sorted(inline)))
        if key not in self.memo:
            c = self.ctx if which == "cur" else self.ref
            old = c.vocab
            c.vocab = self.vocab
            try:
                r = c.run(mod, qual, inline=inline)
            finally:
                c.vocab = old
            silent = SILENT - {"print"} if qual in PRINTERS else SILENT
            self.memo[key] = (observe(r, r.ev, silent=silent), signature(r.ev, r.mod, r.fn), r)
        return self.memo[key]

    def records(self):
        """field of a named tuple -> (position, no other class has an attribute of that name)"""
        if not hasattr(self, "_records"):
            out, other = {}, set()
            for c in (self.ctx, self.ref):
                for m in c.p.modules.values():
                    for node in ast.walk(m.tree):
                        if not isinstance(node, ast.ClassDef):
                            continue
                        fs = [x.target.id for x in node.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
                        if any((b.id if isinstance(b, ast.Name) else getattr(b, "attr", None)) == "NamedTuple" for b in node.bases):
                            for i, n in enumerate(fs):
                                if out.setdefault(n, i) != i:
                                    out[n] = None
                        else:
                            other |= {x.name for x in node.body if isinstance(x, ast.FunctionDef)} | set(fs)
                            other |= {x.attr for x in ast.walk(node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
            self._records = {n: (i, n not in other) for n, i in out.items() if i is not None}
        return self._records

    def compare(self, mod, qual, inline=()):
        g, gs, gr = self.obs("cur", mod, qual, inline)
        w, ws, wr = self.obs("spec", mod, qual, inline)
        return compare(g, w, self.ref_globals, self.records()) + compare_signature(gs, ws), gr

    def verdict(self, out):
        vs = [o[1] for o in out]
        return False if False in vs else None if None in vs else True

    def callers(self, qual):
        """functions of the current program that mention the name"""
        short = qual.split(".")[-1]
        out = []
        for m in self.ctx.p.modules.values():
            if m.rel.endswith("_test.py"):
                continue
            for q, f in m.functions.items():
                if "<locals>" in q or (m.name + "." + q) == qual:
                    continue
                for n in ast.walk(f):
                    if (isinstance(n, ast.Name) and n.id == short) or (isinstance(n, ast.Attribute) and n.attr == short):
                        out.append((m.name[len("neutrinomass."):], q))
                        break
        return out

    def decide(self, mod, qual):
        """(list of (aspect, verdict, why, event), result)"""
        out, r = self.compare(mod, qual)
        v = self.verdict(out)
        if v is True:
            return out, r
        full = "neutrinomass." + mod + "." + qual
        from .rules.common import FIELD_INLINE
        best = out
        inl = tuple(sorted(self.changed - {full}))
        stages = ((inl,) if inl else ()) + (FIELD_INLINE, FIELD_INLINE + inl)
        near = self.direct(mod, qual) if v is False else ()
        if near:
            stages += (tuple(sorted(set(inl) | set(near))),)
        for extra in stages:
            try:
                o2, r2 = self.compare(mod, qual, extra)
            except (RecursionError, AnalysisBroken):
                continue
            v2 = self.verdict(o2)
            if v2 is True:
                return o2, r2
            if v2 is False and v is None and all(b is not None or "(not known to be possible)" in w for _, b, w, _ in best):
                # decided once the callees are dissolved
                best, r, v = o2, r2, v2
                continue
            if v2 is None and v is False:
                # a difference that disappears into something undecided when callees are dissolved
                if extra == inl or extra == FIELD_INLINE + inl:
                    best, r, v = o2, r2, v2
        if v is False and full in self.changed and qual.split(".")[-1].startswith("_") and not qual.endswith("__"):
            if self.absorbed(mod, qual, full):
                return [(a, None if b is False else b, "not visible to any caller; " + w, e) for a, b, w, e in best], r
        return best, r

    def direct(self, mod, qual):
        """package functions called on one side where the other side does something else"""
        side = []
        for which in ("cur", "spec"):
            o = self.obs(which, mod, qual)[0]
            calls = set()
            for t in ([o.value] if o.value is not None else []) + list(o.effects) + list(o.raises.values()):
                for x in subterms(t):
                    if x.op == "call" and x.args[0].op == "fn":
                        calls.add(x)
            side.append(calls)
        odd = side[0] ^ side[1]
        names = {x.args[0].args[0] for x in odd}
        names.discard("neutrinomass." + mod + "." + qual)
        return tuple(sorted(names)) if len(names) <= 4 else ()

    def absorbed(self, mod, qual, full):
        cs = self.callers(full)
        if not cs or len(cs) > 12:
            return False
        for m, q in cs:
            try:
                o, _ = self.compare(m, q, tuple(sorted(self.changed | {full})))
            except Exception:
                return False
            if self.verdict(o) is not True:
                return False
        return True


def pair(ctx):
    if getattr(ctx, "_pair", None) is None:
        ctx._pair = Pair(ctx)
    return ctx._pair


class OutOfTime(BaseException):
    pass


START = time.time()
PER_ITEM, TOTAL = 45, 600


class limit:
    """An obligation that takes too long is undecided, never a hang."""

    def __enter__(self):
        def stop(*_):
            raise OutOfTime
        self.old = signal.signal(signal.SIGALRM, stop)
        signal.setitimer(signal.ITIMER_REAL, max(0.5, min(PER_ITEM, START + TOTAL - time.time())))

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def check_function(ctx, R, mod, qual, rule, only=None):
    key0 = f"{mod}.{qual}"
    try:
        with limit():
            P = pair(ctx)
            out, r = P.decide(mod, qual)
        where = ctx.where(mod, qual)
    except OutOfTime:
        R.ob(key0 + ":time", None, "", rule, "comparison takes too long")
        return
    except AnalysisBroken as e:
        R.ob(key0 + ":anchor", None, "", rule, f"anchor lost: {e}")
        return
    except RecursionError:
        R.ob(key0 + ":depth", None, "", rule, "term too deep")
        return
    except Exception as e:
        R.ob(key0 + ":gave-up", None, "", rule, f"{type(e).__name__}: {e}")
        return
    seen = {}
    for aspect, v, why, ev in out:
        if only and not any(aspect.startswith(o) for o in only):
            continue
        n = seen.get(aspect, 0)
        seen[aspect] = n + 1
        w = where
        if ev is not None and v is not True:
            w = ctx.at(ev) + f" (via {qual})"
        R.ob(f"{key0}:{aspect}" + (f"#{n}" if n else ""), v, w, rule, "" if v is True else why)


def check_module(ctx, R, mod, names, rule):
    """Module-level names have the specified value after the module body ran."""
    P = pair(ctx)
    try:
        ctx.p.module(mod)
        with limit():
            got, gst, gev = module_values(ctx, mod, P)
            want, wst, wev = module_values(P.ref, mod, P)
    except OutOfTime:
        R.ob(f"{mod}:time", None, "", rule, "module takes too long")
        return
    except AnalysisBroken as e:
        R.ob(f"{mod}:anchor", None, "", rule, f"anchor lost: {e}")
        return
    rel = ctx.p.module(mod).rel
    for n in names if names else sorted(want):
        if n not in want:
            continue
        where = f"neutrinomass/{rel} {n}"
        if n not in got:
            # may have been moved and imported back
            rs = ctx.p.resolve(ctx.p.module(mod), n)
            R.ob(f"{mod}.{n}:value", None, where, rule, "name is no longer assigned here" if rs is None else "moved")
            continue
        b = ctx.p.module(mod).top.get(n, [])
        for x in b:
            x = x[0] if isinstance(x, tuple) else x
            if hasattr(x, "lineno"):
                where = f"neutrinomass/{rel}:{x.lineno} {n}"
        try:
            with limit():
                v, why = same(got[n], want[n])
                if v is not True:
                    # constants named on one side, written out on the other
                    g, w = constants_of(ctx, got[n], P), constants_of(P.ref, want[n], P)
                    if (g, w) != (got[n], want[n]):
                        v2, why2 = same(g, w)
                        if v2 is not False or v is False:
                            v, why = v2, why2
        except OutOfTime:
            v, why = None, "comparison takes too long"
        except RecursionError:
            v, why = None, "term too deep"
        R.ob(f"{mod}.{n}:value", v, where, rule, "" if v is True else why)


def constants_of(ctx, t, P, depth=0):
    """the term with module-level names replaced by their values"""
    def f(x):
        if x.op == "global" and depth < 4:
            mod, _, n = x.args[0].rpartition(".")
            if mod.startswith("neutrinomass.") and mod in ctx.p.modules:
                v = module_values(ctx, mod[len("neutrinomass."):], P)[0].get(n)
                if v is not None and v != x and v.op != "unknown":
                    return constants_of(ctx, v, P, depth + 1)
        return x
    return rewrite(t, f)


def module_values(ctx, mod, P):
    cache = ctx.__dict__.setdefault("_modvals", {})
    if mod not in cache:
        old = ctx.vocab
        ctx.vocab = P.vocab
        try:
            e = ctx.evaluator()
            vals, st = e.run_module(mod)
        finally:
            ctx.vocab = old
        out = {}
        for k, v in vals.items():
            if v.op in ("fn", "cls", "mod", "ext", "builtin", "closure"):
                continue
            out[k] = e.freeze(v, st)
        cache[mod] = (out, st, e)
    return cache[mod]


class ModuleRun:
    def __init__(self, e):
        self.value, self.outcomes, self.events = None, [], e.events


def check_module_effects(ctx, R, mod, rule):
    """What importing the module does to objects it did not create."""
    P = pair(ctx)
    try:
        m = ctx.p.module(mod)
        with limit():
            g = observe(ModuleRun(module_values(ctx, mod, P)[2]), None)
            w = observe(ModuleRun(module_values(P.ref, mod, P)[2]), None)
            out = compare(g, w, P.ref_globals, P.records())
    except OutOfTime:
        R.ob(f"{mod}:effects time", None, "", rule, "module takes too long")
        return
    except AnalysisBroken as e:
        R.ob(f"{mod}:anchor", None, "", rule, f"anchor lost: {e}")
        return
    n = 0
    for aspect, v, why, ev in out:
        n += 1
        where = f"neutrinomass/{m.rel}:{getattr(getattr(ev, 'node', None), 'lineno', 0)} module body"
        R.ob(f"{mod}:{aspect}#{n}", v, where, rule, "" if v is True else why)


KINDS = ("property", "staticmethod", "classmethod", "setter", "cached_property")


def check_class(ctx, R, mod, name, rule):
    """Base classes, class-level attributes and the kind of every method."""
    P = pair(ctx)
    try:
        m, w = ctx.p.module(mod), P.ref.p.module(mod)
    except AnalysisBroken as e:
        R.ob(f"{mod}.{name}:anchor", None, "", rule, f"anchor lost: {e}")
        return
    cn, wn = m.classes.get(name), w.classes.get(name)
    if cn is None:
        r = ctx.p.resolve(m, name)
        if r is not None and r.op == "cls":
            m, cn = ctx.p.cls_node(r.args[0])
    if cn is None or wn is None:
        R.ob(f"{mod}.{name}:anchor", None, "", rule, "class not found")
        return
    where = f"neutrinomass/{m.rel}:{cn.lineno} class {name}"
    gb, wb = ctx.p.mro(cn._qual)[1:], P.ref.p.mro(wn._qual)[1:]
    wb = [b for b in wb if b in P.cur_classes()]
    R.ob(f"{mod}.{name}:bases", [b for b in gb if b in wb] == wb, where, rule, f"inherits from {gb}, specified {wb}")
    ext = {ast.unparse(b).split(".")[-1] for b in wn.bases} - {b.split(".")[-1] for b in wb}
    got = {ast.unparse(b).split(".")[-1] for q in ctx.p.mro(cn._qual) for b in ctx.p.cls_node(q)[1].bases}
    if ext:
        R.ob(f"{mod}.{name}:library bases", ext <= got or None if not got else ext <= got, where, rule, f"library bases {sorted(ext - got)} are gone")
    from .program import deco_names
    for n in wn.body:
        if not isinstance(n, ast.FunctionDef):
            continue
        f = ctx.p.find_method(cn._qual, n.name)
        if f is None:
            R.ob(f"{mod}.{name}.{n.name}:present", False if n.name.startswith("__") else None, where, rule, f"method {n.name} is gone")
            continue
        a = {d for d in deco_names(f[2]) if d in KINDS}
        b = {d for d in deco_names(n) if d in KINDS}
        if b == {"property"} and a == {"cached_property"}:
            a = b
        ok = a == b
        R.ob(f"{mod}.{name}.{n.name}:kind", ok, f"neutrinomass/{f[1].rel}:{f[2].lineno} {name}.{n.name}", rule,
             f"{n.name} is {sorted(a) or 'a plain method'}, specified {sorted(b) or 'a plain method'}")
        if f[0].split(".")[-1] != name and (n.name.startswith("__")):
            # the class no longer defines the special method itself
            R.ob(f"{mod}.{name}.{n.name}:defined", None, where, rule, f"{n.name} is inherited from {f[0]}")
    wa = P.ref.p.class_attr_nodes(wn._qual)
    ga = {}
    for q in reversed(ctx.p.mro(cn._qual)):
        ga.update(ctx.p.class_attr_nodes(q))
    for k, node in wa.items():
        if k not in ga:
            R.ob(f"{mod}.{name}.{k}:class attribute", None, where, rule, "class attribute is gone")
            continue
        e1, e2 = ctx.evaluator(), P.ref.evaluator()
        v, why = same(e1.eval_global_expr(m, ga[k]), e2.eval_global_expr(w, node))
        R.ob(f"{mod}.{name}.{k}:class attribute", v, where, rule, "" if v is True else why)
    # special methods that appear only here change what the class does
    for n in cn.body:
        if isinstance(n, ast.FunctionDef) and n.name in ("__eq__", "__hash__", "__len__", "__bool__", "__iter__", "__getattr__", "__getattribute__", "__setattr__", "__lt__") \
                and P.ref.p.find_method(wn._qual, n.name) is None:
            R.ob(f"{mod}.{name}.{n.name}:new", None, f"neutrinomass/{m.rel}:{n.lineno}", rule, f"new special method {n.name}")
