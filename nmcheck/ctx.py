"""Rule-facing API: program access, summaries, specification terms, obligations."""
import ast
import json
import os
import textwrap
import time
import traceback

from .program import Program, AnalysisBroken, deco_names
from .evalir import Evaluator, local_names
from .terms import *
from .terms import Term, leaves
from .same import same, norm

HERE = os.path.dirname(os.path.abspath(__file__))


def load_vocab():
    with open(os.path.join(HERE, "vocab.txt"), encoding="utf-8") as fh:
        return {l.strip() for l in fh if l.strip()}


class Ctx:
    def __init__(self, root="/repo", tier="quick", program=None):
        self.root, self.tier = root, tier
        self.p = program or Program(root)
        self.vocab = load_vocab()
        self.functions_seen = set()
        self.calls_seen = 0

    def evaluator(self, inline=(), opaque=(), types=None, **kw):
        return Evaluator(self.p, self.vocab, inline=inline, opaque=opaque, types=types, **kw)

    def run(self, mod, qual, inline=(), opaque=(), types=None, args=None, cls=None, self_term=None, **kw):
        m, fn = self.p.function(mod, qual)
        if cls is None and getattr(fn, "_cls", None):
            cls = m.name + "." + fn._cls
        if cls and "." not in cls:
            cls = self.p.module(mod).name + "." + cls
        e = self.evaluator(inline, opaque, types, **kw)
        r = e.run(m, fn, args=args, cls=cls, self_term=self_term)
        r.mod, r.fn, r.ev = m, fn, e
        self.functions_seen.add(m.name + "." + qual)
        self.functions_seen.update(x.data["name"] for x in r.events if x.kind in ("enter", "getprop"))
        self.calls_seen += sum(1 for x in r.events if x.kind == "call")
        return r

    def spec(self, mod, src, inline=(), opaque=(), types=None, args=None, cls=None, **kw):
        """Term of a specification function written in Python, resolved in the
        name space of `mod`."""
        m = self.p.module(mod)
        tree = ast.parse(textwrap.dedent(src))
        fn = tree.body[0]
        for node in ast.walk(tree):
            for ch in ast.iter_child_nodes(node):
                ch._parent = node
        fn._qual = m.name + ".<spec>"
        if cls and "." not in cls:
            cls = m.name + "." + cls
        e = self.evaluator(inline, opaque, types, **kw)
        r = e.run(m, fn, args=args, cls=cls)
        r.ev = e
        return r

    def where(self, mod, qual):
        m, fn = self.p.function(mod, qual)
        return f"neutrinomass/{m.rel}:{fn.lineno} {qual}"

    def cls_where(self, mod, name):
        m = self.p.module(mod)
        n = m.classes.get(name)
        return f"neutrinomass/{m.rel}:{n.lineno if n else 0} {name}"

    def at(self, ev):
        return f"neutrinomass/{ev.mod.rel}:{getattr(ev.node, 'lineno', 0)} in {ev.fn.split('.')[-1]}"

    def src_modules(self, tests=False):
        return [m for m in self.p.modules.values() if tests or not m.rel.endswith("_test.py")]

    def class_fq(self, mod, name):
        return self.p.module(mod).name + "." + name

    # ------------------------------------------------ constructor summaries
    def init_attrs(self, cls_fq, inline=(), args=None):
        """attr -> term in the constructor's parameters, through super().__init__
        chains."""
        fm = self.p.find_method(cls_fq, "__init__")
        if fm is None:
            raise AnalysisBroken(f"no constructor for {cls_fq}")
        c, m, fn = fm
        e = self.evaluator(inline=inline)
        r = e.run(m, fn, cls=cls_fq, args=args)
        self.functions_seen.add(fn._qual)
        return r, m, fn


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.obs = []      # (key, verdict, where, rule, msg)
        self.errors = []
        self.notes = []

    def ob(self, key, verdict, where, rule, msg=""):
        self.obs.append((key, verdict, where, rule, msg))
        return verdict

    def same(self, key, got, want, where, rule, given=None, what=""):
        v, why = same(got, want, given)
        return self.ob(key, v, where, rule, (what + ": " if what else "") + why if v is not True else "")

    def guard(self, name, f, *a):
        """Run a rule part; a lost anchor is recorded as undecided."""
        try:
            f(*a)
        except AnalysisBroken as e:
            self.ob(f"{name}:anchor", None, "", name, f"anchor lost: {e}")
        except RecursionError as e:
            self.ob(f"{name}:anchor", None, "", name, "term too deep")
        except Exception as e:  # engine limitation: never an alarm
            self.errors.append(traceback.format_exc(limit=-4))
            self.ob(f"{name}:anchor", None, "", name, f"analysis gave up: {type(e).__name__}: {e}")

    def failed(self):
        return [o for o in self.obs if o[1] is False]

    def undecided(self):
        return [o for o in self.obs if o[1] is None]
