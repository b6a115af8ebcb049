"""Observable behaviour of one function as a comparable summary.

A summary has three parts: the returned value (one provenance term over the
parameters), the conditions under which the function raises, and the effects a
caller can see - items produced by a generator, writes to objects that existed
before the call, and calls made only for their effect.  Writes to objects the
function created itself show up in the returned value instead.

Two summaries are compared term by term with a case split over the branch
conditions; the order of independent effects, local names, helper functions,
loop spelling and messages are not part of a summary."""
import ast

from .terms import *
from .terms import Term, has_unknown, subterms, show, rewrite
from .same import same, norm, canon_bool, definite, dict_bases, dictify

SILENT = {"print", "debug", "info", "warning", "warn", "log", "flush", "tqdm", "fixture"}
# functions that exist to print
PRINTERS = {"Completion.info", "Field.pprint", "print_paper_table", "run_point"}
HOIST = {"call", "list", "tuple", "pair", "new", "item", "attr", "effect", "set", "dict", "concat", "str"}


class Obs:
    def __init__(self):
        self.value = None
        self.raises = {}     # exception name -> condition
        self.effects = {}    # key term -> (condition, event)


def exc_name(t):
    if t.op == "new":
        return t.args[0].split(".")[-1]
    if t.op == "ref":
        return "?"
    if t.op == "call":
        return exc_name(t.args[0])
    if t.op in ("cls", "builtin", "ext", "fn"):
        return t.args[0].split(".")[-1]
    if t.op == "phi":
        return exc_name(t.args[1]) + "|" + exc_name(t.args[2])
    return t.op


def find_phi(t, depth=0):
    if t.op == "phi":
        return t
    if t.op not in HOIST or depth > 6:
        return None
    return _find(t.args, depth)


def _find(a, depth):
    for x in a:
        if isinstance(x, Term):
            r = find_phi(x, depth + 1)
        elif isinstance(x, tuple):
            r = _find(x, depth)
        else:
            r = None
        if r is not None:
            return r
    return None


def replace_once(t, old, new):
    return rewrite(t, lambda x: new if x == old else x)


def split(gate, t, n=0):
    p = find_phi(t) if n < 5 else None
    if p is None:
        return [(gate, t)]
    c = p.args[0]
    return split(mk_and(gate, c), replace_once(t, p, p.args[1]), n + 1) + \
        split(mk_and(gate, mk_not(c)), replace_once(t, p, p.args[2]), n + 1)


def root_of(t):
    while t.op in ("attr", "item", "elem", "slot", "slice", "keyof", "valof", "copy", "as") and isinstance(t.args[0 if t.op not in ("copy", "as") else -1], Term):
        t = t.args[0 if t.op not in ("copy", "as") else -1]
    return t


def over(loops, cond):
    """the condition holds for some iteration"""
    its = [l[1] if l[0] == "for" else Term("whilec", l[1]) for l in loops]
    for it in reversed(its):
        cond = Term("exists", cond, (it,)) if not (cond.op == "const") else cond
    return cond


def observe(res, ev, program=None, silent=SILENT):
    o = Obs()
    o.value = res.value
    for x in res.outcomes:
        if x.kind == "raise":
            nm = exc_name(x.term)
            o.raises[nm] = mk_or(o.raises.get(nm, FALSE), mk_and(*x.gate))
    for e in res.events:
        g = mk_and(*e.gate)
        if e.kind == "assert":
            c = mk_and(g, mk_not(e.data["cond"]))
            if truth(c) is False:
                continue
            o.raises["AssertionError"] = mk_or(o.raises.get("AssertionError", FALSE), over(e.loops, c))
            continue
        key, more = None, []
        loops = tuple(("for", l[1]) if l[0] == "for" else ("while", l[1]) for l in e.loops)
        d = e.data
        if e.kind == "yield_from" and d["value"].op not in ("list", "tuple", "comp"):
            loops += (("for", d["value"]),)
        lt = Term("loops", tuple(Term(k, t) for k, t in loops))
        if e.kind in ("yield", "yield_from"):
            v = d["value"]
            if e.kind == "yield_from":
                v = Term("elem", v, 0)
            key = Term("effect", "yield", v)
        elif e.kind in ("setattr", "setitem", "delitem", "mutate", "grow"):
            raw = d["raw"]
            r = root_of(raw)
            if raw.op == "ref" or r.op == "ref":
                continue
            if r.op == "new" and (raw.op == "new" or raw.op == "attr"):
                continue
            base = d.get("base")
            if base is None:
                continue
            if e.kind == "setattr":
                key = Term("effect", "setattr", base, d["attr"], d["value"])
            elif e.kind == "setitem":
                key = Term("effect", "setitem", base, d["key"], d["value"])
            elif e.kind == "grow":
                key = Term("effect", "grow", base, d["key"], d["value"])
            elif e.kind == "delitem":
                key = Term("effect", "delitem", base, d["key"])
            else:
                args = tuple(d["args"])
                if d["method"] == "extend" and len(args) == 1 and args[0].op in ("list", "tuple") and not any(x.op == "star" for x in args[0].args[0]):
                    more = [Term("effect", "mutate", base, "append", Term("list", (x,))) for x in args[0].args[0]]
                elif d["method"] == "extend" and len(args) == 1 and args[0].op == "fix" and args[0].args[-1].op in ("list", "tuple"):
                    more = [Term("effect", "mutate", base, "append", Term("list", (Term("fix", *args[0].args[:-1], x),))) for x in args[0].args[-1].args[0]]
                    args = ()
                if d["method"] == "pop" and len(args) == 1 and isinstance(getattr(e.node, "_parent", None), ast.Expr):
                    key = Term("effect", "delitem", base, args[0])
                elif more:
                    key = more.pop(0)
                elif d["method"] == "extend" and args and args[0].op in ("list", "tuple") and not args[0].args[0]:
                    continue
                else:
                    key = Term("effect", "mutate", base, d["method"], Term("list", args))
        elif e.kind == "call":
            par = getattr(e.node, "_parent", None)
            if not isinstance(par, ast.Expr):
                continue
            t = d.get("term")
            if t is not None and d["name"] == "print" and "print" not in silent:
                t = Term("call", Term("builtin", "print"), tuple(d["args"]), ())
            if t is None or d["name"] in silent or d["name"] in MUT:
                continue
            key = Term("effect", "call", t)
        elif e.kind == "unhandled":
            key = Term("effect", "unknown", unknown("statement " + d["what"]))
        if key is None:
            continue
        whole = key.args[0] == "call" and key.args[1].op == "call" and key.args[1].args[0] == Term("builtin", "print")
        for gg, k in ([(g, key)] if whole else [z for q in (key, *more) for z in split(g, q)]):
            gg = canon_gate(gg)
            if truth(gg) is False:
                continue
            kk = Term("eff", norm(k), norm(lt))
            old = o.effects.get(kk)
            o.effects[kk] = (mk_or(old[0], gg) if old else gg, e)
    return o


MUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "add", "discard",
       "update", "setdefault", "popitem", "appendleft", "popleft"}


SEQUENTIAL = ("append", "extend", "insert", "appendleft", "extendleft")


def as_bool(c):
    return c if c.op == "const" else Term("phi", c, TRUE, FALSE)


def canon_gate(g):
    return g


def signature(ev, mod, fn):
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    dfl = {}
    for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        dfl[p] = d
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            dfl[p.arg] = d
    out = {}
    for k, d in dfl.items():
        try:
            out[k] = ev.eval_global_expr(mod, d)
        except Exception:
            out[k] = unknown("default")
    return pos, [x.arg for x in a.kwonlyargs], out


def compare_signature(g, w):
    gp, gk, gd = g
    wp, wk, wd = w
    out = []
    for k in wd:
        if k in gd:
            a, b = gd[k], wd[k]
            v = True if a == b else False if is_const(a) and is_const(b) else None if not (a.op == b.op) else same(a, b)[0]
            out.append((f"default of {k}", v, f"default of {k} is {show(a)}, expected {show(b)}", None))
        elif k in gp + gk:
            out.append((f"default of {k}", False, f"parameter {k} lost its default {show(wd[k])}", None))
    common = [p for p in gp if p in wp]
    if common != [p for p in wp if p in gp]:
        out.append(("parameter order", False, f"parameters are {gp}, expected {wp}", None))
    return out


def unify(got, want, records):
    """The two spelled alike where something said of a value in either tells how:
    a named tuple taken by position or by name, a collection tested as such or by
    its length."""
    tops = []
    for o in (got, want):
        tops += [t for t in (o.value, *o.raises.values()) if t is not None]
        for k, (g, _) in o.effects.items():
            tops += [k, g]
    subs, seen = [], set()
    for t in tops:
        for z in subterms(t):
            if id(z) not in seen:
                seen.add(id(z))
                subs.append(z)
    named = {z.args[0] for z in subs if z.op == "attr" and z.args[1] in records and records[z.args[1]][1]}
    placed = {z.args[0] for z in subs if z.op == "item" and is_const(z.args[1]) and type(cval(z.args[1])) is int}
    byname = {z.args[0] for z in subs if z.op == "attr" and z.args[1] in records}
    tuples = byname & (named | placed) if placed or named else set()
    sized = {z.args[0] for z in subs if z.op == "len"}
    sized = {z.args[0] for z in subs if z.op == "truthy"} & sized
    if not tuples and not sized:
        return got, want

    def f(x):
        if x.op == "attr" and x.args[1] in records and x.args[0] in tuples:
            return mk_item(x.args[0], K(records[x.args[1]][0]))
        if x.op == "truthy" and x.args[0] in sized:
            return mk_not(mk_eq(mk_len(x.args[0]), K(0)))
        return x
    memo = {}
    out = []
    for o in (got, want):
        n = Obs()
        n.value = rewrite(o.value, f, memo) if o.value is not None else None
        n.raises = {k: rewrite(v, f, memo) for k, v in o.raises.items()}
        for k, (g, e) in o.effects.items():
            k, g = rewrite(k, f, memo), rewrite(g, f, memo)
            n.effects[k] = (mk_or(n.effects[k][0], g) if k in n.effects else g, e)
        out.append(n)
    return out


def compare(got, want, ref_globals=None, records={}):
    """[(aspect, verdict, explanation, event or None)]"""
    out = []
    got, want = unify(got, want, records)
    if got.value is not None and want.value is not None:
        novalue = want.value.op == "unknown" and got.value.op == "unknown"
        if novalue:
            out.append(("returns", True, "", None))
        else:
            v, why = same(got.value, want.value)
            if v is not True and (got.raises or want.raises):
                # the value only matters when the call returns
                v, why = same(got.value, want.value, mk_not(mk_or(*got.raises.values(), *want.raises.values())))
            out.append(("returns", v, why, None))
    for nm in sorted(set(got.raises) | set(want.raises)):
        g, w = got.raises.get(nm, FALSE), want.raises.get(nm, FALSE)
        v, why = same(as_bool(g), as_bool(w))
        out.append((f"raises {nm}", v, why if v is not True else "", None))
    D = set()
    for o in (got, want):
        for k in o.effects:
            dict_bases(k, D)
    gk, wk = {}, {}
    for fx, o in ((gk, got), (wk, want)):
        for k, (g, e) in o.effects.items():
            k = norm(dictify(k, D))
            fx[k] = (mk_or(fx[k][0], g) if k in fx else g, e)
    for fx, other in ((gk, wk), (wk, gk)):
        for k in list(fx):
            # an effect of one side alone that no case reaches
            if k not in other and fx[k][0] != TRUE and not has_unknown(fx[k][0]) and same(as_bool(fx[k][0]), FALSE)[0] is True:
                del fx[k]
    # what is put into one collection keeps its order
    orders = [{}, {}]
    for i, fx in enumerate((gk, wk)):
        for k in fx:
            e = k.args[0]
            if e.args[0] == "mutate" and e.args[2] in SEQUENTIAL and k in gk and k in wk:
                orders[i].setdefault((e.args[1], k.args[1]), []).append(k)
    for b, ks in orders[0].items():
        if ks != orders[1].get(b):
            bad = next(x for x, y in zip(ks, orders[1][b]) if x != y)
            if not any(has_unknown(z) for z in ks):
                out.append(("effect mutate", False, f"{show(bad.args[0], 160)} happens in another order", gk[bad][1]))
    for k in list(wk):
        if k in gk:
            v, why = same(as_bool(gk[k][0]), as_bool(wk[k][0]))
            out.append((f"effect {k.args[0].args[0]}", v, (f"{show(k.args[0], 160)} happens under a different condition: " + why) if v is not True else "", gk[k][1]))
            del gk[k], wk[k]
    missing, extra = list(wk), list(gk)
    for k in list(missing):
        kind = k.args[0].args[0]
        cand = [x for x in extra if x.args[0].args[0] == kind]
        best = None
        for x in cand:
            v, why = same(Term("phi", gk[x][0], x, NONE), Term("phi", wk[k][0], k, NONE))
            if v is True:
                best = (x, v, why)
                break
            if best is None or (v is False and best[1] is None):
                best = (x, v, why)
        if best is not None:
            x, v, why = best
            extra.remove(x)
            missing.remove(k)
            out.append((f"effect {kind}", v, why, gk[x][1]))
    def made_here(e):
        return e.args[0] in ("setitem", "mutate", "delitem", "grow") and not shared(root_of(e.args[1]))

    def shared(r):
        return r.op == "global" or r.op == "sym" and not str(r.args[0]).startswith("_")
    follow = any(a == "returns" and v is True for a, v, _, _ in out)
    if any(made_here(k.args[0]) for k in missing):
        # what is made here is filled in another way
        out = [(a, None, w + " (after changes to what is made here)", x) if v is False and (a == "returns" or a.split()[1:] and a.split()[1] in ("setitem", "mutate", "grow")) else (a, v, w, x)
               for a, v, w, x in out]
    for k in missing:
        e = k.args[0]
        if made_here(e) and not follow:
            out.append((f"effect {e.args[0]}", None, "done in another way? " + show(e, 200), None))
        elif has_unknown(e) or any(has_unknown(x) for x in gk):
            out.append((f"effect {e.args[0]}", None, "missing? " + show(e, 200), None))
        else:
            out.append((f"effect {e.args[0]}", False, f"no longer done: {show(e, 240)}", None))
    for k in extra:
        e = k.args[0]
        v = False
        if has_unknown(e) or has_unknown(gk[k][0]):
            v = None
        if e.args[0] == "call":
            c = e.args[1].args[0] if e.args[1].op == "call" else None
            if c is None or c.op in ("ext", "builtin", "apply") or (c.op == "method"):
                v = None
        if e.args[0] in ("setattr", "setitem", "mutate", "grow", "delitem"):
            r = root_of(e.args[1])
            if r.op == "global" and ref_globals is not None and r.args[0] not in ref_globals:
                v = None
            if r.op not in ("sym", "global"):
                v = None
            if e.args[0] == "setattr" and isinstance(e.args[2], str) and e.args[2].startswith("_") and not e.args[2].endswith("_"):
                v = None
        out.append((f"effect {e.args[0]}", v, f"new effect: {show(e, 240)}", gk[k][1]))
        if e.args[0] in ("setitem", "mutate", "delitem") and root_of(e.args[1]).op not in ("sym", "global"):
            # a part of something made here is changed under another name: what is made is not followed any further
            out = [(a, None if b is False and a == "returns" else b, ("after a change through another name: " if b is False and a == "returns" else "") + w, x) for a, b, w, x in out]
    return out
