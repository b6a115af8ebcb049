"""P14 closure rules conserve charges."""
import ast

from .facts import *

EXPLAIN = ("The rewriting rules and component tables of database/closures are folded to constants; electric charge, baryon number, lepton number and the parity of "
           "isospin doublets are summed on both sides of every rule with charges computed from the Standard Model field table.")

MOD = "database.closures"
CONSTS = {"v": 1, "nunu": 0, "ye": 0, "yu": 0, "yd": 0, "g2": 0, "loop": 0, "loopv2": 0}


def sym_name(t):
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0].split(".")[-1] == "Symbol" and t.args[1] and is_const(t.args[1][0]):
        return str(cval(t.args[1][0]))
    return None


def op_name(t):
    """name of the matchpy operation an application uses"""
    if t.op == "call" and t.args[0].op == "apply":
        h = t.args[0].args[0]
        if h.op == "call" and h.args[0].op == "ext" and h.args[0].args[0].endswith("Operation.new") and h.args[1] and is_const(h.args[1][0]):
            return str(cval(h.args[1][0]))
    return None


def component_charges(sm):
    """symbol -> (charge, 3B, L, doublet)"""
    comp = {"nu": ("L", 0), "e": ("L", 1), "u": ("Q", 0), "d": ("Q", 1), "hp": ("H", 0), "h0": ("H", 1), "eb": ("eb", None), "ub": ("ub", None), "db": ("db", None)}
    out = {}
    for s_, (f, i) in comp.items():
        x = sm[f]
        t3 = 0 if i is None else Fraction(1, 2) - i
        out[s_] = (x.y + t3, x.b or 0, LEPTON.get(f, 0), 0 if i is None else 1)
    out["W"] = (Fraction(-1), 0, 0, 0)
    return out


class Form(Exception):
    pass


def side(t, ch):
    """(sums, constants, rests) of Op(...)"""
    if op_name(t) != "Op":
        raise Form(show(t, 100))
    tot = [Fraction(0), Fraction(0), 0, 0]
    consts, rests, fields = [], 0, []
    for a in t.args[1]:
        if a.op == "call" and a.args[0].op == "ext" and ".Wildcard" in a.args[0].args[0]:
            rests += 1
            continue
        n = op_name(a)
        if n == "Const":
            c = sym_name(a.args[1][0])
            if c is None:
                raise Form(show(a, 80))
            consts.append(c)
            tot[3] += CONSTS.get(c, 0)
            if c == "nunu":
                tot[2] += 2
            continue
        sg = 1
        if n == "c":
            sg, a = -1, a.args[1][0]
        s_ = sym_name(a)
        if s_ not in ch:
            raise Form(show(a, 80))
        q, b, l, d = ch[s_]
        tot[0] += sg * q
        tot[1] += sg * b
        tot[2] += sg * l
        tot[3] += d
        fields.append(("c" if sg < 0 else "") + s_)
    return tot, consts, rests, fields


def rules(ctx, R):
    sm = sm_fields(ctx)
    if any(sm.get(x) is None for x in ("L", "Q", "H", "eb", "ub", "db")):
        R.ob("rules:fields", None, "", "closure-charges", "Standard Model fields are not constants")
        return
    ch = component_charges(sm)
    vals = values(ctx, MOD)
    m = ctx.p.module(MOD)
    w = f"neutrinomass/{m.rel} RULES"
    tab = dictmap(constants_of(ctx, vals.get("RULES", NONE), pair(ctx)))
    if tab is None:
        R.ob("RULES:folded", None, w, "closure-charges", "table of rules is not constant")
        return
    made = set()
    seen = {}
    for k, v in tab.items():
        try:
            l, lc, lr, lf = side(k, ch)
            r, rc, rr, rf = side(v, ch)
        except Form as e:
            R.ob("RULES:rule", None, w, "closure-charges", f"rule not recognised: {e}")
            continue
        name = " ".join(sorted(lf))
        ww = f"{w} {name}"
        made |= set(rc)
        key = tuple(sorted(lf))
        R.ob(f"RULES[{name}]:once", key not in seen, ww, "closure-charges", "two rules for the same fields")
        seen[key] = 1
        R.ob(f"RULES[{name}]:rest", lr == rr == 1 and not lc, ww, "closure-rest", "the fields not matched are lost or repeated")
        for i, nm in enumerate(("electric charge", "three times the baryon number", "lepton number")):
            R.ob(f"RULES[{name}]:{nm.split()[-2] if i == 1 else nm.split()[0]}", l[i] == r[i], ww, "closure-charges", f"{nm} changes from {l[i]} to {r[i]}: {name} -> {' '.join(rf) or 'constants'}")
        R.ob(f"RULES[{name}]:vevs", (l[3] - r[3]) % 2 == 0, ww, "closure-vevs", f"{l[3]} doublets become {r[3]} doublets and vevs: the number of vevs becomes odd")
        # at the latest with a rule for the remaining field the expression is a number
    for s_ in ch:
        R.ob(f"RULES:{s_}", None if not seen else any(s_ in k or "c" + s_ in k for k in seen), w, "closure-complete", f"no rule removes {s_}")
    unknown = made - set(CONSTS)
    R.ob("RULES:constants", not unknown, w, "closure-constants", f"constants {sorted(unknown)} have no meaning")
    R.ob("RULES:neutrinos", "nunu" in made, w, "closure-constants", "no rule ends in two neutrinos")
    for q in ("numerical_np_scale_estimate", "numerical_mv"):
        fn = m.functions.get(q) if hasattr(m, "functions") else None
        node = fn.node if fn is not None and hasattr(fn, "node") else next((n for n in m.tree.body if isinstance(n, ast.FunctionDef) and n.name == q), None)
        if node is None:
            R.ob(f"{q}:constants", None, w, "closure-constants", "function not found")
            continue
        strs = {n.value for x in m.tree.body if x is node or not isinstance(x, ast.FunctionDef) and not (isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id == "RULES" for y in x.targets))
                for n in ast.walk(x) if isinstance(n, ast.Constant) and isinstance(n.value, str) and x is node}
        calls = {n.func.id for n in ast.walk(node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)}
        names = {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}
        for x in m.tree.body:
            if isinstance(x, ast.FunctionDef) and x.name in calls or isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id in names for y in x.targets):
                strs |= {n.value for n in ast.walk(x) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
        lost = made - {"nunu"} - strs
        R.ob(f"{q}:constants", not lost, f"neutrinomass/{m.rel}:{node.lineno} {q}", "closure-constants", f"constants {sorted(lost)} are not given a number")


def components(ctx, R):
    """component i of a doublet has third isospin component 1/2 - i"""
    sm = sm_fields(ctx)
    if any(sm.get(x) is None for x in ("L", "Q", "H")):
        return
    ch = component_charges(sm)
    vals = values(ctx, MOD)
    m = ctx.p.module(MOD)
    for f in ("L", "Q", "H"):
        for cj in (False, True):
            n = f.lower() + ("c" if cj else "")
            w = f"neutrinomass/{m.rel} {n}"
            t = norm(vals[n]) if n in vals else None
            if t is None or t.op not in ("list", "tuple") or len(t.args[0]) != 2:
                R.ob(f"{n}:components", None, w, "components", "not a list of two components")
                continue
            for i, e in enumerate(t.args[0]):
                s_ = sym_name(e)
                if s_ not in ch:
                    R.ob(f"{n}[{i}]:component", None, w, "components", show(e, 60))
                    continue
                q = ch[s_][0] * (-1 if cj else 1)
                want = sm[f].y * (-1 if cj else 1) + Fraction(1, 2) - i
                same_kind = (ch[s_][1], ch[s_][2]) == (sm[f].b or 0, LEPTON.get(f, 0))
                R.ob(f"{n}[{i}]:component", q == want and same_kind, w, "components", f"component {i} of {f}{' conjugated' if cj else ''} is {s_} with charge {q}, expected {want}")
    e = norm(vals["eps"]) if "eps" in vals else None
    rows = None
    if e is not None and e.op in ("list", "tuple"):
        rows = [[number(x) for x in r.args[0]] if r.op in ("list", "tuple") else None for r in e.args[0]]
    w = f"neutrinomass/{m.rel} eps"
    ok = None if rows is None or any(r is None for r in rows) else (len(rows) == 2 and all(len(r) == 2 for r in rows) and rows[0][0] == rows[1][1] == 0 and rows[0][1] == -rows[1][0] and abs(rows[0][1] or 0) == 1)
    R.ob("eps:antisymmetric", ok, w, "components", f"epsilon is {rows}")


PARTS = [("closure rules", rules), ("components", components)]
