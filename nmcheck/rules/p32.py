r"""P32 the table of LaTeX strings agrees with the operators."""
import ast

from .facts import *

EXPLAIN = ("Every LaTeX string of the operator table is parsed to fields and epsilon contractions and compared with the catalogued operator of its label; "
           "every label of the table has an operator and every operator a row.")

MOD = "database.operators"


class Bad(Exception):
    pass


def rows_of(tree):
    """label -> (line, LaTeX) of every pair of a literal label and a literal formula"""
    out = {}

    def put(k, v):
        if isinstance(k, ast.Constant) and isinstance(k.value, str) and isinstance(v, ast.Constant) and isinstance(v.value, str) and v.value.strip().startswith("$"):
            out.setdefault(k.value, []).append((k.lineno, v.value))
    for n in ast.walk(tree):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            put(n.targets[0].slice, n.value)
        elif isinstance(n, ast.Dict):
            for k, v in zip(n.keys, n.values):
                put(k, v)
        elif isinstance(n, (ast.Tuple, ast.List)) and len(n.elts) == 2:
            put(*n.elts)
    return out


def brace(s_, i):
    if i >= len(s_):
        raise Bad("formula ends early")
    if s_[i] != "{":
        return s_[i], i + 1
    d = 0
    for j in range(i, len(s_)):
        d += s_[j] == "{"
        d -= s_[j] == "}"
        if d == 0:
            return s_[i + 1:j], j + 1
    raise Bad("unbalanced braces")


def base(x):
    x = x.strip()
    while x.startswith("{") and brace(x, 0)[1] == len(x):
        x = x[1:-1].strip()
    m = re.fullmatch(r"\\bar\{([eud])\}(\^\{\\dagger\}|\^\\dagger)?", x)
    if m:
        return m.group(1) + "b", bool(m.group(2))
    m = re.fullmatch(r"\\tilde\{([LQH])\}", x)
    if m:
        return m.group(1), True
    if x in ("L", "Q", "H"):
        return x, False
    raise Bad(f"unknown field {x}")


def parse(text):
    """([(field, conj, derivatives, index)], [epsilon pair], [label of an operator factor])"""
    s_ = text.strip().strip("$")
    i, n = 0, len(s_)
    fs, eps, subs = [], [], []
    while i < n:
        if s_[i].isspace():
            i += 1
            continue
        if s_.startswith(r"\cdot", i):
            i += 5
            continue
        if s_.startswith(r"\epsilon_", i):
            b, i = brace(s_, i + 9)
            eps.append(tuple(b.split() if " " in b.strip() else list(b.strip())))
            continue
        if s_.startswith(r"\mathcal{O}_", i):
            b, i = brace(s_, i + 12)
            subs.append(b)
            continue
        d = 0
        if s_[i] == "(":
            j = s_.find(")", i)
            m = re.match(r"D(?:\^\{(\d)\}|\^(\d))?\s*", s_[i + 1:j])
            if j < 0 or m is None:
                raise Bad(s_[i:i + 20])
            d = int(m.group(1) or m.group(2) or 1)
            nm = base(s_[i + 1:j][m.end():])
            i = j + 1
        elif s_[i] in "LQH":
            nm, i = (s_[i], False), i + 1
        elif s_.startswith(r"\tilde", i):
            b, i = brace(s_, i + 6)
            nm = (b, True)
        elif s_.startswith(r"\bar", i):
            b, i = brace(s_, i + 4)
            m = re.match(r"\^(\{\\dagger\}|\\dagger)", s_[i:])
            i += m.end() if m else 0
            nm = (b + "b", bool(m))
        elif s_[i] == "{":
            b, i = brace(s_, i)
            nm = base(b)
        else:
            raise Bad(f"unexpected {s_[i:i + 15]}")
        ix = None
        if i < n and s_[i] == "^":
            ix, i = brace(s_, i + 1)
        fs.append((nm[0], nm[1], d, ix))
    return fs, eps, subs


def signature(label, tab, depth=0):
    """(contracted kinds, field content) a formula stands for"""
    if label not in tab or depth > 4:
        raise Bad(f"factor {label} is not in the table")
    fs, eps, subs = parse(tab[label][0][1])
    own = {}
    for f in fs:
        if f[3] is not None:
            if f[3] in own:
                raise Bad(f"index {f[3]} is on two fields")
            own[f[3]] = f[0] + (".conj" if f[1] else "") + "D" * f[2]
        elif f[0] in ("L", "Q", "H"):
            raise Bad(f"{f[0]} carries no index")
    out, used = [], []
    for e in eps:
        if len(e) != 2 or any(x not in own for x in e):
            raise Bad(f"epsilon {e} has an index of no field")
        out.append(tuple(sorted(own[x] for x in e)))
        used += e
    if sorted(used) != sorted(own):
        raise Bad(f"indices {sorted(set(own) - set(used))} are not contracted" if set(own) - set(used) else "an index is contracted twice")
    cont = [(f[0] + (".conj" if f[1] else ""), f[2]) for f in fs]
    for x in subs:
        o, c = signature(x, tab, depth + 1)
        out += o
        cont += c
    return sorted(out), sorted(cont)


def operator_signature(fs, ts):
    own = {i: f.key() + "D" * f.derivs for f in fs for i in f.indices}
    out = [tuple(sorted(own.get(i[1:] if i[0] == "-" else "-" + i, "?") for i in e)) for e in ts if {i.lstrip("-")[0] for i in e} == {"i"}]
    return sorted(out), sorted((f.key(), f.derivs) for f in fs)


def catalogue(ctx):
    """label -> (fields, tensors), as far as the tables fold; and the labels known"""
    sm = sm_fields(ctx)
    st = read_pickle(data_path(ctx, "completions/operators.p"))
    dv = read_pickle(data_path(ctx, "completions/deriv_operators.p"))
    out = {k: stored_operator(op) for k, op in st.items()}
    vals = values(ctx, "completions.operators")
    tab = vals.get("EFF_OPERATORS")
    for e in (tab.args[0] if tab is not None and tab.op == "dictcat" else ()):
        if e.op == "pair" and is_const(e.args[0]) and e.args[1].op == "new":
            op = dict(e.args[1].args[1]).get("operator")
            got = None
            if op is not None and op.op == "call":
                lst = dict(op.args[2]).get("lst") or (op.args[1][0] if op.args[1] else None)
                got = written_operator(lst, sm, st) if lst is not None else None
            out[cval(e.args[0])] = got
    for k, op in dv.items():
        # the loader leaves these out
        if k in ("D1", "D11") or k.startswith("D19"):
            continue
        out[k] = stored_operator(op)
    return out


def names(sig):
    return " ".join(a + "-" + b for a, b in sig[0]) + " of " + " ".join(n + (f"(D{d})" if d else "") for n, d in sig[1])


def table(ctx, R):
    m = ctx.p.module(MOD)
    tab = rows_of(m.tree)
    w0 = f"neutrinomass/{m.rel} print_paper_table"
    if len(tab) < 10:
        R.ob("table:found", None, w0, "latex-table", "no table of formulas recognised")
        return
    cat = catalogue(ctx)
    for k, rows in tab.items():
        w = f"neutrinomass/{m.rel}:{rows[0][0]} {k}"
        R.ob(f"latex.{k}:once", len({t for _, t in rows}) == 1, w, "latex-table", f"{len(rows)} formulas for operator {k}")
        if k not in cat:
            R.ob(f"latex.{k}:operator", False, w, "latex-table", f"{k} is in neither catalogue: its row shows the numbers of the previous operator")
        if k not in cat or cat[k] is None:
            try:
                signature(k, tab)
            except Bad as e:
                R.ob(f"latex.{k}:formula", False, w, "latex-formula", str(e))
            continue
        want = operator_signature(*cat[k])
        try:
            got = signature(k, tab)
        except Bad as e:
            R.ob(f"latex.{k}:formula", False, w, "latex-formula", str(e))
            continue
        R.ob(f"latex.{k}:formula", got == want, w, "latex-formula", f"formula {names(got)}, operator {names(want)}")
    for k in cat:
        if k not in tab:
            R.ob(f"latex.{k}:row", False, w0, "latex-table", f"operator {k} has no row")


PARTS = [("operator table", table)]
