"""Arithmetic on the folded tables of the program: Standard Model fields, packaged
pickles (decoded by a reader that builds inert records and runs none of the
program), operators written in code."""
import os
import pickle
import re
from fractions import Fraction

from .common import *
from ..refcheck import pair, module_values, constants_of

SM = PK + "tensormethod.sm."


def values(ctx, mod):
    return module_values(ctx, mod, pair(ctx))[0]


def number(t):
    t = norm(t)
    return Fraction(cval(t)) if is_const(t) and t.args[0] == "num" else None


class SMField:
    def __init__(self, name, dynkin, y, b, comm, nf, label, latex):
        self.name, self.dynkin, self.y, self.b, self.comm, self.nf, self.label, self.latex = name, dynkin, y, b, comm, nf, label, latex


LEPTON = {"L": 1, "eb": -1}


def sm_fields(ctx):
    """name -> SMField for every field the sm module defines with folded data"""
    vals = values(ctx, "tensormethod.sm")
    core = values(ctx, "tensormethod.core")
    out = {}
    for n, t in vals.items():
        if t.op != "new" or not t.args[0].endswith(".Field"):
            continue
        a = dict(t.args[1])
        if is_const(a.get("label", NONE)) and cval(a["label"]) != n and vals.get(cval(a["label"])) == t:
            continue  # a second name of the same field, like a loop variable
        dyn = a.get("dynkin")
        ch = a.get("charges", NONE)
        y, b = Fraction(0), None
        if ch != NONE:
            m = dictmap(ch)
            if m is None:
                out[n] = None
                continue
            y = number(m.get(K("y"), K(0)))
            b = number(m[K("3b")]) if K("3b") in m else None
        comm = a.get("comm", NONE)
        if comm.op == "global" and comm.args[0].split(".")[-1] in core:
            comm = core[comm.args[0].split(".")[-1]]
        comm = norm(comm)
        nf = number(a.get("nf", K(1)))
        if not is_const(dyn) or y is None:
            out[n] = None
            continue
        out[n] = SMField(n, str(cval(dyn)), y, b, cval(comm) if is_const(comm) else None, nf,
                         cval(a["label"]) if is_const(a.get("label", NONE)) else None,
                         cval(a["latex"]) if is_const(a.get("latex", NONE)) else None)
    return out


# ------------------------------------------------------------------- pickles
class Inert:
    """Stand-in for any class a pickle mentions: keeps its arguments only."""
    def __init__(self, *a, **k):
        self.a = a

    def __setstate__(self, s):
        pass


KNOWN = {"Half": Fraction(1, 2), "NegativeOne": Fraction(-1), "One": Fraction(1), "Zero": Fraction(0)}


class Reader(pickle.Unpickler):
    def find_class(self, module, name):
        return type(name, (Inert,), {"__module__": "inert"})


def plain(x):
    if isinstance(x, Inert):
        n = type(x).__name__
        if n in KNOWN:
            return KNOWN[n]
        if n in ("Rational", "Integer", "Fraction") and all(isinstance(i, int) for i in x.a):
            return Fraction(*x.a)
        return x
    if isinstance(x, dict):
        return {plain(k): plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(v) for v in x]
    if isinstance(x, tuple):
        return tuple(plain(v) for v in x)
    return x


def read_pickle(path):
    with open(path, "rb") as fh:
        return plain(Reader(fh).load())


def data_path(ctx, rel):
    return os.path.join(ctx.root, "neutrinomass", rel)


def opened_files(ctx):
    """[(module, function or None, line, path)] of the literal files opened
    relative to the directory of the module, path relative to the package; path
    None for an open of something else than a parameter"""
    import ast
    out = []
    for m in ctx.src_modules():
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "open" and n.args):
                continue
            a = n.args[0]
            out.append((m, n, a))
    return out


# ----------------------------------------------------------------- operators
class F:
    """one indexed field of an operator"""
    def __init__(self, name, conj, y, b, indices, derivs=0):
        self.name, self.conj, self.y, self.b, self.indices, self.derivs = name, conj, y, b, indices, derivs

    def lepton(self):
        return LEPTON.get(self.name, 0) * (-1 if self.conj else 1)

    def key(self):
        return self.name + (".conj" if self.conj else "")


def stored_operator(op):
    """(fields, tensors) of the pickled form"""
    fs = []
    for f in op["fields"]:
        lab = f["label"].rstrip("†")
        d = f.get("derivs") or 0
        if f.get("stripped"):
            lab = f["stripped"]["label"].rstrip("†")
        fs.append(F(lab, bool(f["is_conj"]), Fraction(f["charges"]["y"]), Fraction(f["charges"].get("3b", 0)), f["indices"].split(), d))
    return fs, [list(e) for e in op["epsilons"]]


def accounting(fields, tensors):
    """problems of an operator: [(aspect, text)]"""
    bad = []
    y = sum(f.y for f in fields)
    b = sum(f.b for f in fields)
    l = sum(f.lepton() for f in fields)
    if y:
        bad.append(("hypercharge", f"hypercharges sum to {y}"))
    if b:
        bad.append(("baryon number", f"three times the baryon numbers sum to {b}"))
    if l != 2:
        bad.append(("lepton number", f"lepton number is {l}"))
    dim = sum((Fraction(1) if f.name == "H" else 2 if f.name in ("G", "Gb", "W", "Wb", "B", "Bb") else Fraction(3, 2)) + f.derivs for f in fields)
    if dim.denominator != 1 or dim % 2 == 0:
        bad.append(("mass dimension", f"mass dimension is {dim}"))
    seen = {}
    for f in fields:
        for i in f.indices:
            seen.setdefault(i, []).append(f.name)
    rep = [i for i, w in seen.items() if len(w) > 1]
    if rep:
        bad.append(("repeated index", f"index {rep} occurs on several fields"))
    used = {}
    for e in tensors:
        kinds = {i.lstrip("-")[0] for i in e}
        if len(kinds) != 1:
            bad.append(("tensor", f"tensor {e} mixes kinds of indices"))
        for i in e:
            used.setdefault(i[1:] if i.startswith("-") else "-" + i, []).append(e)
    for i, w in used.items():
        if len(w) > 1 or i not in seen:
            bad.append(("contraction", f"index {i} of {w[0]} " + ("occurs in several tensors" if len(w) > 1 else "is on no field")))
    left = [i for i in seen if i not in used]
    iso = [i for i in left if i.lstrip("-")[0] == "i"]
    if iso:
        bad.append(("isospin", f"isospin indices {iso} are not contracted"))
    col = [i for i in left if i.lstrip("-")[0] == "c"]
    if (sum(-1 if i.startswith("-") else 1 for i in col)) % 3:
        bad.append(("colour", f"open colour indices {col} admit no singlet"))
    for k, nm in (("u", "undotted"), ("d", "dotted")):
        n = len([i for i in left if i.lstrip("-")[0] == k])
        if n % 2:
            bad.append(("Lorentz", f"{n} {nm} indices admit no singlet"))
    return bad


def indexed_call(t, sm):
    """F of sm.X('indices') / sm.X.conj('indices')"""
    if t.op != "call":
        return None
    h, args = t.args[0], t.args[1]
    base, idx, conj = None, None, False
    if h.op == "apply" and len(args) == 1:
        base, idx = h.args[0], args[0]
        if base.op == "attr" and base.args[1] == "conj":
            base, conj = base.args[0], True
    elif h.op == "method" and h.args[0] == "conj" and len(args) == 2:
        base, idx, conj = args[0], args[1], True
    if base is None or base.op != "global" or not base.args[0].startswith(SM) or not is_const(idx):
        return None
    f = sm.get(base.args[0][len(SM):])
    if f is None:
        return None
    sg = -1 if conj else 1
    return F(f.name, conj, sg * f.y, sg * (f.b or 0), str(cval(idx)).split())


def tensor_call(t):
    if t.op == "call" and t.args[0].op == "fn" and t.args[0].args[0] in (CORE + "eps", CORE + "delta"):
        a = dict(t.args[2]).get("indices") or (t.args[1][0] if t.args[1] else None)
        if a is not None and is_const(a):
            return str(cval(a)).split()
    return None


def written_operator(t, sm, stored):
    """(fields, tensors) of an operator built in code from fields, tensors and
    the tensors of stored operators; None when the form is not recognised"""
    t = norm(t)
    parts = t.args[0] if t.op == "seqcat" else (t,)
    fs, ts = [], []
    for p in parts:
        if p.op in ("list", "tuple"):
            for e in p.args[0]:
                f = indexed_call(e, sm)
                if f is not None:
                    fs.append(f)
                    continue
                x = tensor_call(e)
                if x is None:
                    return None
                ts.append(x)
            continue
        k = stored_key(p)
        if k is None or k not in stored:
            return None
        f0, t0 = stored_operator(stored[k])
        fs += f0
        ts += t0
    return fs, ts


def stored_key(t):
    """key of EFF_OPERATORS[key].operator.tensors"""
    if t.op != "attr" or t.args[1] != "tensors":
        return None
    t = t.args[0]
    if t.op == "call" and t.args[0] == Term("method", "from_pickle_form"):
        # the stored form itself, read back
        args = [a for a in t.args[1] if a.op != "cls"] + [v for _, v in t.args[2]]
        if len(args) != 1:
            return None
        t = args[0]
    elif t.op == "attr" and t.args[1] == "operator":
        t = t.args[0]
    else:
        return None
    if t.op == "item" and is_const(t.args[1]):
        return cval(t.args[1])
    return None
