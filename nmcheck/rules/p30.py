"""P30 one-loop tables."""
from .facts import *
from ..behave import observe

EXPLAIN = ("The rows of the one-loop tables are folded to kind, colour, isospin and hypercharge of each field; every vertex of the loop is checked for charge conservation, "
           "and the isospin tables and generated hypercharges are compared with an enumeration.")

MOD = "database.heavyloops"
TABLES = {"tbl_2_1": ("tbl_2_su2_reps", 4), "tbl_2_2": ("tbl_2_su2_reps", 4), "tbl_2_3": ("tbl_2_su2_reps", 4), "tbl_3_1": ("tbl_3_su2_reps", 3)}


class Form(Exception):
    pass


def text_parts(t):
    """flat list of text and expression parts of a formatted string"""
    if is_const(t) and t.args[0] == "str":
        return [cval(t)]
    if t.op in ("concat", "fmt", "fstr", "str*"):
        out = []
        for x in t.args[0]:
            out += text_parts(x)
        return out
    if t.op == "str":
        return [t.args[0]]
    if t.op == "add" and len(t.args) == 2:
        return text_parts(t.args[0]) + text_parts(t.args[1])
    raise Form(show(t, 80))


def linear(t, syms):
    """(constant, {symbol: coefficient})"""
    if is_const(t) and t.args[0] == "num":
        return Fraction(cval(t)), {}
    if t in syms:
        return Fraction(0), {syms[t]: Fraction(1)}
    if t.op == "neg":
        c, d = linear(t.args[0], syms)
        return -c, {k: -v for k, v in d.items()}
    if t.op in ("add", "sub"):
        c, d = linear(t.args[0], syms)
        e, f = linear(t.args[1], syms)
        s_ = 1 if t.op == "add" else -1
        out = dict(d)
        for k, v in f.items():
            out[k] = out.get(k, 0) + s_ * v
        return c + s_ * e, {k: v for k, v in out.items() if v}
    if t.op == "add*":
        c, d = Fraction(0), {}
        for x in t.args[0]:
            e, f = linear(x, syms)
            c += e
            for k, v in f.items():
                d[k] = d.get(k, 0) + v
        return c, {k: v for k, v in d.items() if v}
    raise Form(show(t, 80))


def field(t, pi, pa):
    parts = text_parts(t)
    cells, cur = [], []
    for p in parts:
        if isinstance(p, str):
            bits = p.split(",")
            cur.append(bits[0]) if bits[0] else None
            for b in bits[1:]:
                cells.append(cur)
                cur = [b] if b else []
        else:
            cur.append(p)
    cells.append(cur)
    if len(cells) != 4 or any(len(c) != 1 for c in cells):
        raise Form(show(t, 100))
    k, c, i, y = (x[0] for x in cells)
    syms = {pa: "a"}
    for n in range(6):
        syms[Term("item", pi, K(n))] = n
    iso = linear(i, syms) if not isinstance(i, str) else (Fraction(i), {})
    hyp = linear(y, syms) if not isinstance(y, str) else (Fraction(y), {})
    return k, c, iso, hyp


def conj_colour(c):
    return c[::-1]


def tables(ctx, R):
    vals = values(ctx, MOD)
    m = ctx.p.module(MOD)
    reps = {}
    for n in ("tbl_2_su2_reps", "tbl_3_su2_reps"):
        t = norm(vals[n]) if n in vals else None
        w = f"neutrinomass/{m.rel} {n}"
        rows = None
        if t is not None and t.op in ("list", "tuple"):
            rows = [tuple(number(x) for x in r.args[0]) if r.op in ("list", "tuple") else None for r in t.args[0]]
        if rows is None or any(r is None or None in r for r in rows):
            R.ob(f"{n}:folded", None, w, "isospin-table", "not a table of numbers")
            continue
        reps[n] = rows
        size = 4 if "_2_" in n else 3
        top = int(max(max(r) for r in rows))
        want = set()

        def walk(r):
            if len(r) == size:
                if size == 4 and abs(r[-1] - r[0]) == 1:
                    want.add(r)
                return
            for d in (-1, 1):
                if 1 <= r[-1] + d <= top:
                    walk(r + (r[-1] + d,))
        if size == 4:
            for a in range(1, top + 1):
                walk((a,))
        else:
            # 0 and 1 couple to the same doublet fermion, and to two Higgs doublets in the triplet
            want = {(x, y, z) for z in range(1, top + 1) for x in (z - 1, z + 1) for y in (z - 1, z + 1)
                    if 1 <= x <= top and 1 <= y <= top and (x, y) != (1, 1)}
        bad = [r for r in rows if r not in want]
        miss = sorted(want - set(rows))
        for r in bad:
            R.ob(f"{n}{[int(x) for x in r]}:couples", False, w, "isospin-table", f"isospins {[int(x) for x in r]} do not couple by doublets")
        R.ob(f"{n}:complete", not miss, w, "isospin-table", f"{[[int(y) for y in x] for x in miss[:3]]} missing")
        R.ob(f"{n}:range", top >= 5, w, "isospin-table", f"isospins only up to {top}")
    for fn, (rep, size) in TABLES.items():
        w = ctx.where(MOD, fn)
        try:
            res = ctx.run(MOD, fn)
            o = observe(res, res.ev)
        except Exception as e:
            R.ob(f"{fn}:folded", None, w, "one-loop-row", f"{type(e).__name__}: {e}")
            continue
        ps = [a.arg for a in ctx.p.functions[PK + MOD + "." + fn].node.args.args] if hasattr(ctx.p, "functions") and PK + MOD + "." + fn in ctx.p.functions else ["i", "a"]
        pi, pa = sym(ps[0]), sym(ps[1])
        t = o.value
        if t is None or t.op not in ("list", "tuple"):
            R.ob(f"{fn}:folded", None, w, "one-loop-row", "not a list of rows")
            continue
        cols = []
        for row in t.args[0]:
            try:
                if row.op not in ("tuple", "list"):
                    raise Form(show(row, 80))
                fs = [field(x, pi, pa) for x in row.args[0]]
            except Form as e:
                R.ob(f"{fn}:row", None, w, "one-loop-row", f"row not recognised: {e}")
                continue
            c0 = fs[0][1]
            key = f"{fn}[{c0}]"
            cols.append(c0)
            n = len(fs)
            R.ob(f"{key}:size", n == size, w, "one-loop-row", f"{n} fields in a diagram of {size}")
            if n != size:
                continue
            for j, (k, c, iso, hyp) in enumerate(fs):
                R.ob(f"{key}.{j}:isospin", iso == (Fraction(-1), {j: Fraction(1)}), w, "one-loop-row", f"field {j} takes its isospin from {iso}")
                R.ob(f"{key}.{j}:hypercharge", hyp[1] == {"a": Fraction(1)}, w, "one-loop-row", f"hypercharge of field {j} is not an offset of the free one")
                R.ob(f"{key}.{j}:colour", len(c) == 2 and (c == c0 or c == conj_colour(c0)), w, "one-loop-row", f"colour {c} of field {j} in a row of colour {c0}")
            # external fields of each vertex: a lepton between scalar and fermion, Higgs otherwise
            ext = []
            for j in range(n):
                a, b = fs[j], fs[(j + 1) % n]
                d = b[3][0] - a[3][0]
                if a[0] != b[0]:
                    ext.append((-1, d))
                else:
                    ext.append((2 if size == 3 and a[0] == "S" else 1, d))
                same_way = a[1] == b[1] or (a[1] == conj_colour(b[1]) and a[3] == (0, {}) == b[3])
                R.ob(f"{key}.{j}{(j + 1) % n}:gauge", same_way, w, "one-loop-colour",
                     f"fields {j} and {(j + 1) % n} couple with colours {a[1]} and {b[1]} although their hypercharges flow the same way")
            R.ob(f"{key}:kinds", sorted(q for q, _ in ext) == ([-1, -1, 2] if size == 3 else [-1, -1, 1, 1]) and all(f[0] in "SF" for f in fs), w, "one-loop-row",
                 "the diagram does not have two lepton and two Higgs legs")
            sg = {1 if d * 2 == q else -1 if d * 2 == -q else 0 for q, d in ext}
            R.ob(f"{key}:vertices", sg in ({1}, {-1}), w, "one-loop-row", f"hypercharge is not conserved at every vertex: steps {[str(d) for _, d in ext]}")
        R.ob(f"{fn}:colours", sorted(cols) == sorted(set(cols)) and set(cols) >= {"00", "01", "10", "02", "20", "11"} and all(conj_colour(c) in cols for c in cols), w, "one-loop-row",
             f"rows for the colours {sorted(cols)}")


def generated(ctx, R):
    """every table is generated for every hypercharge in range"""
    w = ctx.where(MOD, "generate_models")
    try:
        res = ctx.run(MOD, "generate_models", opaque=tuple(PK + MOD + "." + x for x in TABLES))
        v = observe(res, res.ev).value
    except Exception as e:
        R.ob("generate_models:folded", None, w, "one-loop-range", f"{type(e).__name__}: {e}")
        return
    got = {}
    for t in subterms(v):
        if t.op == "call" and t.args[0].op == "fn" and t.args[0].args[0].split(".")[-1] in TABLES:
            kw = dict(t.args[2])
            a = kw.get("a", t.args[1][1] if len(t.args[1]) > 1 else None)
            i = kw.get("i", t.args[1][0] if t.args[1] else None)
            y = number(a) if a is not None else None
            n = t.args[0].args[0].split(".")[-1]
            src = {x.args[0].split(".")[-1] for x in subterms(i) if x.op == "global"} if i is not None else set()
            if src:
                R.ob(f"generate_models.{n}:isospins", TABLES[n][0] in src, w, "one-loop-range", f"{n} is filled from {sorted(src)}")
            got.setdefault(n, []).append(y)
    want = {Fraction(k, 6) for k in range(-18, 19)}
    for n in TABLES:
        ys = got.get(n)
        ok = None if not ys or None in ys else set(ys) == want
        R.ob(f"generate_models.{n}:hypercharges", ok, w, "one-loop-range", f"hypercharges {sorted(str(x) for x in set(ys or ()) ^ want)[:4]} differ from -3, -17/6, ... 3")


PARTS = [("tables", tables), ("generated models", generated)]
