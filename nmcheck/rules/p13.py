"""P13 field contents of the Hilbert-series tables."""
from .facts import *

EXPLAIN = ("The series tables are folded to polynomials over field symbols; for each monomial the mass dimension, charges, colour triality, isospin and Lorentz parity are "
           "summed with the Standard Model field table, and its coefficient as polynomial in the number of flavours must count operators; the symbol-to-field map is read entry by entry.")

GAUGE = ("G", "Gb", "W", "Wb", "B", "Bb")


class NotPoly(Exception):
    pass


def split_symbols(s):
    return [x for x in re.split(r"[,\s]+", s) if x]


def symbol(t):
    """name of a sympy symbol or function written by sympy.symbols, Symbol or Function"""
    k = 0
    if t.op == "item" and is_const(t.args[1]):
        k, t = cval(t.args[1]), t.args[0]
        if not isinstance(k, int):
            return None
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0].split(".")[-1] in ("symbols", "Symbol", "Function") and t.args[1] and is_const(t.args[1][0]):
        names = split_symbols(str(cval(t.args[1][0])))
        if -len(names) <= k < len(names):
            return names[k]
    if t.op == "global" and t.args[0].startswith(PK + "tensormethod.hs."):
        return t.args[0].split(".")[-1]
    return None


def atom(t):
    if t.op == "call" and t.args[0].op == "apply" and len(t.args[1]) == 1:
        return symbol(t.args[0].args[0])
    return symbol(t)


def poly(t, depth=0):
    """{frozenset of (symbol, power): coefficient}"""
    if is_const(t) and t.args[0] == "num":
        return {frozenset(): Fraction(cval(t))}
    a = atom(t)
    if a is not None:
        return {frozenset([(a, 1)]): Fraction(1)}
    if t.op == "neg":
        return {m: -c for m, c in poly(t.args[0]).items()}
    if t.op in ("add", "sub", "mul", "div", "pow"):
        x, y = poly(t.args[0]), poly(t.args[1])
        if t.op in ("add", "sub"):
            return plus(x, y if t.op == "add" else {m: -c for m, c in y.items()})
        if t.op == "mul":
            return times(x, y)
        if list(y) != [frozenset()]:
            raise NotPoly(show(t, 80))
        n = y[frozenset()]
        if t.op == "div":
            return {m: c / n for m, c in x.items()}
        if n.denominator != 1 or n < 0:
            raise NotPoly(show(t, 80))
        out = {frozenset(): Fraction(1)}
        for _ in range(int(n)):
            out = times(out, x)
        return out
    raise NotPoly(show(t, 80))


def plus(x, y):
    out = dict(x)
    for m, c in y.items():
        out[m] = out.get(m, 0) + c
    return {m: c for m, c in out.items() if c}


def times(x, y):
    out = {}
    for m, c in x.items():
        for n, d in y.items():
            p = dict(m)
            for k, e in n:
                p[k] = p.get(k, 0) + e
            q = frozenset(p.items())
            out[q] = out.get(q, 0) + c * d
    return out


def field_of(sym, sm):
    """(field, conj) of a symbol: the field of that name, Xd the conjugate of X"""
    if sym in sm:
        return sm[sym], False
    if sym.endswith("d") and sym[:-1] in sm:
        return sm[sym[:-1]], True
    return None


def account(content, derivs, sm):
    """problems of a field content {symbol: power} with a number of derivatives"""
    y = b = Fraction(0)
    lep = tri = iso = 0
    und = dot = derivs
    dim = Fraction(derivs)
    bad = []
    for s_, n in content.items():
        fc = field_of(s_, sm)
        if fc is None or fc[0] is None:
            bad.append(("field", f"{s_} is not a Standard Model field"))
            continue
        f, cj = fc
        sg = -1 if cj else 1
        u, d = int(f.dynkin[0]), int(f.dynkin[1])
        if cj:
            u, d = d, u
        c1, c2 = int(f.dynkin[2]), int(f.dynkin[3])
        if f.name not in GAUGE:
            tri += n * sg * (c1 - c2)
        y += n * sg * f.y
        b += n * sg * (f.b or 0)
        lep += n * sg * LEPTON.get(f.name, 0)
        iso += n * int(f.dynkin[4])
        und += n * u
        dot += n * d
        dim += n * (2 if f.name in GAUGE else 1 if f.name == "H" else Fraction(3, 2))
    if y:
        bad.append(("hypercharge", f"hypercharges sum to {y}"))
    if tri % 3:
        bad.append(("colour", f"triality {tri} admits no singlet"))
    if iso % 2:
        bad.append(("isospin", f"{iso} isospin indices admit no singlet"))
    if und % 2 or dot % 2:
        bad.append(("Lorentz", f"{und} undotted and {dot} dotted indices admit no singlet"))
    return bad, lep, b, dim


def name_of(content, derivs):
    return (f"D{derivs} " if derivs else "") + " ".join(k + (str(v) if v > 1 else "") for k, v in sorted(content.items()))


# ------------------------------------------------- number of invariants
def partitions_of(n, top=None):
    top = n if top is None else top
    if n == 0:
        yield ()
    for k in range(min(n, top), 0, -1):
        for rest in partitions_of(n - k, k):
            yield (k,) + rest


def conv(a, b):
    out = {}
    for x, m in a.items():
        for y, n in b.items():
            z = tuple(i + j for i, j in zip(x, y))
            out[z] = out.get(z, 0) + m * n
    return out


SU3 = {"00": [(0, 0)], "10": [(1, 0), (-1, 1), (0, -1)], "01": [(-1, 0), (1, -1), (0, 1)],
       "11": [(1, 1), (-1, 2), (2, -1), (0, 0), (0, 0), (1, -2), (-2, 1), (-1, -1)]}
SINGLETS = {}


def singlets2(factors):
    """singlets in the product of SU(2) characters chi_n(z^k), factors sorted (n, k)"""
    key = (2, factors)
    if key not in SINGLETS:
        p = {(0,): 1}
        for n, k in factors:
            c = {}
            for w in range(-n, n + 1, 2):
                c[(w * k,)] = 1
            p = conv(p, c)
        SINGLETS[key] = p.get((0,), 0) - p.get((2,), 0)
    return SINGLETS[key]


def singlets3(factors):
    key = (3, factors)
    if key not in SINGLETS:
        # Weyl measure: product over the positive roots of (1 - root)
        p = {(0, 0): 1}
        for r in ((2, -1), (-1, 2), (1, 1)):
            p = conv(p, {(0, 0): 1, r: -1})
        for rep, k in factors:
            c = {}
            for w in SU3[rep]:
                z = (w[0] * k, w[1] * k)
                c[z] = c.get(z, 0) + 1
            p = conv(p, c)
        SINGLETS[key] = p.get((0, 0), 0)
    return SINGLETS[key]


# antisymmetric powers of the vector representation, for total derivatives
TOTAL = {0: [(1, 0, 0)], 1: [(-1, 1, 1)], 2: [(1, 2, 0), (1, 0, 2)], 3: [(-1, 1, 1)], 4: [(1, 0, 0)]}


def count_invariants(content, sm, derivs=0, onshell=True, one=False):
    """number of invariants independent up to equations of motion and total
    derivatives, a polynomial {power of the number of flavours: coefficient}:
    the singlets in the product of symmetric (bosons) and antisymmetric
    (fermions) powers, from the cycle index of the permutations of equal fields.
    A field with k derivatives is, on shell, the representation with k more
    dotted and undotted indices, off shell also those with boxes; total derivatives are the alternating sum over
    antisymmetric powers of the vector."""
    out = {}

    def go(items, coef, nf, fac, left):
        if not items:
            for sg, du, dd in TOTAL.get(left, ()):
                l, r = list(fac[0]), list(fac[1])
                if du:
                    l.append((du, 1))
                if dd:
                    r.append((dd, 1))
                v = sg * singlets2(tuple(sorted(l))) * singlets2(tuple(sorted(r))) * singlets3(tuple(sorted(fac[2]))) * singlets2(tuple(sorted(fac[3])))
                if v:
                    out[nf] = out.get(nf, 0) + coef * v
            return
        (s_, n), rest = items[0], items[1:]
        f, cj = field_of(s_, sm)
        u, d = int(f.dynkin[0]), int(f.dynkin[1])
        col = f.dynkin[2:4]
        if cj:
            u, d, col = d, u, col[::-1]
        fermi = (u + d) % 2
        for lam in partitions_of(n):
            z, sgn = 1, 1
            for k in set(lam):
                m = lam.count(k)
                z *= k ** m
                for j in range(2, m + 1):
                    z *= j
                if fermi and k % 2 == 0 and m % 2:
                    sgn = -sgn
            for lev in levels(lam, left):
                for spins in spin_parts(u, d, lev, onshell):
                    g = [list(x) for x in fac]
                    for k, (ls, rs) in zip(lam, spins):
                        g[0].extend((x, k) for x in ls if x)
                        g[1].extend((x, k) for x in rs if x)
                        for lst, rep in ((g[3], int(f.dynkin[4])),):
                            if rep:
                                lst.append((rep, k))
                        if col != "00":
                            g[2].append((col, k))
                    go(rest, coef * Fraction(sgn, z), nf + (len(lam) if f.nf and f.nf > 1 and not one else 0), g, left - sum(k * m for k, m in zip(lam, lev)))
    go(sorted(content.items()), Fraction(1), 0, [[], [], [], []], derivs)
    return {k: v for k, v in out.items() if v}


def spin_parts(u, d, lev, onshell):
    """Lorentz factors of each cycle: the highest representation on shell, the
    field times every symmetric product of derivatives off shell"""
    if onshell:
        yield [((u + m,), (d + m,)) for m in lev]
        return

    def go(i):
        if i == len(lev):
            yield []
            return
        for j in range(lev[i] // 2 + 1):
            for rest in go(i + 1):
                n = lev[i] - 2 * j
                yield [((u, n), (d, n))] + rest
    yield from go(0)


def levels(lam, total):
    """derivatives per cycle"""
    if not lam:
        yield ()
        return
    for m in range(total // lam[0] + 1):
        for rest in levels(lam[1:], total - m * lam[0]):
            yield (m,) + rest


def split_mono(m):
    c = dict(m)
    nf, d = c.pop("Nf", 0), c.pop("D", 0)
    return c, d, nf


def nfpoly(p):
    return " + ".join(f"{c} Nf^{k}" for k, c in sorted(p.items())) or "0"


def table(ctx, R, vals, name, dim, lnv, sm):
    m = ctx.p.module("tensormethod.hs")
    w = f"neutrinomass/{m.rel} {name}"
    if name not in vals:
        R.ob(f"hs.{name}:exists", None, w, "series-table", "table not found")
        return
    try:
        v = vals[name]
        if v.op in ("tuple", "list"):
            p = {}
            for x in v.args[0]:
                q = poly(x)
                if len(q) != 1 or any(m_ in p for m_ in q):
                    R.ob(f"hs.{name}:monomials", False, w, "series-table", f"{show(x, 80)} is not a new monomial")
                p.update(q)
        else:
            p = poly(v)
    except NotPoly as e:
        R.ob(f"hs.{name}:polynomial", None, w, "series-table", f"not recognised as polynomial: {e}")
        return
    group = {}
    for mono, c in p.items():
        content, d, nf = split_mono(mono)
        group.setdefault((frozenset(content.items()), d), {})[nf] = c
    for (cont, d), coeff in group.items():
        content = dict(cont)
        nm = name_of(content, d)
        bad, lep, b, mdim = account(content, d, sm)
        if mdim != dim:
            bad.append(("mass dimension", f"mass dimension {mdim}, the table holds {dim}"))
        if lnv and lep != 2:
            bad.append(("lepton number", f"lepton number {lep}"))
        if lnv and b:
            bad.append(("baryon number", f"three times the baryon number is {b}"))
        if lnv:
            for n in (1, 2, 3, 4, 5):
                v = sum(c * n ** k for k, c in coeff.items())
                if v < 0 or v.denominator != 1:
                    bad.append(("count", f"coefficient is {v} for {n} flavours: not a number of operators"))
                    break
            if all((field_of(s_, sm) or (None,))[0] for s_ in content):
                want = count_invariants(content, sm, d, lnv, not lnv)
                if want != coeff:
                    bad.append(("invariants", f"coefficient is {nfpoly(coeff)}, there are {nfpoly(want)} invariants"))
        for aspect, text in bad:
            R.ob(f"hs.{name}.{nm}:{aspect}", False, w + " " + nm, "monomial-accounting", text)
        if not bad:
            R.ob(f"hs.{name}.{nm}:accounting", True, w + " " + nm, "monomial-accounting")


def contents(dim, sm, derivs=True, gauge=True, lnv=True):
    """every content of that dimension with L=2 and no other charge (any B, L unless lnv)"""
    info = []
    for n, f in sm.items():
        for sg, s_ in ((1, n), (-1, n + "d")):
            if n in GAUGE and (sg < 0 or not gauge):
                continue
            info.append((s_, 4 if n in GAUGE else 2 if n == "H" else 3, sg * f.y, sg * (f.b or 0), sg * LEPTON.get(n, 0)))
    out = []

    def go(i, left, y, b, l, cur):
        if i == len(info):
            if not left % 2 and not y and (not lnv or (not b and l == 2)) and cur and (derivs or not left):
                out.append((dict(cur), left // 2))
            return
        s_, d, yy, bb, ll = info[i]
        n = 0
        while n * d <= left:
            go(i + 1, left - n * d, y + n * yy, b + n * bb, l + n * ll, cur + ([(s_, n)] if n else []))
            n += 1
    go(0, 2 * dim, 0, 0, 0, [])
    return out


def complete(ctx, R):
    """no field content with an invariant is missing from a table"""
    sm = sm_fields(ctx)
    vals = values(ctx, "tensormethod.hs")
    m = ctx.p.module("tensormethod.hs")
    if any(f is None for f in sm.values()):
        R.ob("hs:complete", None, "", "series-complete", "Standard Model fields are not constants")
        return
    for name, dim, der, gauge, lnv in (("H6", 6, True, False, False), ("H7_LNV", 7, True, True, True), ("H9_LNV", 9, True, True, True), ("H11_LNV", 11, False, False, True)):
        w = f"neutrinomass/{m.rel} {name}"
        try:
            v = vals[name]
            mono = [m_ for x in v.args[0] for m_ in poly(x)] if v.op in ("tuple", "list") else list(poly(v))
            listed = {(frozenset(c.items()), d) for c, d, _ in map(split_mono, mono)}
        except (NotPoly, KeyError):
            R.ob(f"hs.{name}:complete", None, w, "series-complete", "not recognised as polynomial")
            continue
        n = 0
        for c, d in contents(dim, sm, der, gauge, lnv):
            if (frozenset(c.items()), d) in listed or account(c, d, sm)[0]:
                continue
            n += 1
            k = count_invariants(c, sm, d, lnv, not lnv)
            if k:
                R.ob(f"hs.{name}.{name_of(c, d)}:missing", False, w, "series-complete", f"{nfpoly(k)} invariants of {name_of(c, d)} are not listed")
        R.ob(f"hs.{name}:complete", True, w, "series-complete", f"{n} further contents admit no invariant")


def tables(ctx, R):
    sm = sm_fields(ctx)
    vals = values(ctx, "tensormethod.hs")
    for name, dim, lnv in (("H6", 6, False), ("H7_LNV", 7, True), ("H9_LNV", 9, True), ("H11_LNV", 11, True)):
        table(ctx, R, vals, name, dim, lnv, sm)


def derivative_names(ctx, R):
    sm = sm_fields(ctx)
    vals = values(ctx, "tensormethod.deriv_operators")
    m = ctx.p.module("tensormethod.deriv_operators")
    w = f"neutrinomass/{m.rel} deriv_operator_names"
    d = dictmap(vals.get("deriv_operator_names", NONE))
    if d is None:
        R.ob("deriv_operator_names:folded", None, w, "derivative-operators", "table is not a dictionary of constants")
        return
    seen = {}
    for k, v in d.items():
        lab = cval(k) if is_const(k) else show(k, 40)
        try:
            p = poly(v)
        except NotPoly:
            try:
                p = poly_flat(v)
            except NotPoly as e:
                R.ob(f"deriv_operator_names.{lab}:polynomial", None, w, "derivative-operators", str(e))
                continue
        if len(p) != 1:
            R.ob(f"deriv_operator_names.{lab}:monomial", False, w, "derivative-operators", "not a single monomial")
            continue
        (mono, c), = p.items()
        content, nd, nf = split_mono(mono)
        bad, lep, b, dim = account(content, nd, sm)
        if lep != 2:
            bad.append(("lepton number", f"lepton number {lep}"))
        if b:
            bad.append(("baryon number", f"three times the baryon number is {b}"))
        if dim % 2 != 1 or not nd or c != 1 or nf:
            bad.append(("form", f"mass dimension {dim}, {nd} derivatives, coefficient {c}"))
        if mono in seen:
            bad.append(("duplicate", f"same content as operator {seen[mono]}"))
        seen[mono] = lab
        for aspect, text in bad:
            R.ob(f"deriv_operator_names.{lab}:{aspect}", False, w + f" {lab}", "monomial-accounting", text)
        if not bad:
            R.ob(f"deriv_operator_names.{lab}:accounting", True, w + f" {lab}", "monomial-accounting")


def derivative_contents(ctx, R):
    """the numbered derivative contents are those of the series of dimension 7 and 9"""
    vals = values(ctx, "tensormethod.hs")
    d = dictmap(values(ctx, "tensormethod.deriv_operators").get("deriv_operator_names", NONE))
    w = "neutrinomass/tensormethod/deriv_operators.py deriv_operator_names"
    try:
        names = set()
        for v in (d or {}).values():
            for mono in poly_flat(v):
                c, k, _ = split_mono(mono)
                names.add((frozenset(c.items()), k))
        series = set()
        for n in ("H7_LNV", "H9_LNV"):
            for mono in poly(vals[n]):
                c, k, _ = split_mono(mono)
                if k and not any(s_ in GAUGE for s_ in c):
                    series.add((frozenset(c.items()), k))
    except (NotPoly, KeyError):
        R.ob("deriv_operator_names:complete", None, w, "derivative-operators", "not polynomials")
        return
    for c, k in sorted(series - names, key=str):
        R.ob(f"deriv_operator_names[{name_of(dict(c), k)}]:missing", False, w, "derivative-operators", f"{name_of(dict(c), k)} of the series has no number")
    for c, k in sorted(names - series, key=str):
        R.ob(f"deriv_operator_names[{name_of(dict(c), k)}]:extra", False, w, "derivative-operators", f"{name_of(dict(c), k)} is not in the series")
    R.ob("deriv_operator_names:complete", True, w, "derivative-operators")


def poly_flat(t):
    """as poly, for terms already normalised"""
    if t.op in ("mul*", "add*"):
        out = {frozenset(): Fraction(1)} if t.op == "mul*" else {}
        for x in t.args[0]:
            out = times(out, poly_flat(x)) if t.op == "mul*" else plus(out, poly_flat(x))
        return out
    if t.op in ("pow", "neg", "add", "sub", "mul", "div"):
        a = [poly_flat(x) for x in t.args]
        if t.op == "neg":
            return {m: -c for m, c in a[0].items()}
        if t.op in ("add", "sub"):
            return plus(a[0], a[1] if t.op == "add" else {m: -c for m, c in a[1].items()})
        if t.op == "mul":
            return times(*a)
        if list(a[1]) != [frozenset()]:
            raise NotPoly(show(t, 80))
        n = a[1][frozenset()]
        if t.op == "div":
            return {m: c / n for m, c in a[0].items()}
        out = {frozenset(): Fraction(1)}
        if n.denominator != 1 or n < 0:
            raise NotPoly(show(t, 80))
        for _ in range(int(n)):
            out = times(out, a[0])
        return out
    return poly(t)


def lookup(ctx, R):
    sm = sm_fields(ctx)
    vals = values(ctx, "tensormethod.parse_hs")
    hs = values(ctx, "tensormethod.hs")
    m = ctx.p.module("tensormethod.parse_hs")
    w = f"neutrinomass/{m.rel} FIELD_LOOKUP"
    d = dictmap(vals.get("FIELD_LOOKUP", NONE))
    if d is None:
        R.ob("FIELD_LOOKUP:folded", None, w, "symbol-map", "not a dictionary of constants")
        return
    seen = set()
    for k, v in d.items():
        a = None
        if k.op == "call" and k.args[0].op == "apply":
            g = k.args[0].args[0]
            nm = g.args[0].split(".")[-1] if g.op == "global" else None
            a = symbol(hs[nm]) if nm in hs else symbol(g)
        if a is None:
            R.ob("FIELD_LOOKUP:key", None, w, "symbol-map", show(k, 80))
            continue
        cj = False
        if v.op == "attr" and v.args[1] == "conj":
            v, cj = v.args[0], True
        if v.op != "global" or not v.args[0].startswith(SM):
            R.ob(f"FIELD_LOOKUP.{a}:field", None, w, "symbol-map", show(v, 80))
            continue
        n = v.args[0][len(SM):]
        f = field_of(a, sm)
        want = None if f is None or f[0] is None else (f[0].name, f[1])
        seen.add(a)
        R.ob(f"FIELD_LOOKUP.{a}:field", (n, cj) == want, w, "symbol-map", f"symbol {a} is read as {n + ('.conj' if cj else '')}")
    for mod, names in (("tensormethod.hs", ("H6", "H7_LNV", "H9_LNV", "H11_LNV")),):
        for name in names:
            try:
                used = {s_ for mono in poly(values(ctx, mod)[name]) for s_, _ in mono} - {"Nf", "D"}
            except (NotPoly, KeyError):
                continue
            R.ob(f"FIELD_LOOKUP:{name}", used <= seen, w, "symbol-map", f"symbols {sorted(used - seen)} of {name} cannot be read")


PARTS = [("series tables", tables), ("derivative operators", derivative_names), ("derivative contents", derivative_contents), ("symbol map", lookup), ("completeness", complete)]
