"""P01 conjugation is complete and an involution."""
from .common import *

EXPLAIN = ("Abstract evaluation of every conjugation definition over the syntax tree, with one generic field "
           "(distinct symbolic attributes, distinct Dynkin digits) and each index kind/variance as a case; every "
           "attribute of the constructed conjugate is compared with the value the property demands.")

IDX = CORE + "Index"
KINDS = {"u": "Undotted", "d": "Dotted", "c": "Colour", "i": "Isospin", "g": "Generation"}


def index(kind, up, n=7):
    lab = ("" if up else "-") + kind + str(n)
    return obj(IDX, label=K(lab), index_type=K(KINDS[kind]), is_up=K(up), is_su2=K(kind in "udi"))


def index_label(t):
    """label of an index term (an Index construction or one of our objects)"""
    if t.op == "new":
        d = attrs_of(t)
        v = d.get("label")
        if v is not None and v.op == "new":
            return index_label(v)
        return v
    if t.op == "str":
        return index_label(t.args[0])
    return None


INDEX_INLINE = FIELD_INLINE + (IDX + ".__neg__", IDX + ".conj")


def conj_label(kind, up, n=7):
    k2 = {"u": "d", "d": "u"}.get(kind, kind)
    u2 = up if kind in "udig" else not up
    return ("" if u2 else "-") + k2 + str(n)


def check_index(ctx, R):
    w = ctx.where("tensormethod.core", "Index.conj")
    for kind in KINDS:
        for up in ((True, False) if kind in "ci" else (True,)):
            got = ctx.run("tensormethod.core", "Index.conj", inline=INDEX_INLINE, self_term=index(kind, up)).value
            lab = index_label(got)
            want = conj_label(kind, up)
            v = None if lab is None or not is_const(lab) else cval(lab) == want
            R.ob(f"Index.conj:{'-' if not up else ''}{kind}", v, w, "conjugate-index-table",
                 f"conjugate of a {'raised' if up else 'lowered'} {KINDS[kind]} index is {show(got, 120)}, expected {want}")
    # negation of an index flips its variance only
    w = ctx.where("tensormethod.core", "Index.__neg__")
    for kind in KINDS:
        for up in (True, False):
            got = ctx.run("tensormethod.core", "Index.__neg__", inline=INDEX_INLINE, self_term=index(kind, up)).value
            lab = index_label(got)
            want = ("-" if up else "") + kind + "7"
            v = None if lab is None or not is_const(lab) else cval(lab) == want
            R.ob(f"Index.__neg__:{'-' if not up else ''}{kind}", v, w, "index-negation-table",
                 f"negation of {'' if up else '-'}{kind}7 is {show(got, 120)}, expected {want}")
    # the string helper maps every index through conj
    w = ctx.where("tensormethod.core", "Index.conj_index_string")
    got = ctx.run("tensormethod.core", "Index.conj_index_string",
                  inline=INDEX_INLINE, args={"index_string": sym("S")}, self_term=None).value
    want = ctx.spec("tensormethod.core", '''
        def f(cls, S):
            return " ".join(str(cls(x).conj) for x in S.split(" "))''', inline=INDEX_INLINE).value
    v, why = same(norm_seq(got), norm_seq(want))
    R.ob("Index.conj_index_string", True if v else None, w, "maps-every-index", why)


def norm_seq(t):
    return t


def generic_field(cls, is_conj, label=None, **extra):
    d = dict(label=label or sym("$label"), dynkin=K("12345"), charges=charges(), is_conj=K(is_conj),
             comm=sym("$comm"), symmetry=sym("$symmetry"), history=sym("$history"), multiplicity=sym("$multiplicity"),
             latex=sym("$latex"), nf=sym("$nf"), derivs=sym("$derivs"), stripped=sym("$stripped"))
    d.update(extra)
    return obj(cls, **d)


def compare_new(R, name, got, want, where, rule, classes=None, case=""):
    """`want`: attr -> expected term; attribute-wise obligations."""
    alts = leaves(got)
    if any(l.op != "new" for _, l in alts):
        bad = [l for _, l in alts if l.op != "new"]
        definite = all(not has_unknown(l) and l.op in ("sym", "const") for l in bad)
        R.ob(f"{name}:result", False if definite else None, where, rule, f"result {show(got, 200)} is not a constructed field")
        return
    for gate, l in alts:
        d = attrs_of(l)
        sfx = case
        if "**" in d:
            R.ob(f"{name}:result", None, where, rule, "built from an unresolved keyword dictionary")
            return
        if classes is not None:
            R.ob(f"{name}:class", cls_of(l) in classes and d.get("__class__") == K("dynamic"), where, rule,
                 f"the result is built as {cls_of(l).split('.')[-1]}{'' if d.get('__class__') else ' regardless of the class of the object'}")
        for a, wv in want.items():
            if a not in d:
                R.ob(f"{name}:{a}", False, where, rule, f"attribute {a} is not passed on{sfx}")
                continue
            v, why = same(d[a], wv)
            R.ob(f"{name}:{a}", v, where, rule, f"{a}{sfx}: {why}")


def dagger(label_atom, conj_now):
    return label_atom


def stripped_of(dynkin, neg=False):
    """data of a field under a derivative"""
    q = charges(mk_neg(sym("$sy")), mk_neg(sym("$s3b"))) if neg else charges(sym("$sy"), sym("$s3b"))
    return Term("dict", (Term("pair", K("label"), sym("$s_label")), Term("pair", K("dynkin"), K(dynkin)),
                         Term("pair", K("symmetry"), sym("$s_symmetry")), Term("pair", K("charges"), q),
                         Term("pair", K("latex"), sym("$s_latex"))))


def check_stripped(R, name, t, w, neg=True):
    want = dictmap(stripped_of("21435" if neg else "12345", neg))
    for _, l in leaves(t):
        m = dictmap(l)
        if m is None:
            R.ob(f"{name}:stripped", None, w, "conjugate-under-derivative", f"data under the derivative: {show(l, 120)}")
            continue
        for k, wv in want.items():
            if k not in m:
                R.ob(f"{name}:stripped:{cval(k)}", False, w, "conjugate-under-derivative", f"{cval(k)} of the field under the derivative is lost")
                continue
            v, why = same(m[k], wv)
            R.ob(f"{name}:stripped:{cval(k)}", v, w, "conjugate-under-derivative", f"{cval(k)} under the derivative: {why}")


def check_field(ctx, R):
    w = ctx.where("tensormethod.core", "Field.conj")
    for c in (False, True):
        me = generic_field(CORE + "Field", c, stripped=stripped_of("12345"))
        g0 = ctx.run("tensormethod.core", "Field.conj", inline=FIELD_INLINE, self_term=me).value
        for _, l in leaves(g0):
            if l.op == "new":
                check_stripped(R, "Field.conj", attrs_of(l).get("stripped", NONE), w)
        me = generic_field(CORE + "Field", c, stripped=NONE)
        got = ctx.run("tensormethod.core", "Field.conj", inline=FIELD_INLINE, self_term=me).value
        want = dict(label=sym("$label"), dynkin=K("21435"), charges=charges(mk_neg(sym("$y")), mk_neg(sym("$3b"))),
                    is_conj=K(not c), comm=sym("$comm"), symmetry=sym("$symmetry"), latex=sym("$latex"),
                    nf=sym("$nf"), derivs=sym("$derivs"), stripped=NONE)
        compare_new(R, "Field.conj", got, want, w, "conjugate-attribute", [CORE + "Field"], f" (is_conj={c})")


def generic_indexed(cls, is_conj, **extra):
    idx = Term("list", tuple(index(k, u, n) for n, (k, u) in enumerate(
        [("u", True), ("d", True), ("c", True), ("c", False), ("i", True), ("g", True)])))
    lab = K("X†") if is_conj else K("X")
    return generic_field(cls, is_conj, label=lab, indices=idx, index_labels=sym("$index_labels"), **extra)


CONJ_IDX = ["d0", "u1", "-c2", "c3", "i4", "g5"]


def flat_indices(t):
    """The sequence of index labels an `indices` argument denotes, or None."""
    t = norm(t)
    if is_const(t) and isinstance(cval(t), str):
        return cval(t).split()
    if t.op == "concat":
        out = []
        cur = ""
        for p in t.args[0]:
            q = p
            if q.op == "str":
                q = index_label(q.args[0]) or q
            if not (is_const(q) and isinstance(cval(q), str)):
                return None
            cur += cval(q)
        return cur.split()
    if t.op == "list":
        out = []
        for e in t.args[0]:
            l = e if is_const(e) else index_label(e)
            if l is None or not is_const(l):
                return None
            out.append(cval(l))
        return out
    if t.op == "sjoin":
        return None
    return None


def indexed_conj(ctx, R, mod, cls, meth, is_prop_latex=True):
    fq = PK + mod + "." + cls
    fm = ctx.p.find_method(fq, meth)
    if fm is None:
        return
    c, m, fn = fm
    name = f"{cls}.{meth}"
    w = f"neutrinomass/{m.rel}:{fn.lineno} {name}"
    for cj in (False, True):
        me = generic_indexed(fq, cj, stripped=NONE if cls != "IndexedField" else stripped_of("12345"))
        e = ctx.evaluator(inline=INDEX_INLINE + (PK + "tensormethod.core.IndexedField.conj",
                                                 CC + "VectorLikeDiracFermion.conj") + EXTRA)
        r = e.run(m, fn, cls=fq, self_term=me)
        ctx.functions_seen.add(fn._qual)
        neg = meth == "conj"
        want = dict(label=K("X") if cj else K("X†"), is_conj=K(not cj), comm=sym("$comm"), symmetry=sym("$symmetry"),
                    latex=sym("$latex"), nf=sym("$nf"), derivs=sym("$derivs"),
                    charges=charges(mk_neg(sym("$y")), mk_neg(sym("$3b"))))
        if cls != "IndexedField":
            for k in ("derivs", "nf", "comm"):
                want.pop(k)
        if meth == "conj_indices" and cls == "VectorLikeDiracFermion":
            want["charges"] = charges()
            want.pop("is_conj")
            # the label only records the flip of the index structure
            want.pop("label")
        compare_new(R, name, r.value, want, w, "conjugate-attribute", [fq], f" (is_conj={cj})")
        for gate, l in leaves(r.value):
            if l.op == "new" and cls == "IndexedField":
                check_stripped(R, name, attrs_of(l).get("stripped", NONE), w)
            if l.op == "new" and "indices" in attrs_of(l):
                fi = flat_indices(attrs_of(l)["indices"])
                R.ob(f"{name}:indices", None if fi is None else fi == CONJ_IDX, w, "conjugate-every-index",
                     f"indices of the conjugate are {fi or show(attrs_of(l)['indices'], 150)}, expected {CONJ_IDX}")


EXTRA = ()


def check_indexed(ctx, R):
    indexed_conj(ctx, R, "tensormethod.core", "IndexedField", "conj")
    for cls in ("ComplexScalar", "VectorLikeDiracFermion", "MajoranaFermion", "RealScalar"):
        indexed_conj(ctx, R, "completions.core", cls, "conj")
    indexed_conj(ctx, R, "completions.core", "VectorLikeDiracFermion", "conj_indices")


PARTS = [("index", check_index), ("field", check_field), ("indexed", check_indexed)]
