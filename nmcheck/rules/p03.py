"""P03 attribute preservation of copies, re-indexings and rebuilt fields."""
from .common import *
from .p01 import (stripped_of, INDEX_INLINE, generic_indexed, generic_field, compare_new, flat_indices, index, index_label)

EXPLAIN = ("Abstract evaluation of every operation that rebuilds a field from another one (re-indexing, calling on "
           "indices, fresh indices, deep copies, acting with / removing derivatives, promotion to an exotic type), on a "
           "generic field with distinct symbolic attributes; each attribute of the rebuilt field must be the "
           "original's.")

BASE = dict(charges=charges(), symmetry=sym("$symmetry"), comm=sym("$comm"), latex=sym("$latex"), nf=sym("$nf"),
            derivs=sym("$derivs"), stripped=sym("$stripped"))
T = "tensormethod.core"
INL = INDEX_INLINE + (CORE + "Index.indices_by_type", CORE + "IndexedField.indices_by_type")


def reindex(ctx, R):
    for cj in (False, True):
        sfx = f" (is_conj={cj})"
        # IndexedField.field
        me = generic_indexed(CORE + "IndexedField", cj)
        got = ctx.run(T, "IndexedField.field", inline=INL, self_term=me).value
        compare_new(R, "IndexedField.field", got, dict(BASE, label=K("X"), dynkin=K("12345"), is_conj=K(cj)),
                    ctx.where(T, "IndexedField.field"), "attribute-preserved", None, sfx)
        # substituted_indices
        pairs = Term("tuple", (Term("tuple", (index("i", True, 4), K("i99"))), Term("tuple", (index("u", True, 0), K("u98")))))
        got = ctx.run(T, "IndexedField.substituted_indices", inline=INL, self_term=me, args={"indices": pairs}).value
        w = ctx.where(T, "IndexedField.substituted_indices")
        compare_new(R, "substituted_indices", got, dict(BASE, label=attrs_of(me)["label"], is_conj=K(cj)), w,
                    "attribute-preserved", None, sfx)
        if got.op == "new":
            fi = flat_indices(attrs_of(got).get("indices", NONE))
            want = ["u98", "d1", "c2", "-c3", "i99", "g5"]
            R.ob("substituted_indices:indices", None if fi is None else fi == want, w, "only-requested-indices-renamed",
                 f"renaming i4->i99, u0->u98 gives {fi}, expected {want}")
        # Field.__call__
        f = generic_field(CORE + "Field", cj, label=K("X"))
        got = ctx.run(T, "Field.__call__", inline=INL, self_term=f, args={"indices": sym("S")}).value
        lab = K("X†") if cj else K("X")
        compare_new(R, "Field.__call__", got, dict(BASE, label=lab, is_conj=K(cj), indices=sym("S")),
                    ctx.where(T, "Field.__call__"), "attribute-preserved", None, sfx)
        # fresh_indices on a field and on an indexed field
        for cls, o in (("Field", f), ("IndexedField", me)):
            got = ctx.run(T, "Field.fresh_indices", inline=INL, self_term=o, cls=CORE + cls).value
            w = ctx.where(T, "Field.fresh_indices")
            compare_new(R, f"{cls}.fresh_indices", got, dict(BASE, label=lab, is_conj=K(cj)), w, "attribute-preserved",
                        None, sfx)
        want = ctx.spec(T, '''
            def f(self):
                out = Index.fresh_indices(self.dynkin)
                return out + (" " + str(Index.fresh("g")) if self.nf > 1 else "")''', inline=INL, args={"self": f}).value
        got = ctx.run(T, "Field.fresh_indices", inline=INL, self_term=f, cls=CORE + "Field").value
        for _, l in leaves(got):
            if l.op == "new" and "indices" in attrs_of(l):
                R.same("Field.fresh_indices:indices", attrs_of(l)["indices"], want, w, "one-fresh-index-per-dynkin-label")


def derivatives(ctx, R):
    w = ctx.where(T, "D")
    for cj in (False, True):
        given = stripped_of("54321")
        for strp in (NONE, given):
            f = generic_field(CORE + "Field", cj, label=K("X"), stripped=strp)
            got = ctx.run(T, "D", inline=INL, args={"field": f, "dynkin": K("03")}).value
            want = dict(charges=charges(), comm=sym("$comm"), is_conj=K(cj), nf=sym("$nf"),
                        derivs=mk_add(sym("$derivs"), K(1)), dynkin=K("03345"))
            compare_new(R, "D", got, want, w, "derivative-keeps-attribute", None, f" (is_conj={cj})")
            for _, l in leaves(got):
                if l.op != "new":
                    continue
                sv = attrs_of(l).get("stripped", NONE)
                if strp != NONE:
                    v, why = same(sv, strp)
                    R.ob("D:stripped-kept", v, w, "first-derivative-information-kept", why)
                else:
                    d = dictmap(sv)
                    if d is None:
                        R.ob("D:stripped", None, w, "stripped-information", show(sv, 150))
                        continue
                    for k, val in dict(label=K("X"), dynkin=K("12345"), symmetry=sym("$symmetry"), charges=charges(),
                                       latex=sym("$latex")).items():
                        g = d.get(K(k))
                        v, why = (False, "missing") if g is None else same(g, val)
                        R.ob(f"D:stripped:{k}", v, w, "stripped-information", f"{k}: {why}")
                # D(X) prepends the derivative symbol
                R.same("D:label", attrs_of(l).get("label", NONE), K("DX"), w, "derivative-label")
    stripped = Term("dict", tuple(Term("pair", K(k), sym("$s_" + k)) for k in ("label", "dynkin", "symmetry", "charges", "latex")))
    for cj in (False, True):
        me = generic_indexed(CORE + "IndexedField", cj, stripped=stripped)
        me = Term("new", me.args[0], tuple(sorted({**attrs_of(me), "derivs": K(1)}.items())))
        w = ctx.where(T, "IndexedField.strip_derivs")
        got = ctx.run(T, "IndexedField.strip_derivs", inline=INL, self_term=me).value
        want = dict(label=sym("$s_label"), dynkin=sym("$s_dynkin"), symmetry=sym("$s_symmetry"), latex=sym("$s_latex"),
                    charges=charges(), is_conj=K(cj), comm=sym("$comm"), nf=sym("$nf"), derivs=K(0))
        compare_new(R, "strip_derivs", got, want, w, "derivative-removed-rest-kept", None, f" (is_conj={cj})")
        m0 = Term("new", me.args[0], tuple(sorted({**attrs_of(me), "derivs": K(0)}.items())))
        got = ctx.run(T, "IndexedField.strip_derivs", inline=INL, self_term=m0).value
        R.same("strip_derivs:no-derivative", got, m0, w, "identity-without-derivatives")
    # operator-level stripping
    w = ctx.where("completions.completions", "operator_strip_derivs")
    for cj in (False, True):
        me = generic_indexed(CORE + "IndexedField", cj, stripped=stripped)
        me = Term("new", me.args[0], tuple(sorted({**attrs_of(me), "derivs": K(1), "gauge_indices": Term(
            "list", (index("c", True, 2), index("i", True, 4)))}.items())))
        plain = Term("new", me.args[0], tuple(sorted({**attrs_of(me), "derivs": K(0), "field": sym("$field")}.items())))
        op = obj(CORE + "Operator", tensors=Term("list", (me, plain, sym("$eps"))))
        got = ctx.run("completions.completions", "operator_strip_derivs", inline=INL, args={"op": op},
                      types={sym("$eps"): None}).value
        got = assume_all(got, {Term("isinstance", sym("$eps"), Term("cls", CORE + "Field")): False})
        d = dictmap(got)
        if d is None:
            R.ob("operator_strip_derivs:result", None, w, "stripping", show(got, 200))
            continue
        R.same("operator_strip_derivs:epsilons", d.get(K("epsilons"), NONE), Term("list", (sym("$eps"),)), w, "tensors-kept")
        R.same("operator_strip_derivs:count", d.get(K("n_derivs"), NONE), K(1), w, "derivatives-counted")
        fs = d.get(K("fields"), NONE)
        if fs.op == "list" and len(fs.args[0]) == 2 and all(x.op in ("list", "tuple") and len(x.args[0]) == 2 for x in fs.args[0]):
            a, b = fs.args[0]
            want = dict(label=sym("$s_label"), dynkin=sym("$s_dynkin"), symmetry=sym("$s_symmetry"),
                        charges=sym("$s_charges"), latex=sym("$s_latex"), is_conj=K(cj), comm=sym("$comm"), nf=sym("$nf"))
            compare_new(R, "operator_strip_derivs", a.args[0][0], want, w, "derivative-removed-rest-kept", None,
                        f" (is_conj={cj})")
            R.same("operator_strip_derivs:indices", a.args[0][1], K("c2 i4"), w, "gauge-indices-kept")
            R.same("operator_strip_derivs:plain", b, Term("tuple", (sym("$field"), K("c2 i4"))), w, "underived-field-unchanged")
        else:
            R.ob("operator_strip_derivs:fields", None, w, "stripping", show(fs, 200))


def assume_all(t, facts):
    def f(x):
        if x in facts:
            return K(facts[x])
        return x
    return rewrite(t, f)


EXO = ("ComplexScalar", "RealScalar", "MajoranaFermion", "VectorLikeDiracFermion")


def promotion(ctx, R):
    w = ctx.where("completions.core", "cons_completion_field")
    for ferm in (True, False):
        for real in (True, False):
            for cj in (True, False):
                me = generic_indexed(CORE + "IndexedField", cj)
                me = Term("new", me.args[0], tuple(sorted({**attrs_of(me), "is_fermion": K(ferm), "is_scalar": K(not ferm),
                                                           "is_boson": K(not ferm), "is_real_sm_irrep": K(real)}.items())))
                cls = {(True, True): "MajoranaFermion", (True, False): "VectorLikeDiracFermion",
                       (False, True): "RealScalar", (False, False): "ComplexScalar"}[(ferm, real)]
                for unb in (NONE, K(True), K(False)):
                    got = ctx.run("completions.core", "cons_completion_field", inline=INL,
                                  args={"indexed_field": me, "is_unbarred": unb}).value
                    want = dict(label=attrs_of(me)["label"], indices=attrs_of(me)["indices"], charges=charges(),
                                latex=sym("$latex"), is_conj=K(cj))
                    if cls == "VectorLikeDiracFermion":
                        want["is_unbarred"] = K(True) if unb == NONE else unb
                    for _, l in leaves(got):
                        if l.op == "new":
                            R.ob(f"cons_completion_field:{cls}:class", cls_of(l) == CC + cls, w, "exotic-type-by-representation",
                                 f"a {'fermion' if ferm else 'scalar'} in a {'real' if real else 'complex'} representation becomes {cls_of(l)}")
                    compare_new(R, f"cons_completion_field:{cls}", got, want, w, "attribute-preserved", None, f" (is_conj={cj})")
    for cls in EXO:
        fm = ctx.p.find_method(CC + cls, "__deepcopy__")
        if fm is None:
            continue
        c, m, fn = fm
        for cj in (True, False):
            for unb in (True, False):
                me = generic_indexed(CC + cls, cj, is_unbarred=K(unb))
                e = ctx.evaluator(inline=INL + (CC + "FieldType.__deepcopy__",))
                r = e.run(m, fn, cls=CC + cls, self_term=me)
                got = with_stores(r, e)
                ctx.functions_seen.add(fn._qual)
                want = dict(label=attrs_of(me)["label"], charges=charges(), latex=sym("$latex"), is_conj=K(cj))
                if cls == "VectorLikeDiracFermion":
                    want["is_unbarred"] = K(unb)
                wh = f"neutrinomass/{m.rel}:{fn.lineno} {cls}.__deepcopy__"
                compare_new(R, f"{cls}.__deepcopy__", got, want, wh, "attribute-preserved", [CC + cls])
                for _, l in leaves(got):
                    if l.op == "new":
                        fi = flat_indices(strip_copy(attrs_of(l).get("indices", NONE)))
                        wi = ["u0", "d1", "c2", "-c3", "i4", "g5"]
                        R.ob(f"{cls}.__deepcopy__:indices", None if fi is None else fi == wi, wh, "attribute-preserved", f"{fi}")


def constructors(ctx, R):
    """The exotic constructors hand their arguments to the field constructor and
    fix the statistics of the type."""
    for cls in EXO:
        fm = ctx.p.find_method(CC + cls, "__init__")
        c, m, fn = fm
        wh = f"neutrinomass/{m.rel}:{fn.lineno} {cls}.__init__"
        r = ctx.run("completions.core", f"{cls}.__init__")
        calls = [e for e in r.events if e.kind == "call" and e.data["name"] == "__init__"]
        if not calls:
            R.ob(f"{cls}.__init__:delegates", None, wh, "constructor-delegates", "no base constructor call seen")
            continue
        kw = dict(calls[0].data["kwargs"])
        for a in ("label", "charges", "is_conj", "latex"):
            if a in kw:
                v, why = same(kw[a], sym(a))
                R.ob(f"{cls}.__init__:{a}", v, wh, "constructor-passes-attribute", why)
            else:
                R.ob(f"{cls}.__init__:{a}", False if "**" not in kw else None, wh, "constructor-passes-attribute", f"{a} not passed on")
        stat = "bose" if "Scalar" in cls else "fermi"
        v, why = same(kw.get("comm", NONE), K(stat))
        R.ob(f"{cls}.__init__:comm", v, wh, "statistics-of-the-type", why)
    # Field stores what it is given, filling absent charges with zero
    w = ctx.where(T, "Field.__init__")
    args = dict(label=sym("$label"), dynkin=K("00111"), is_conj=sym("$is_conj"), comm=sym("$comm"), symmetry=sym("$symmetry"),
                history=sym("$history"), multiplicity=sym("$multiplicity"), latex=sym("$latex"), nf=K(3),
                derivs=sym("$derivs"), stripped=sym("$stripped"))
    q = lambda x: K(x)
    for nm, ch, want in (("given", Term("dict", (Term("pair", K("y"), K(5)), Term("pair", K("3b"), K(-2)))), {"y": 5, "3b": -2}),
                         ("partial", Term("dict", (Term("pair", K("y"), K(5)),)), {"y": 5, "3b": 0}),
                         ("extra", Term("dict", (Term("pair", K("y"), K(5)), Term("pair", K("l"), K(1)))), {"y": 5, "3b": 0, "l": 1}),
                         ("none", NONE, {"y": 0, "3b": 0})):
        me = Term("sym", "self")
        r = ctx.run(T, "Field.__init__", inline=INL, args=dict(args, charges=ch), self_term=me)
        st = final_attrs(r, me)
        d = dictmap(r.ev.freeze(st["charges"], r.state)) if "charges" in st else None
        if d is None:
            R.ob(f"Field.__init__:charges:{nm}", None, w, "charges-stored", show(st.get("charges", NONE), 150))
        else:
            gotd = {cval(k): (cval(v) if is_const(v) else None) for k, v in d.items()}
            R.ob(f"Field.__init__:charges:{nm}", gotd == want, w, "charges-stored", f"charges {gotd}, expected {want}")
        for a in ("label", "is_conj", "comm", "symmetry", "history", "multiplicity", "latex", "derivs", "stripped", "nf"):
            if a not in st:
                R.ob(f"Field.__init__:{a}", False, w, "attribute-stored", f"{a} is never stored")
                continue
            wv = args[a]
            given = mk_and(*[mk_not(mk_eq(sym("$" + x), NONE)) for x in ("latex", "symmetry")])
            v, why = same(r.ev.freeze(st[a], r.state), wv, given)
            R.ob(f"Field.__init__:{a}", v, w, "attribute-stored", why)
    # dynkin given as digits or as a sequence
    for dk in (K("10201"), Term("tuple", tuple(K(int(x)) for x in "10201"))):
        r = ctx.run(T, "Field.__init__", inline=INL, args=dict(args, dynkin=dk, charges=NONE, symmetry=NONE), self_term=sym("self"))
        st = final_attrs(r, sym("self"))
        R.same("Field.__init__:dynkin", r.ev.freeze(st.get("dynkin", NONE), r.state), K("10201"), w, "dynkin-normalised")
        # one symmetric block per non-zero Dynkin label
        want = Term("list", tuple(Term("list", (K(1),) * n) for n in (1, 2, 1)))
        R.same("Field.__init__:symmetry-default", r.ev.freeze(st.get("symmetry", NONE), r.state), want, w, "symmetric-blocks")


def with_stores(r, e):
    """returned object with the attributes assigned to it before returning"""
    got = r.value
    rets = r.returns()
    if len(rets) != 1 or rets[0].state is None:
        return got
    st = rets[0].state
    raw = rets[0].term
    if raw.op == "ref":
        got = e.freeze(raw, st)
    extra = {k[1]: e.freeze(v, st) for k, v in st.heap.items() if k[0] == raw}
    if got.op == "new" and extra:
        got = Term("new", got.args[0], tuple(sorted({**attrs_of(got), **extra}.items())))
    return got


def final_attrs(r, me):
    return {k[1]: v for k, v in (r.state.heap if r.state else {}).items() if k[0] == me}


PARTS = [("reindex", reindex), ("derivatives", derivatives), ("promotion", promotion), ("constructors", constructors)]
