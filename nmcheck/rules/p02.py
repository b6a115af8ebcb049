"""P02 mass partners and mass terms."""
from .common import *
from .p01 import (INDEX_INLINE, generic_indexed, compare_new, flat_indices, index, index_label)

EXPLAIN = ("Abstract evaluation of each partner/mass-term definition on one generic exotic carrying one index of every "
           "kind; the partner's attributes, the multiset of index renamings and of invariant tensors, and the factors "
           "of the mass term are compared with what the property demands.")

INL = INDEX_INLINE + (CORE + "Index.indices_by_type", CORE + "IndexedField.indices_by_type")


def exotic(cls, cj=False, unb=True):
    e = generic_indexed(CC + cls, cj, is_unbarred=K(unb))
    if cls == "VectorLikeDiracFermion" and not unb:
        d = dict(e.args[1])
        d["label"] = K("X~")
        e = Term("new", e.args[0], tuple(sorted(d.items())))
    return e


PARTNER_IDX = ["u0", "d1", "-c2", "c3", "i4"]


def partners(ctx, R):
    for cls, meth in (("VectorLikeDiracFermion", "dirac_partner"), ("MajoranaFermion", "majorana_partner"),
                      ("RealScalar", "swap_colour_indices")):
        w = ctx.where("completions.core", f"{cls}.{meth}")
        for cj in (False, True):
            for unb in ((True, False) if cls.startswith("Vector") else (True,)):
                me = exotic(cls, cj, unb)
                if cj and not unb:
                    continue
                got = ctx.run("completions.core", f"{cls}.{meth}", inline=INL, self_term=me).value
                lab0 = cval(attrs_of(me)["label"])
                if cls.startswith("Vector"):
                    lab = lab0 + "~" if unb else lab0.replace("~", "")
                    want = dict(label=K(lab), charges=charges(mk_neg(sym("$y")), mk_neg(sym("$3b"))),
                                is_unbarred=K(not unb), latex=sym("$latex"), is_conj=K(cj))
                else:
                    want = dict(label=K(lab0), latex=sym("$latex"), is_conj=K(cj))
                compare_new(R, f"{cls}.{meth}", got, want, w, "partner-attribute", None, f" (is_conj={cj}, is_unbarred={unb})")
                for _, l in leaves(got):
                    if l.op == "new":
                        R.ob(f"{cls}.{meth}:class", cls_of(l) == CC + cls, w, "partner-class", f"partner is a {cls_of(l)}")
                        fi = flat_indices(attrs_of(l).get("indices", NONE))
                        v = None if fi is None else sorted(fi) == sorted(PARTNER_IDX) or sorted(fi) == sorted(PARTNER_IDX + ["g5"])
                        R.ob(f"{cls}.{meth}:indices", v, w, "partner-indices",
                             f"partner of [u0 d1 c2 -c3 i4] has indices {fi}, expected {PARTNER_IDX}")


def sub_pairs(t):
    """Renamings applied through (nested) index substitution, and its subject."""
    pairs, base = [], None
    for x in subterms(t):
        if x.op == "call" and x.args[0] == Term("method", "substituted_indices"):
            for a in x.args[1][1:]:
                if a.op in ("tuple", "list") and len(a.args[0]) == 2:
                    i, j = a.args[0]
                    li, lj = index_label(i) or i, index_label(j) or j
                    if not (is_const(li) and is_const(lj)):
                        return None, None
                    pairs.append((cval(li), cval(lj)))
                else:
                    return None, None
            b = x.args[1][0]
            if not any(y.op == "call" and y.args[0] == Term("method", "substituted_indices") for y in subterms(b)):
                base = b
    if not pairs and has_unknown(t):
        return None, None
    return pairs, base


def lower(ctx, R):
    w = ctx.where("completions.core", "FieldType.lower_su2")
    for unb in (True, False):
        me = exotic("VectorLikeDiracFermion", False, unb)
        for skip in ((), ("Isospin",), ("Undotted", "Dotted")):
            args = {"skip": Term("list", tuple(K(x) for x in skip))}
            got = ctx.run("completions.core", "FieldType.lower_su2", inline=INL, self_term=me, args=args,
                          cls=CC + "VectorLikeDiracFermion").value
            if got.op != "tuple" or len(got.args[0]) != 2:
                R.ob("lower_su2:result", None, w, "lowering", show(got, 200))
                continue
            field, epss = got.args[0]
            low = [i for i, k in (("u0", "Undotted"), ("d1", "Dotted"), ("i4", "Isospin")) if k not in skip]
            pairs, base = sub_pairs(field)
            sfx = f" (skip={list(skip)})" if skip else ""
            if pairs is not None:
                R.ob("lower_su2:renaming", sorted(p[0] for p in pairs) == sorted(low), w, "every-lowered-index-renamed",
                     f"renamed indices {sorted(p[0] for p in pairs)}, expected {low}{sfx}")
                R.ob("lower_su2:distinct", all(a != b for a, b in pairs) and len({b for _, b in pairs}) == len(pairs), w,
                     "renamed-to-new-names", f"renamings {pairs}")
                if base is not None:
                    v, why = same(base, me)
                    R.ob("lower_su2:subject", v, w, "renames-own-indices", why)
            es = []
            ok = epss.op == "list"
            for e in (epss.args[0] if ok else ()):
                if e.op == "call" and e.args[0] == Term("fn", CORE + "eps"):
                    a = dict(e.args[2]).get("indices") or (e.args[1][0] if e.args[1] else None)
                    if a is not None and is_const(a):
                        es.append(tuple(sorted(cval(a).split())))
                        continue
                ok = False
            if ok and pairs is not None:
                want = sorted(tuple(sorted(("-" + a, "-" + b))) for a, b in pairs if a in low)
                R.ob("lower_su2:epsilons", sorted(es) == want, w, "one-epsilon-per-lowered-index",
                     f"epsilons {sorted(es)}, expected one per lowered index {want}{sfx}")
            else:
                R.ob("lower_su2:epsilons", None, w, "one-epsilon-per-lowered-index", show(epss, 200))
            # exotic type is rebuilt with the barred/unbarred flag kept
            if field.op == "call" and field.args[0] == Term("fn", CC + "cons_completion_field"):
                kw = dict(field.args[2])
                R.same("lower_su2:is_unbarred", kw.get("is_unbarred", NONE), K(unb), w, "flag-kept",
                       given=Term("hasattr", me, "is_unbarred"))
            else:
                R.ob("lower_su2:is_unbarred", None, w, "flag-kept", show(field, 200))


def mass_terms(ctx, R):
    table = {"ComplexScalar": "self.conj", "RealScalar": "self.swap_colour_indices()",
             "MajoranaFermion": "self.majorana_partner()", "VectorLikeDiracFermion": "self.dirac_partner()"}
    for cls, partner in table.items():
        w = ctx.where("completions.core", f"{cls}.mass_term")
        got = ctx.run("completions.core", f"{cls}.mass_term").value
        want = ctx.spec("completions.core", f'''
            def f(self):
                lower, epsilons = {partner}.lower_su2()
                out = lower * self
                for e in epsilons:
                    out = out * e
                return out''', args={"self": sym("self")}, types={sym("self"): CC + cls}).value
        R.same(f"{cls}.mass_term", got, want, w, "field-times-lowered-partner-times-all-epsilons")
    # a Majorana fermion is its own charge conjugate
    w = ctx.where("completions.core", "MajoranaFermion.conj_indices")
    got = ctx.run("completions.core", "MajoranaFermion.conj_indices").value
    want = ctx.spec("completions.core", "def f(self):\n    return self.conj", args={"self": sym("self")},
                    types={sym("self"): CC + "MajoranaFermion"}).value
    R.same("MajoranaFermion.conj_indices", got, want, w, "majorana-conjugation")


PARTS = [("partners", partners), ("lower", lower), ("mass_terms", mass_terms)]
