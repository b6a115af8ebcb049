"""Shared vocabulary of the rules."""
from ..terms import *
from ..terms import Term, leaves, has_unknown, show, subterms
from ..same import same, norm

PK = "neutrinomass."
CORE = PK + "tensormethod.core."
CC = PK + "completions.core."

FIELD_PROPS = (
    "dynkin_ints", "lorentz_irrep", "sm_irrep", "colour_irrep", "isospin_irrep", "label_with_dagger", "y",
    "is_scalar", "is_boson", "is_fermion", "is_left_fermion", "is_right_fermion", "is_vector", "quantum_numbers",
    "get_lorentz_index_types", "get_index_types", "get_index_labels", "get_tensor_index_types", "get_sm_index_types",
    "get_dynkin_labels",
)
FIELD_INLINE = tuple(CORE + "Field." + x for x in FIELD_PROPS) + tuple(CORE + "Index." + x for x in FIELD_PROPS)


def obj(cls, **attrs):
    return Term("new", cls, tuple(sorted(attrs.items())))


def s(name):
    return sym(name)


def charges(y=None, b=None):
    return Term("dict", (Term("pair", K("y"), y or sym("$y")), Term("pair", K("3b"), b or sym("$3b"))))


def attrs_of(t):
    """attribute map of a `new` term"""
    return dict(t.args[1]) if t.op == "new" else None


def cls_of(t):
    return t.args[0] if t.op == "new" else None


def dictmap(t):
    t = norm(t)
    if t.op != "dict" or not all(e.op == "pair" for e in t.args[0]):
        return None
    return {e.args[0]: e.args[1] for e in t.args[0]}


FIELD_ATTRS = ("label", "dynkin", "charges", "is_conj", "comm", "symmetry", "history", "multiplicity", "latex", "nf",
               "derivs", "stripped")
INDEXED_ATTRS = ("label", "indices", "charges", "is_conj", "comm", "symmetry", "latex", "nf", "derivs", "stripped")
