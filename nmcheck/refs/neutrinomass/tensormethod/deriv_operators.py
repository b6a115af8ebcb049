import sympy
from typing import List, Dict
from itertools import groupby
from string import ascii_lowercase
from sympy import Function
from sympy import symbols
from sympy.abc import X
from neutrinomass.tensormethod.core import Field, Operator
from neutrinomass.tensormethod.contract import invariants
from neutrinomass.tensormethod.parse_hs import parse
D = symbols('D')
H, Hd, L, Ld, Q, Qd = symbols('H Hd L Ld Q Qd', cls=Function)
eb, ebd, ub, ubd, db, dbd = symbols('eb ebd ub ubd db dbd', cls=Function)
G, Gb, W, Wb, B, Bb = symbols('G Gb W Wb B Bb', cls=Function)
deriv_operator_names = {'1': D * L(X) ** 2 * db(X) * ubd(X), '2': D ** 2 * L(X) ** 2 * H(X) ** 2, '3': D * L(X) * ebd(X) * H(X) ** 3, '4': D ** 2 * L(X) ** 3 * eb(X) * H(X), '5': D * L(X) ** 3 * H(X) ** 2 * Ld(X), '6': D * L(X) ** 2 * H(X) ** 2 * eb(X) * ebd(X), '7': D ** 2 * L(X) ** 2 * Q(X) * db(X) * H(X), '8': D * L(X) ** 2 * Q(X) * H(X) ** 2 * Qd(X), '9': D * L(X) ** 2 * db(X) * H(X) ** 2 * dbd(X), '10': D * L(X) ** 2 * db(X) * H(X) * ubd(X) * Hd(X), '11': D ** 3 * L(X) ** 2 * db(X) * ubd(X), '12': D * L(X) ** 2 * ub(X) * H(X) ** 2 * ubd(X), '13': D ** 2 * L(X) ** 2 * H(X) * Qd(X) * ubd(X), '14': D * L(X) * Q(X) * db(X) * H(X) ** 2 * ebd(X), '15': D ** 2 * L(X) * db(X) * H(X) * ebd(X) * ubd(X), '16': D * L(X) * H(X) ** 2 * ebd(X) * Qd(X) * ubd(X), '17': D * db(X) * H(X) ** 2 * ebd(X) ** 2 * ubd(X), '18': D ** 2 * L(X) ** 2 * H(X) ** 3 * Hd(X), '19': D ** 4 * L(X) ** 2 * H(X) ** 2, '20': D * L(X) * ebd(X) * Hd(X) * H(X) ** 4, '21': D ** 3 * L(X) * H(X) ** 3 * ebd(X), '22': D ** 2 * ebd(X) ** 2 * H(X) ** 4}

def remove_unwanted_deriv_structures(fieldstrings: List[Field]) -> List[Field]:
    out = []
    for fieldstring in fieldstrings:
        for field in fieldstring:
            if field.derivs and field.lorentz_irrep not in ((1, 1), (0, 1), (1, 0)):
                break
            if field.derivs == 2:
                break
        else:
            out.append(fieldstring)
            continue
    return out

def keep_longest_invariants(fieldstrings: List[Field]) -> List[Operator]:
    longest_len = 0
    longest = None
    for fieldstring in fieldstrings:
        invs = invariants(*fieldstring)
        if len(invs) > longest_len:
            longest_len = len(invs)
            longest = invs
    if longest is None:
        return []
    return longest

def longest_deriv_invariants(operator_dict: Dict[str, sympy.mul.Mul]) -> Dict[str, List[Operator]]:
    out = {}
    for k, v in operator_dict.items():
        fieldstrings = remove_unwanted_deriv_structures(parse([v]))
        out[k] = keep_longest_invariants(fieldstrings)
    return out

def label_operators(operator_dict: Dict[str, List[Operator]]) -> Dict[str, List[Operator]]:
    out = {}
    for k, v in operator_dict.items():
        for i, op in enumerate(v):
            label = k + ascii_lowercase[i] if len(v) > 1 else k
            out[label] = op
    return out
