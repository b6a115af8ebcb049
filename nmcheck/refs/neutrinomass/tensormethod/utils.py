import string
from sympy.core.numbers import Zero
TEX_GREEK_LOWERCASE = ['\\alpha', '\\beta', '\\gamma', '\\delta', '\\epsilon', '\\zeta', '\\eta', '\\theta', '\\iota', '\\kappa', '\\lambda', '\\mu', '\\nu', '\\xi', '\\pi', '\\rho', '\\sigma', '\\tau', '\\upsilon', '\\phi', '\\chi', '\\psi', '\\omega']
DOTTED_TEX_GREEK_LOWERCASE = [f'\\dot{{{a}}}' for a in TEX_GREEK_LOWERCASE]

def is_deriv_in(coll: list):
    for f in coll:
        if str(f)[0] == 'D':
            return True
    return False

def is_fieldstrength_in(coll: list):
    first = lambda f: str(f).split('D')[-1][0]
    for f in coll:
        if first(f) == 'B' or first(f) == 'G' or first(f) == 'W':
            return True
    return False

def is_linear_in_deriv(coll: list):
    if is_fieldstrength_in(coll):
        return False
    fields_string = ' '.join((str(f) for f in coll))
    return fields_string.count('D') == 1

def strip_parens(s: str):
    if s[0] == '(' and s[-1] == ')':
        return s[1:-1]
    return s

def repr_tree(expr, string='', spaces=2):
    space = spaces * ' '
    if not isinstance(expr, tuple):
        return expr.__repr__()
    node, left, right = expr
    string += node.__repr__() + '\n'
    string += space + repr_tree(right, spaces=spaces + 2) + '\n'
    string += space + repr_tree(left, spaces=spaces + 2)
    return string

def to_tex(label):
    char = str(label)[0]
    if char in string.ascii_letters:
        return label
    greek = 'αβγδεζηθικλμνξπρστυφχψω'
    d = dict(zip(greek, TEX_GREEK_LOWERCASE))
    return d[char]

def safe_nocoeff(expr):
    if isinstance(expr, Zero) or isinstance(expr, int):
        return 0
    return expr.nocoeff
