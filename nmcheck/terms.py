"""Immutable provenance terms and their normalising constructors.

A term describes where a value comes from (which parameter, attribute, table
entry, call ...) independently of the local names, the statement order or the
loop/comprehension spelling used to compute it.  All the rules compare terms.
"""
import hashlib
from fractions import Fraction


class Term:
    """Hash-consed: structurally equal terms are one object."""
    __slots__ = ("op", "args", "_h", "_k")
    _table = {}

    def __new__(cls, op, *args):
        if op == "const" and isinstance(args[1], (float, complex)):
            # 1 == 1.0 == (1+0j) to Python, so one object stands for them
            v = args[1]
            if v == v and v == v.real and v.real.is_integer():
                args = (args[0], int(v.real))
        key = (op, args)
        t = cls._table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            t._h = hash(key)
            t._k = None
            cls._table[key] = t
        return t

    def __hash__(self):
        return self._h

    def __reduce__(self):
        return (Term, (self.op,) + tuple(self.args))

    def __repr__(self):
        return show(self)


def _ckey(v):
    """bool/int/float/Fraction constants are kept apart from each other only
    where Python keeps them apart."""
    return v


def K(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
        return Term("const", type(v).__name__, v)
    if isinstance(v, Fraction):
        if v.denominator == 1:
            return Term("const", "num", int(v))
        return Term("const", "num", v)
    if isinstance(v, (int, float, complex)):
        return Term("const", "num", v)
    if v is Ellipsis:
        return Term("const", "ellipsis", "...")
    raise TypeError(v)


NONE, TRUE, FALSE = K(None), K(True), K(False)


def is_const(t):
    return isinstance(t, Term) and t.op == "const"


def cval(t):
    return t.args[1]


def sym(name):
    return Term("sym", name)


def unknown(why):
    return Term("unknown", why)


def has_unknown(t):
    return not ops_in(t).isdisjoint(UNKNOWN_OPS)


UNKNOWN_OPS = frozenset(("unknown", "loopval", "mu"))
_ops = {}
_opsets = {}


def ops_in(t):
    """the operations occurring in a term"""
    r = _ops.get(t)
    if r is None:
        if isinstance(t, Term):
            out = {t.op}
            for a in t.args:
                if isinstance(a, (Term, tuple, frozenset)):
                    out |= ops_in(a)
            r = frozenset(out)
            r = _ops[t] = _opsets.setdefault(r, r)
        else:
            out = set()
            for a in t:
                if isinstance(a, (Term, tuple, frozenset)):
                    out |= ops_in(a)
            r = frozenset(out)
            r = _opsets.setdefault(r, r)
    return r


def subterms(t):
    out, stack, seen = [], [t], set()
    while stack:
        x = stack.pop()
        if isinstance(x, Term):
            if id(x) in seen:
                continue
            seen.add(id(x))
            out.append(x)
            stack.extend(x.args)
        elif isinstance(x, (tuple, frozenset)):
            stack.extend(x)
    return out


def rewrite(t, f, memo=None):
    """Bottom-up rewriting through the smart constructors."""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(go(y) for y in x)
        if not isinstance(x, Term):
            return x
        if x in memo:
            return memo[x]
        new = tuple(go(y) for y in x.args)
        y = x if new == x.args else rebuild(x.op, new)
        y = f(y)
        memo[x] = y
        return y

    return go(t)


def subst(t, mapping):
    return rewrite(t, lambda x: mapping.get(x, x))


def rebuild(op, args):
    c = _CTORS.get(op)
    if c is None:
        return Term(op, *args)
    return c(*args)


# ---------------------------------------------------------------- constructors

def mk_not(a):
    if is_const(a):
        return K(not cval(a))
    if a.op == "not":
        return a.args[0]
    return Term("not", a)


def is_empty_literal(t):
    return t.op in ("list", "tuple", "set", "dict") and not t.args[0]


def truth(t):
    """Known truth value of a term, or None."""
    if is_const(t):
        return bool(cval(t))
    if t.op in ("list", "tuple", "set"):
        if not t.args[0]:
            return False
        if any(e.op not in ("star",) for e in t.args[0]):
            return True
    if t.op == "dict":
        if not t.args[0]:
            return False
        if any(e.op == "pair" for e in t.args[0]):
            return True
    if t.op in ("new", "closure", "fn", "cls"):
        return True
    return None


def mk_and(*xs):
    out = []
    for x in xs:
        parts = x.args if x.op == "and" else (x,)
        for p in parts:
            tv = truth(p)
            if tv is True and p is not xs[-1]:
                continue
            if tv is False:
                out.append(p)
                break
            if p not in out:
                out.append(p)
        else:
            continue
        break
    out = [o for i, o in enumerate(out) if not (truth(o) is True and o == TRUE)]
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return Term("and", *out)


def mk_or(*xs):
    out = []
    for x in xs:
        parts = x.args if x.op == "or" else (x,)
        stop = False
        for p in parts:
            tv = truth(p)
            if tv is False and is_const(p) and p != xs[-1]:
                continue
            if p not in out:
                out.append(p)
            if tv is True:
                stop = True
                break
        if stop:
            break
    out2 = [o for o in out if o != FALSE]
    if not out2:
        return FALSE
    if len(out2) == 1:
        return out2[0]
    return Term("or", *out2)


def tkey(t):
    """A stable total order on terms (content digest)."""
    if isinstance(t, Term):
        if t._k is None:
            h = hashlib.blake2b(digest_size=12)
            h.update(t.op.encode())
            for a in t.args:
                h.update(b"\0")
                h.update(_dig(a))
            t._k = h.hexdigest()
        return t._k
    return _dig(t).decode("utf-8", "replace")


def _dig(a):
    if isinstance(a, Term):
        return tkey(a).encode()
    if isinstance(a, tuple):
        return b"(" + b",".join(_dig(x) for x in a) + b")"
    if isinstance(a, frozenset):
        return b"{" + b",".join(sorted(_dig(x) for x in a)) + b"}"
    return f"{type(a).__name__}:{a}".encode()


def mk_eq(a, b):
    if is_const(a) and is_const(b):
        return K(cval(a) == cval(b) and (a.args[0] == b.args[0] or {a.args[0], b.args[0]} <= {"num", "bool"}))
    if a == b:
        return TRUE
    if a.op in ("tuple", "list") and b.op == a.op and len(a.args[0]) == len(b.args[0]) \
            and not any(e.op == "star" for e in a.args[0] + b.args[0]):
        return mk_and(*[mk_eq(x, y) for x, y in zip(a.args[0], b.args[0])]) if a.args[0] else TRUE
    if is_const(a) and b.op in ("tuple", "list", "dict", "new", "closure"):
        return FALSE
    if is_const(b) and a.op in ("tuple", "list", "dict", "new", "closure"):
        return FALSE
    if a.op == "new" and b.op == "new" and a.args[0] == b.args[0] and a.args[0].endswith(".Index"):
        la, lb = dict(a.args[1]).get("label"), dict(b.args[1]).get("label")
        if la is not None and lb is not None and is_const(la) and is_const(lb):
            return K(cval(la) == cval(lb))
    # distribute over a phi with constant leaves
    for x, y in ((a, b), (b, a)):
        if x.op == "phi" and is_const(y):
            l = mk_eq(x.args[1], y)
            r = mk_eq(x.args[2], y)
            if is_const(l) or is_const(r):
                return mk_phi(x.args[0], l, r)
    if tkey(a) > tkey(b):
        a, b = b, a
    return Term("eq", a, b)


def mk_lt(a, b):
    if is_const(a) and is_const(b):
        try:
            return K(cval(a) < cval(b))
        except TypeError:
            pass
    return Term("lt", a, b)


def mk_in(a, b):
    if b.op in ("list", "tuple", "set", "dict"):
        if b.op == "dict":
            els = [e.args[0] for e in b.args[0] if e.op == "pair"]
            pure = all(e.op == "pair" for e in b.args[0])
        else:
            els = list(b.args[0])
            pure = all(e.op != "star" for e in els)
        if a in els and (is_const(a) or pure):
            return TRUE
        if pure:
            if all(is_const(e) for e in els):
                if is_const(a):
                    return K(any(cval(e) == cval(a) for e in els))
                if len(els) == 0:
                    return FALSE
                return Term("in", a, Term("cset", frozenset(els)))
    if b.op == "const" and is_const(a) and isinstance(cval(b), str) and isinstance(cval(a), str):
        return K(cval(a) in cval(b))
    if b.op == "cset" and is_const(a):
        return K(a in b.args[0])
    if b.op in ("as", "copy") and b.args[0] in ("list", "tuple", "set", "shallow", "deep", "iter"):
        return mk_in(a, b.args[-1])
    if b.op == "keys":
        return mk_in(a, b.args[0])
    if b.op == "values" and b.args[0].op == "dict" and all(e.op == "pair" for e in b.args[0].args[0]):
        return mk_in(a, Term("list", tuple(e.args[1] for e in b.args[0].args[0])))
    return Term("in", a, b)


def mk_phi(c, a, b):
    if a == b:
        return a
    tv = truth(c)
    if tv is True:
        return a
    if tv is False:
        return b
    if c.op == "not":
        return mk_phi(c.args[0], b, a)
    if a == TRUE and b == FALSE and is_boolish(c):
        return c
    if a == FALSE and b == TRUE:
        return mk_not(c)
    # prune nested identical conditions
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a == b:
        return a
    if is_boolish(a) and is_boolish(b):
        if b == FALSE:
            return mk_and(c, a)
        if a == TRUE:
            return mk_or(c, b)
        if b == TRUE:
            return mk_or(mk_not(c), a)
        if a == FALSE:
            return mk_and(mk_not(c), b)
    if a.op == b.op == "comp" and a.args[0] == b.args[0] and a.args[0] in ("list", "tuple", "set") and len(a.args[2]) == len(b.args[2]) == 1 \
            and a.args[2] != b.args[2]:
        # the same made of either: made of whichever it is
        x, y = a.args[2][0], b.args[2][0]
        p = Term("phi", c, x, y)
        e = mk_elem(p)
        if not any(z.op in ("items", "keys", "values", "enumerate", "zip", "comp") for z in (x, y)):
            l = [subst(t, {mk_elem(x): e}) for t in (a.args[1], a.args[3])]
            r = [subst(t, {mk_elem(y): e}) for t in (b.args[1], b.args[3])]
            if l == r and not any(z.op in ("elem", "idx", "keyof", "valof") and z.args[0] in (x, y) for t in l for z in subterms(t)):
                return Term("comp", a.args[0], l[0], (p,), l[1])
    return Term("phi", c, a, b)


def assume(t, c, val):
    """Simplify `t` knowing `c` has truth value `val` (only through phis)."""
    if t.op != "phi":
        return t
    if t.args[0] == c:
        return assume(t.args[1 if val else 2], c, val)
    return t


def is_boolish(t):
    if t.op in ("not", "eq", "lt", "in", "is", "exists", "all", "any", "isinstance"):
        return True
    if t.op == "const" and t.args[0] == "bool":
        return True
    if t.op in ("and", "or"):
        return all(is_boolish(x) for x in t.args)
    if t.op == "call" and t.args[0] in (Term("builtin", "isinstance"), Term("builtin", "bool"),
                                        Term("builtin", "hasattr"), Term("builtin", "callable")):
        return True
    return False


def mk_neg(a):
    if is_const(a) and isinstance(cval(a), (int, float, Fraction, complex)):
        return K(-cval(a))
    if a.op == "neg":
        return a.args[0]
    if a.op == "mul" and is_const(a.args[0]):
        return mk_mul(K(-cval(a.args[0])), a.args[1])
    return Term("neg", a)


def _num(t):
    return is_const(t) and isinstance(cval(t), (int, float, Fraction, complex))


def mk_add(a, b):
    if _num(a) and _num(b):
        return K(cval(a) + cval(b))
    if is_const(a) and is_const(b) and isinstance(cval(a), str) and isinstance(cval(b), str):
        return K(cval(a) + cval(b))
    if a.op in ("list", "tuple") and b.op == a.op:
        return Term(a.op, a.args[0] + b.args[0])
    if is_stringish(a) or is_stringish(b):
        return mk_concat((a, b))
    if _num(a) and cval(a) == 0 and not isinstance(cval(a), bool) and not is_seqish(b):
        return b
    if _num(b) and cval(b) == 0:
        return a
    if is_seqish(a) or is_seqish(b):
        if a.op == "list" and not a.args[0]:
            return b if is_seqish(b) and b.op != "as" else Term("seqcat", (a, b))
        return Term("seqcat", (a.args[0] if a.op == "seqcat" else (a,)) + (b.args[0] if b.op == "seqcat" else (b,)))
    return Term("add", a, b)


def mk_sub(a, b):
    if _num(a) and _num(b):
        return K(cval(a) - cval(b))
    if _num(a) and cval(a) == 0:
        return mk_neg(b)
    return Term("sub", a, b)


def mk_mul(a, b):
    if _num(a) and _num(b):
        return K(cval(a) * cval(b))
    for x, y in ((a, b), (b, a)):
        if _num(x) and cval(x) == 1:
            return y
        if _num(x) and cval(x) == -1:
            return mk_neg(y)
        if is_const(x) and isinstance(cval(x), (str,)) and _num(y) and isinstance(cval(y), int):
            return K(cval(x) * cval(y))
        if x.op in ("list", "tuple") and _num(y) and isinstance(cval(y), int) and 0 <= cval(y) <= 64:
            return Term(x.op, x.args[0] * cval(y))
    if _num(b) and not _num(a):
        a, b = b, a
    if is_matrix(a) and is_matrix(b):
        return Term("matmul", (a.args[0] if a.op == "matmul" else (a,)) + (b.args[0] if b.op == "matmul" else (b,)))
    return Term("mul", a, b)


def is_matrix(t):
    """A matrix: its product does not commute."""
    if t.op == "phi":
        return is_matrix(t.args[1]) and is_matrix(t.args[2])
    if t.op == "call" and t.args[0].op == "ext":
        return t.args[0].args[0].split(".")[-1] in ("matrix", "Matrix", "ImmutableMatrix", "asmatrix")
    return t.op == "matmul" or t.op == "neg" and is_matrix(t.args[0])


def is_stringish(t):
    if t.op == "phi":
        return is_stringish(t.args[1]) and is_stringish(t.args[2])
    return (is_const(t) and isinstance(cval(t), str)) or t.op in ("concat", "str", "fmt", "sjoin", "strm", "repr") or is_text(t)


# attributes that hold text throughout the package
TEXT_ATTRS = ("dynkin", "label", "label_with_dagger")


def is_text(t):
    """known to be text without being put together here"""
    while t.op in ("item", "slice", "elem", "rev") and t.args:
        if t.op == "item" and t.args[0].op == "call" and t.args[0].args[0].op == "method" and t.args[0].args[0].args[0] in ("split", "rsplit", "splitlines", "partition"):
            return True
        t = t.args[0]
        if not isinstance(t, Term):
            return False
    if t.op == "call" and t.args[0].op == "method":
        return t.args[0].args[0] in ("lower", "upper", "strip", "lstrip", "rstrip", "replace") 
    return t.op == "attr" and t.args[1] in TEXT_ATTRS or t.op == "repr"


def is_seqish(t):
    if t.op == "phi":
        return is_seqish(t.args[1]) and is_seqish(t.args[2])
    if t.op == "mul":
        return any(x.op in ("list", "tuple") for x in t.args)
    return t.op in ("list", "tuple", "seqcat", "comp", "as", "rev", "sorted")


def mk_seqcat(parts):
    """One sequence after the other: literal stretches merged, [*a, b] as a + [b]."""
    out = []

    def lit(es):
        if not es:
            return
        if out and out[-1].op == "list" and not any(e.op == "star" for e in out[-1].args[0]):
            out[-1] = Term("list", out[-1].args[0] + tuple(es))
        else:
            out.append(Term("list", tuple(es)))
    for p in parts:
        if p.op == "seqcat":
            for q in p.args[0]:
                lit(q.args[0]) if q.op in ("list", "tuple") else out.append(q)
        elif p.op in ("list", "tuple"):
            run = []
            for e in p.args[0]:
                if e.op == "star" and isinstance(e.args[0], Term):
                    lit(run)
                    run = []
                    x = e.args[0]
                    for q in (x.args[0] if x.op == "seqcat" else (x,)):
                        lit(q.args[0]) if q.op in ("list", "tuple") else out.append(q)
                else:
                    run.append(e)
            lit(run)
        else:
            out.append(p)
    if not out:
        return Term("list", ())
    if len(out) == 1 and out[0].op in ("list", "comp", "sorted", "as", "rev", "slice", "attr", "sym", "elem", "items", "keys", "values"):
        return out[0]
    return Term("seqcat", tuple(out))


def mk_concat(parts):
    out = []
    for p in parts:
        ps = p.args[0] if p.op == "concat" else (p,)
        for q in ps:
            if q.op == "str" and is_const(q.args[0]):
                q = K(str(cval(q.args[0])))
            if is_const(q) and isinstance(cval(q), str):
                if cval(q) == "":
                    continue
                if out and is_const(out[-1]) and isinstance(cval(out[-1]), str):
                    out[-1] = K(cval(out[-1]) + cval(q))
                    continue
            out.append(q)
    if not out:
        return K("")
    if len(out) == 1:
        return out[0]
    return Term("concat", tuple(out))


def mk_str(x):
    if is_const(x):
        v = cval(x)
        return K(str(v))
    if x.op == "new" and x.args[0].endswith(".Index"):
        # an index prints as its label (sympy TensorIndex printing)
        l = dict(x.args[1]).get("label")
        if l is not None:
            return mk_str(l)
    if x.op in ("str", "concat", "sjoin", "strm"):
        return x
    if x.op == "phi" and (is_stringish(x.args[1]) or is_stringish(x.args[2])):
        return mk_phi(x.args[0], mk_str(x.args[1]), mk_str(x.args[2]))
    return Term("str", x)


def mk_attr(base, name):
    if base.op == "phi":
        l, r = base.args[1], base.args[2]
        if l.op in ("new",) or r.op in ("new",):
            return mk_phi(base.args[0], mk_attr(l, name), mk_attr(r, name))
    if base.op == "new":
        d = dict(base.args[1])
        if name in d:
            return d[name]
    return Term("attr", base, name)


def strip_copy(t):
    """Drop copy/list/tuple wrappers: value identity, not aliasing."""
    def f(x):
        if x.op in ("copy", "as"):
            return x.args[-1]
        return x
    return rewrite(t, f)


def mk_copy(kind, x):
    if is_const(x):
        return x
    if x.op == "copy":
        return Term("copy", "deep" if "deep" in (kind, x.args[0]) else kind, x.args[1])
    return Term("copy", kind, x)


def mk_as(kind, x):
    if x.op in ("list", "tuple", "set") and kind in ("list", "tuple", "set"):
        if kind == x.op:
            return x
        if kind in ("list", "tuple") and x.op in ("list", "tuple"):
            return Term(kind, x.args[0])
        if kind == "set":
            return Term("set", x.args[0])
    if x.op == "as":
        if x.args[0] == kind:
            return x
        if x.args[0] in ("list", "tuple") and kind in ("list", "tuple"):
            return mk_as(kind, x.args[1])
    if x.op == "comp" and kind in ("list", "tuple") and x.args[0] in ("list", "gen", "tuple"):
        return Term("comp", kind if kind != "tuple" else "tuple", *x.args[1:])
    if x.op == "comp" and kind == "set" and x.args[0] in ("list", "gen", "set", "tuple"):
        return Term("comp", "set", *x.args[1:])
    return Term("as", kind, x)


def mk_rev(x):
    if x.op == "rev":
        return x.args[0]
    if is_const(x) and isinstance(cval(x), str):
        return K(cval(x)[::-1])
    if x.op in ("tuple", "list") and not any(e.op == "star" for e in x.args[0]):
        return Term(x.op, tuple(reversed(x.args[0])))
    if x.op == "as" and x.args[0] in ("list", "tuple"):
        return mk_as(x.args[0], mk_rev(x.args[1]))
    return Term("rev", x)


def mk_slice(base, *a):
    if len(a) == 3 and a[1].op in ("add*", "sub", "add"):
        # xs[:len(xs) - 1] is xs[:-1]
        h = a[1]
        n = mk_len(base)
        if h.op == "add*" and set(h.args[0]) == {n, K(-1)} and len(h.args[0]) == 2 or h.op == "sub" and h.args == (n, K(1)) or \
                h.op == "add" and set(h.args) == {n, K(-1)}:
            a = (a[0], K(-1), a[2])
    if len(a) == 3 and a[0] in (NONE, K(0)) and a[2] in (NONE, K(1)) and a[1] in (NONE, mk_len(base)) and is_seqish(base):
        return base
    if len(a) == 3 and a[0] in (NONE, K(0)) and a[2] in (NONE, K(1)) and a[1] == mk_len(base):
        return base
    if base.op == "comp" and base.args[0] in ("list", "tuple") and len(base.args[2]) == 1 and base.args[3] == TRUE \
            and base.args[2][0].op not in ("items", "keys", "values") \
            and not any(x.op == "idx" for x in subterms(base.args[1])):
        # [e(x) for x in xs][a:b] is [e(x) for x in xs[a:b]]
        xs = base.args[2][0]
        n = [x for x in subterms(base.args[1]) if x.op == "elem" and x.args[0] == xs]
        if len(set(n)) <= 1:
            ys = Term("slice", xs, *a)
            return Term("comp", base.args[0], subst(base.args[1], {x: Term("elem", ys, *x.args[1:]) for x in n}), (ys,), TRUE)
    return Term("slice", base, *a)


def mk_item(base, key):
    if base.op in ("tuple", "list") and is_const(key) and isinstance(cval(key), int) \
            and not isinstance(cval(key), bool):
        els = base.args[0]
        k = cval(key)
        n = len(els)
        if not any(e.op == "star" for e in els):
            if -n <= k < n:
                return els[k]
        elif k >= 0 and not any(e.op == "star" for e in els[: k + 1]) and k < n:
            return els[k]
        elif k < 0 and not any(e.op == "star" for e in els[k:]) and -k <= n:
            return els[k]
    if base.op == "dict":
        res = None
        for e in reversed(base.args[0]):
            if e.op == "pair":
                if e.args[0] == key:
                    res = e.args[1]
                    break
                if is_const(e.args[0]) and is_const(key):
                    continue
                break
            break
        if res is not None:
            return res
    if base.op == "const" and isinstance(cval(base), str) and is_const(key) and isinstance(cval(key), int):
        try:
            return K(cval(base)[cval(key)])
        except IndexError:
            pass
    if base.op == "phi" and (base.args[1].op in ("tuple", "list", "dict") or base.args[2].op in ("tuple", "list", "dict")):
        return mk_phi(base.args[0], mk_item(base.args[1], key), mk_item(base.args[2], key))
    if key.op == "idx" and strip_as(key.args[0]) == strip_as(base):
        return mk_elem(key.args[0], key.args[1])
    if key.op == "idx" and key.args[1] == 0 and base.op == "comp" and base.args[0] in ("list", "gen", "tuple") \
            and len(base.args[2]) == 1 and base.args[3] == TRUE and strip_as(base.args[2][0]) == strip_as(key.args[0]):
        # [e(x) for x in xs][i] for a running index i of xs
        return base.args[1]
    if key.op in ("keyof", "elem") and strip_as(key.args[0]) == strip_as(base) and key.op == "keyof":
        return Term("valof", base, key.args[1])
    if key.op == "elem" and key.args[0] == base:
        return Term("valof", base, key.args[1])
    if base.op in ("copy",) :
        return mk_item(base.args[1], key)
    if base.op == "comp" and base.args[0] in ("list", "tuple") and len(base.args[2]) == 1 and base.args[3] == TRUE and is_const(key) \
            and isinstance(cval(key), int) and base.args[2][0].op not in ("items", "keys", "values"):
        # [e(x) for x in xs][3] is e(xs[3])
        xs = base.args[2][0]
        n = {x for x in subterms(base.args[1]) if x.op in ("elem", "idx") and x.args[0] == xs}
        if len(n) <= 1 and not any(x.op == "idx" for x in n):
            return subst(base.args[1], {x: mk_item(xs, key) for x in n})
    if base.op == "as" and base.args[0] in ("list", "tuple"):
        return mk_item(base.args[1], key)
    if base.op == "dcomp" and base.args[3] == TRUE and base.args[0].op == "keyof" and len(base.args[2]) == 1:
        # {k: e(v) for k, v in m.items()}[key] is e(m[key])
        m, n = base.args[0].args
        v = Term("valof", m, n)
        if base.args[2][0] in (Term("items", m), m) and v in subterms(base.args[1]):
            return subst(base.args[1], {base.args[0]: key, v: mk_item(m, key)})
    if base.op == "rev" and is_const(key) and isinstance(cval(key), int):
        return mk_item(base.args[0], K(-1 - cval(key)))
    if base.op == "sorted" and base.args[0].op in ("list", "tuple") and len(base.args[0].args[0]) == 2 and base.args[1:] == (NONE, FALSE) \
            and is_const(key) and type(cval(key)) is int and cval(key) in (0, 1) and not any(e.op == "star" for e in base.args[0].args[0]):
        # of two, the lesser and the other
        a, b = base.args[0].args[0]
        return mk_phi(mk_lt(b, a), *((b, a) if cval(key) == 0 else (a, b)))
    if base.op == "slice" and len(base.args) == 4 and base.args[3] in (NONE, K(1)) and is_const(key) and type(cval(key)) is int \
            and all(is_const(a) and (cval(a) is None or type(cval(a)) is int) for a in base.args[1:3]):
        lo, hi, k = cval(base.args[1]) or 0, cval(base.args[2]), cval(key)
        # xs[2:][1] is xs[3]: both there, or neither
        if lo >= 0 and k >= 0 and (hi is None or hi >= 0 and lo + k < hi):
            return mk_item(base.args[0], K(lo + k))
        if k < 0 and hi is None and lo == 0:
            return mk_item(base.args[0], key)
        if k < 0 and hi is not None and hi < 0 and lo == 0:
            return mk_item(base.args[0], K(hi + k))
    return Term("item", base, key)


def strip_as(x):
    while x.op in ("as", "copy"):
        x = x.args[-1]
    return x


def mk_elem(it, n=0):
    """Generic element of an iterable (n disambiguates nested loops over the
    same iterable)."""
    x = it
    while x.op in ("as", "copy") or (x.op == "sorted" and False):
        if x.op == "as" and x.args[0] not in ("list", "tuple", "iter"):
            break
        x = x.args[-1]
    if x.op == "items":
        return Term("tuple", (Term("keyof", x.args[0], n), Term("valof", x.args[0], n)))
    if x.op == "keys":
        return Term("keyof", x.args[0], n)
    if x.op == "values":
        return Term("valof", x.args[0], n)
    if x.op == "zip":
        return Term("tuple", tuple(mk_elem(y, n) for y in x.args[0]))
    if x.op == "enumerate":
        return Term("tuple", (Term("idx", x.args[0], n), mk_elem(x.args[0], n)))
    if x.op == "range" and x.args[0] == K(0) and x.args[1].op == "len" and x.args[2] == K(1):
        return Term("idx", x.args[1].args[0], n)
    if x.op == "rev":
        return Term("elem", x, n)
    if x.op == "comp" and x.args[0] in ("list", "gen", "tuple") and len(x.args[2]) == 1 and x.args[3] == TRUE:
        # generic element of [e(x) for x in xs] is e(generic element of xs)
        if n == 0:
            return x.args[1]
    return Term("elem", x, n)


def mk_len(x):
    if x.op in ("list", "tuple") and not any(e.op == "star" for e in x.args[0]):
        return K(len(x.args[0]))
    if is_const(x) and isinstance(cval(x), str):
        return K(len(cval(x)))
    if x.op in ("as", "copy") and x.args[0] in ("list", "tuple", "shallow", "deep"):
        return mk_len(x.args[-1])
    if x.op in ("items", "keys", "values", "sorted", "rev", "enumerate") and x.args and isinstance(x.args[0], Term):
        return mk_len(x.args[0])
    if x.op == "comp" and x.args[0] in ("list", "tuple", "gen"):
        if len(x.args[2]) == 1 and x.args[3] == TRUE:
            return mk_len(x.args[2][0])
        if x.args[1] != K(1):
            return Term("len", Term("comp", "list", K(1), *x.args[2:]))
    return Term("len", x)


_CTORS = {
    "not": mk_not, "and": mk_and, "or": mk_or, "eq": mk_eq, "lt": mk_lt, "in": mk_in,
    "phi": mk_phi, "neg": mk_neg, "add": mk_add, "sub": mk_sub, "mul": mk_mul,
    "str": mk_str, "concat": mk_concat, "attr": mk_attr, "item": mk_item, "as": mk_as,
    "copy": mk_copy, "rev": mk_rev, "len": mk_len, "elem": mk_elem, "slice": mk_slice, "seqcat": mk_seqcat,
}


# ---------------------------------------------------------------------- leaves

def leaves(t, gate=()):
    """Gated alternatives of a phi tree: [(gate tuple, leaf)]."""
    if t.op == "phi":
        c, a, b = t.args
        return leaves(a, gate + (c,)) + leaves(b, gate + (mk_not(c),))
    return [(gate, t)]


def conj_atoms(t):
    return list(t.args) if t.op == "and" else [t]


# ------------------------------------------------------- propositional helpers

def _atoms(t, out):
    if t.op in ("and", "or", "not"):
        for a in t.args:
            _atoms(a, out)
    elif t.op == "phi" :
        for a in t.args:
            _atoms(a, out)
    elif t in (TRUE, FALSE):
        pass
    elif t not in out:
        out.append(t)


def _ev(t, env):
    if t == TRUE:
        return True
    if t == FALSE:
        return False
    if t in env:
        return env[t]
    if t.op == "not":
        return not _ev(t.args[0], env)
    if t.op == "and":
        return all(_ev(a, env) for a in t.args)
    if t.op == "or":
        return any(_ev(a, env) for a in t.args)
    if t.op == "phi":
        return _ev(t.args[1], env) if _ev(t.args[0], env) else _ev(t.args[2], env)
    return env[t]


def prop_equiv(a, b, limit=12):
    """True/False: equal / different as boolean functions of their atoms; None
    when there are too many atoms to tabulate."""
    at = []
    _atoms(a, at)
    _atoms(b, at)
    if len(at) > limit:
        return None
    for m in range(1 << len(at)):
        env = {x: bool(m >> i & 1) for i, x in enumerate(at)}
        if _ev(a, env) != _ev(b, env):
            return False
    return True


def prop_implies(a, b, limit=12):
    at = []
    _atoms(a, at)
    _atoms(b, at)
    if len(at) > limit:
        return None
    for m in range(1 << len(at)):
        env = {x: bool(m >> i & 1) for i, x in enumerate(at)}
        if _ev(a, env) and not _ev(b, env):
            return False
    return True


# ------------------------------------------------------------------- rendering

def repr_full(t):
    return show(t, 10 ** 9)


_left = [0]


def show(t, budget=400):
    old, _left[0] = _left[0], budget + 20
    try:
        s = _show(t)
    finally:
        _left[0] = old
    return s if len(s) <= budget else s[: budget - 3] + "..."


def _seq(xs):
    out = []
    for x in xs:
        out.append(_show(x))
        if _left[0] < 0:
            break
    return ", ".join(out)


def _show(t):
    _left[0] -= 1
    if _left[0] < 0:
        return "…"
    if isinstance(t, tuple):
        return "(" + _seq(t) + ")"
    if isinstance(t, frozenset):
        return "{" + ", ".join(sorted(_show(x) for x in t)) + "}"
    if not isinstance(t, Term):
        return str(t)
    o, a = t.op, t.args
    if o == "const":
        return repr(a[1]) if not isinstance(a[1], Fraction) else str(a[1])
    if o == "sym":
        return a[0]
    if o == "attr":
        return f"{_show(a[0])}.{a[1]}"
    if o == "item":
        return f"{_show(a[0])}[{_show(a[1])}]"
    if o in ("list", "set"):
        return ("[%s]" if o == "list" else "{%s}") % _seq(a[0])
    if o == "tuple":
        return "(%s)" % _seq(a[0])
    if o == "star":
        return "*" + _show(a[0])
    if o == "pair":
        return f"{_show(a[0])}: {_show(a[1])}"
    if o == "dict":
        return "{%s}" % _seq(a[0])
    if o == "comp":
        g = "" if a[3] == TRUE else " if " + _show(a[3])
        return f"<{a[0]}: {_show(a[1])} for {_seq(a[2])}{g}>"
    if o == "dcomp":
        g = "" if a[3] == TRUE else " if " + _show(a[3])
        return f"<dict: {_show(a[0])}: {_show(a[1])} for {_seq(a[2])}{g}>"
    if o == "elem":
        return f"each({_show(a[0])}{'' if a[1] == 0 else '#%d' % a[1]})"
    if o in ("keyof", "valof", "idx"):
        return f"{o}({_show(a[0])}{'' if a[1] == 0 else '#%d' % a[1]})"
    if o == "phi":
        return f"({_show(a[1])} if {_show(a[0])} else {_show(a[2])})"
    if o in ("and", "or"):
        return "(" + f" {o} ".join(_show(x) for x in a) + ")"
    if o == "not":
        return "not " + _show(a[0])
    if o in ("eq", "lt", "in", "add", "sub", "mul", "mod", "floordiv", "div", "pow", "is"):
        sg = dict(eq="==", lt="<", add="+", sub="-", mul="*", mod="%", floordiv="//", div="/", pow="**").get(o, o)
        return f"({_show(a[0])} {sg} {_show(a[1])})"
    if o == "neg":
        return "-" + _show(a[0])
    if o == "call":
        kw = ", ".join(f"{k}={_show(v)}" for k, v in a[2])
        ar = _seq(a[1])
        return f"{_show(a[0])}({ar}{', ' if ar and kw else ''}{kw})"
    if o == "new":
        return f"new {a[0].split('.')[-1]}(" + ", ".join(f"{k}={_show(v)}" for k, v in a[1]) + ")"
    if o in ("fn", "cls", "ext", "builtin", "global", "attr_m", "mod"):
        return ".".join(str(x) for x in a)
    if o == "concat":
        return "$\"" + "".join(cval(p) if is_const(p) else "{%s}" % _show(p) for p in a[0]) + "\""
    return f"{o}({_seq(a)})"
