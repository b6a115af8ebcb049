"""Case-split equality of provenance terms.

Two terms are compared under every consistent case of the branch conditions
that occur in them (conditions about one subject and constants - x == "a",
x in {...}, x < 3 - are grouped into the finitely many regions they cut out).
The result is True, False (with the distinguishing case) or None when a term
contains something the dataflow summary does not know."""
from fractions import Fraction

from .terms import *
from .terms import Term, strip_copy

_canon_memo = {}
_norm_memo = {}


def expand_in(t):
    """x in {consts}  ->  x == c1 or x == c2 ..."""
    if t.op == "in" and t.args[1].op == "cset":
        cs = sorted(t.args[1].args[0], key=tkey)
        return mk_or(*[mk_eq(t.args[0], c) for c in cs])
    if t.op == "in":
        c = t.args[1]
        while c.op == "as" and c.args[0] in ("set", "frozenset", "list", "tuple"):
            c = c.args[1]
        if c.op == "comp" and c.args[0] in ("set", "tuple", "gen"):
            c = Term("comp", "list", *c.args[1:])
        return Term("in", t.args[0], c) if c != t.args[1] else t
    return t


def test_of(t):
    """The comparison that a number or collection tested as such stands for."""
    if t.op == "truthy":
        return test_of(t.args[0])
    if t.op == "not":
        return mk_not(test_of(t.args[0]))
    k = test_kind(t)
    return mk_not(mk_eq(t if k == "num" else mk_len(t), K(0))) if k else t


def _is_num(t):
    return is_const(t) and isinstance(cval(t), (int, float, Fraction)) and not isinstance(cval(t), bool)


def atom_subject(t):
    """('eq', subject, const) / ('lt', subject, const) / ('gt', ...) or None"""
    if t.op == "eq":
        a, b = t.args
        if is_const(b) and not is_const(a):
            return ("eq", a, b)
        if is_const(a) and not is_const(b):
            return ("eq", b, a)
    if t.op == "lt":
        a, b = t.args
        if _is_num(b) and not is_const(a):
            return ("lt", a, b)
        if _is_num(a) and not is_const(b):
            return ("gt", b, a)
    return None


def difference(t):
    """x - y: the test x == y"""
    if t.op == "add*" and len(t.args[0]) == 2:
        p, q = t.args[0]
        if p.op == "neg":
            p, q = q, p
        if q.op == "neg" and p.op != "neg" and not is_const(p):
            return mk_eq(p, q.args[0])
    return None


INT_OPS = ("len", "int")


def is_integral(t):
    if t.op in INT_OPS:
        return True
    if is_const(t):
        return isinstance(cval(t), int)
    if t.op == "attr" and t.args[1] in ("derivs", "nf"):
        return True
    if t.op == "fold" and t.args[0] == "add":
        return is_integral(t.args[1]) and is_integral(t.args[2])
    if t.op in ("add", "mul", "sub"):
        return all(is_integral(x) for x in t.args)
    if t.op == "mod_":
        return is_const(t.args[1]) and isinstance(cval(t.args[1]), int)    # remainders are only taken of whole numbers here
    return False


class Cases:
    def __init__(self, atoms):
        self.subjects = {}   # subject -> [consts]
        self.free = []
        for a in atoms:
            s = atom_subject(a)
            if s is None:
                if a not in self.free:
                    self.free.append(a)
            else:
                self.subjects.setdefault(s[1], [])
                if s[2] not in self.subjects[s[1]]:
                    self.subjects[s[1]].append(s[2])
        self.regions = []
        for subj, cs in self.subjects.items():
            nums = sorted({cval(c) for c in cs if _is_num(c)})
            others = [c for c in cs if not _is_num(c)]
            regs = [("const", c) for c in others]
            if {c for c in others if c.args[0] == "bool"} == {TRUE, FALSE} and not nums and len(others) == 2:
                pass
            else:
                if nums:
                    integral = is_integral(subj)
                    nonneg = subj.op == "len" or (subj.op == "attr" and subj.args[1] in ("derivs", "nf")) \
                        or (subj.op == "fold" and integral)
                    lo = -1 if nonneg else None
                    prev = lo
                    for n in nums:
                        if prev is None or not integral or n - prev > 1:
                            if not (nonneg and n <= 0):
                                regs.append(("range", prev, n))
                        regs.append(("num", n))
                        prev = n
                    regs.append(("range", prev, None))
                if others:
                    regs.append(("other", tuple(sorted(cs, key=tkey))))
            self.regions.append((subj, regs))
        n = 1
        for _, r in self.regions:
            n *= max(1, len(r))
        n *= 2 ** len(self.free)
        self.size = n

    def __iter__(self):
        def rec(i, env):
            if i == len(self.regions):
                for m in range(1 << len(self.free)):
                    fe = {a: bool(m >> j & 1) for j, a in enumerate(self.free)}
                    if consistent(fe):
                        yield env, fe
                return
            subj, regs = self.regions[i]
            for r in regs:
                e2 = dict(env)
                e2[subj] = r
                yield from rec(i + 1, e2)
        yield from rec(0, {})


def consistent(fe):
    # a < b and b < a, a == b ...
    for a, v in fe.items():
        if not v:
            continue
        if a.op == "lt":
            if fe.get(Term("lt", a.args[1], a.args[0])) or fe.get(mk_eq(a.args[0], a.args[1])):
                return False
    return True


def atom_value(a, env, fe):
    if a == TRUE:
        return True
    if a == FALSE:
        return False
    s = atom_subject(a)
    if s is None:
        return fe.get(a)
    kind, subj, c = s
    r = env.get(subj)
    if r is None:
        return None
    if r[0] == "const":
        if kind == "eq":
            return r[1] == c
        return False
    if r[0] == "other":
        return False
    if r[0] == "num":
        v = cval(c)
        if not _is_num(c):
            return False
        return {"eq": r[1] == v, "lt": r[1] < v, "gt": r[1] > v}[kind]
    if r[0] == "range":
        if not _is_num(c):
            return False
        lo, hi, v = r[1], r[2], cval(c)
        if kind == "eq":
            return False
        if kind == "lt":
            return hi is not None and hi <= v
        return lo is not None and lo >= v
    return None


BOOLOPS = ("and", "or", "not")


def bool_atoms(c, out):
    c = test_of(expand_in(c))
    if c.op in BOOLOPS:
        for a in c.args:
            bool_atoms(a, out)
    elif c.op == "phi":
        for a in c.args:
            bool_atoms(a, out)
    elif c.op == "const":
        pass
    elif c not in out:
        out.append(c)


def bool_eval(c, env, fe):
    c = test_of(expand_in(c))
    if c.op == "const":
        return bool(cval(c))
    if c.op == "not":
        v = bool_eval(c.args[0], env, fe)
        return None if v is None else not v
    if c.op == "and":
        vs = [bool_eval(a, env, fe) for a in c.args]
        return False if False in vs else None if None in vs else True
    if c.op == "or":
        vs = [bool_eval(a, env, fe) for a in c.args]
        return True if True in vs else None if None in vs else False
    if c.op == "phi":
        v = bool_eval(c.args[0], env, fe)
        return None if v is None else bool_eval(c.args[1 if v else 2], env, fe)
    tv = truth(c)
    if tv is not None:
        return tv
    return atom_value(c, env, fe)


def canon_bool(c):
    """Canonical form of a boolean condition (truth table over its relevant
    atoms)."""
    at = []
    bool_atoms(c, at)
    at = [a for a in at if truth(a) is None]
    if not at:
        v = bool_eval(c, {}, {})
        return c if v is None else K(v)
    cases = Cases(at)
    if cases.size > 512:
        return c
    rows = []
    for env, fe in cases:
        v = bool_eval(c, env, fe)
        if v is None:
            return c
        rows.append(((env, fe), v))
    if all(v for _, v in rows):
        return TRUE
    if not any(v for _, v in rows):
        return FALSE
    if len(at) == 1:
        return at[0] if rows and c == at[0] else test_of(c)
    pos = []
    for (env, fe), v in rows:
        if v:
            pos.append(frozenset([(s, r) for s, r in env.items()] + [(a, x) for a, x in fe.items()]))
    # drop irrelevant dimensions
    dims = [(s, regs) for s, regs in cases.regions] + [(a, [True, False]) for a in cases.free]
    S = set(pos)
    for s, regs in list(dims):
        if all((p - {q for q in p if q[0] == s}) | {(s, r)} in S for p in S for r in regs):
            S = {p - {q for q in p if q[0] == s} for p in S}
    t = Term("tt", frozenset(frozenset((s, _r(r)) for s, r in p) for p in S))
    _tt_cond.setdefault(t, c)
    return t


def _r(r):
    return r if not isinstance(r, tuple) else Term("region", *[x if isinstance(x, (Term, tuple)) else str(x) for x in r])


def is_path(t):
    """a path built from the location of a module"""
    if t.op == "concat":
        return is_path(t.args[0][0])
    return t == Term("builtin", "__file__") or t.op == "call" and t.args[0] == Term("ext", "os.path.dirname")


def path_of(*parts):
    out = []
    for i, q in enumerate(parts):
        if i:
            out.append(K("/"))
            if is_const(q) and isinstance(cval(q), str):
                q = K(cval(q).lstrip("/"))
        out.append(q if i == 0 else mk_str(q))
    # a//b is a/b
    t = mk_concat(out)
    if t.op == "concat":
        t = mk_concat([K(cval(q).replace("//", "/")) if is_const(q) and isinstance(cval(q), str) else q for q in t.args[0]])
    return t


def canon_call(x):
    """Paths from a module's location as text; arguments of a commutative,
    associative matchpy operation in one order."""
    f, a, k = x.args
    if f.op == "ext" and not k and a:
        n = f.args[0]
        if n in ("os.path.abspath", "os.path.realpath", "os.path.normpath", "pathlib.Path", "os.fspath") and len(a) == 1 and is_path(a[0]):
            return a[0]
        if n in ("os.path.join", "posixpath.join", "pathlib.Path") and len(a) > 1:
            if not any(is_const(q) and isinstance(cval(q), str) and cval(q).startswith("/") for q in a[1:]):
                return path_of(*a)
    if f.op == "method" and not k and a and is_path(a[0]):
        if f.args[0] in ("resolve", "absolute") and len(a) == 1:
            return a[0]
        if f.args[0] == "joinpath" and len(a) > 1:
            return path_of(*a)
    if f.op == "apply" and f.args[0].op == "call" and f.args[0].args[0] == Term("ext", "matchpy.Operation.new") and not k:
        kw = dict(f.args[0].args[2])
        if kw.get("commutative") == TRUE:
            args = []
            for q in a:
                if kw.get("associative") == TRUE and q.op == "call" and q.args[0] == f and not q.args[2]:
                    args += q.args[1]
                else:
                    args.append(q)
            if not any(q.op == "star" for q in args):
                return Term("call", f, tuple(sorted(args, key=tkey)), k)
    return x


def norm(t):
    """Bottom-up normalisation used before comparison."""
    if t in _canon_memo:
        return _canon_memo[t]

    def f(x):
        if x.op in ITERS:
            bi = ITER_AT[x.op]
            its = x.args[bi]
            new = tuple(Term("items", i) if i.op in DICTY else i for i in its) if isinstance(its, tuple) else \
                Term("items", its) if its.op in DICTY else its
            if new != its:
                x = Term(x.op, *[new if i == bi else a for i, a in enumerate(x.args)])
        elif x.op == "elem" and x.args[0].op in DICTY:
            return Term("keyof", *x.args)
        elif x.op == "item" and x.args[1].op == "keyof" and x.args[1].args[0] == x.args[0]:
            return Term("valof", x.args[0], x.args[1].args[1])
        x = through_filters(x)
        o, a = x.op, x.args
        if o in ("copy", "as") and (o == "copy" or a[0] in ("list", "tuple", "iter")):
            return a[-1]
        if o == "as" and a[0] == "set" and a[1].op == "as" and a[1].args[0] in ("list", "tuple"):
            return Term("as", "set", a[1].args[1])
        if o == "call" and a[0].op == "method" and a[0].args[0] in ("startswith", "endswith") and len(a[1]) == 2 and not a[2] \
                and is_const(a[1][1]) and isinstance(cval(a[1][1]), str) and len(cval(a[1][1])) == 1:
            return mk_eq(mk_item(a[1][0], K(0 if a[0].args[0] == "startswith" else -1)), a[1][1])
        if o == "exists" and len(a[1]) == 1 and a[1][0].op == "whilec" and a[0] == TRUE:
            c = a[1][0].args[0]
            if not any(z.op in ("rec", "mu") for z in subterms(c)):
                return c
        if o == "call":
            if a[0].op == "method" and a[0].args[0] == "get" and len(a[1]) in (2, 3) and not a[2]:
                # m.get(k, d) is m[k] if k in m else d
                m, k = a[1][:2]
                return mk_phi(mk_in(k, m), mk_item(m, k), a[1][2] if len(a[1]) == 3 else NONE)
            return canon_call(x)
        if o == "attr" and a[1] in PREDICATES:
            return canon_bool(PREDICATES[a[1]](a[0]))
        if o == "int" and a[0].op == "div" and is_const(a[0].args[1]) and type(cval(a[0].args[1])) is int and cval(a[0].args[1]) in (2, 4, 8, 16):
            # halves are exact
            return norm(Term("int", Term("mul", K(1 / cval(a[0].args[1])), a[0].args[0])))
        if o == "div" and is_path(a[0]):
            return path_of(a[0], a[1])
        if o == "attr" and a[1] == "parent" and is_path(a[0]):
            return Term("call", Term("ext", "os.path.dirname"), (a[0],), ())
        if o == "str" and is_path(a[0]):
            return a[0]
        if o == "in":
            return expand_in(x)
        if o == "seqcat":
            return mk_seqcat(a[0])
        if o == "phi" and a[1].op == "fold" and a[1].args[0] in ("add", "mul") and a[1].args[1].op == "first" and a[1].args[4] == TRUE \
                and len(a[1].args[3]) == 1 and a[2] == K(1 if a[1].args[0] == "mul" else 0):
            # a product of none
            it = a[1].args[3][0]
            if a[0] in (it, Term("truthy", it), mk_not(mk_eq(mk_len(it), K(0))), mk_lt(K(0), mk_len(it))):
                return Term("fold", a[1].args[0], a[2], *a[1].args[2:])
        if o in ("tuple", "list"):
            return mk_seqcat((x,)) if any(isinstance(e, Term) and e.op == "star" for e in a[0]) else Term("list", *a)
        if o == "exists":
            for i, it in enumerate(a[1]):
                if it.op in ("as", "sorted", "rev") and not any(z.op == "idx" and z.args[0] == it for z in subterms(a[0])):
                    # whether there is one does not depend on the order or on repetition
                    src = it.args[1] if it.op == "as" else it.args[0]
                    m = {mk_elem(it, n): mk_elem(src, n) for n in range(3)}
                    src = plain_iter(src, ())
                    return norm(Term("exists", subst(a[0], m), tuple(subst(z, m) if j > i else src if j == i else z for j, z in enumerate(a[1]))))
            return Term("exists", canon_bool(a[0]), a[1])
        if o == "as" and a[0] in ("set", "frozenset", "list", "tuple") and a[1].op == "keys":
            return Term("as", a[0], a[1].args[0])
        if o == "lastif" and {a[0], a[3]} == {TRUE, FALSE}:
            # a flag set in a loop
            e = Term("exists", canon_bool(a[2]), a[1])
            return e if a[0] == TRUE else mk_not(e)
        if o == "str" and is_text(a[0]):
            return a[0]
        if o == "sjoin" and a[0] == K("") and a[1].op == "rev" and is_text(a[1]):
            return a[1]
        if o == "dcomp" and a[3] == TRUE and len(a[2]) == 1 and a[2][0].op == "items" and a[0] == Term("keyof", a[2][0].args[0], *a[0].args[1:]) \
                and a[1] == Term("valof", a[2][0].args[0], *a[1].args[1:]):
            return a[2][0].args[0]
        if o == "idx" and isinstance(a[0], Term) and a[0].op == "comp" and a[0].args[0] in ("list", "gen", "tuple") and len(a[0].args[2]) == 1 \
                and a[0].args[3] == TRUE and a[0].args[2][0].op not in ("items", "keys", "values"):
            return Term("idx", a[0].args[2][0], *a[1:])
        if o == "mul" and len(a) == 2:
            for p, n in (a, a[::-1]):
                if p.op in ("list", "tuple") and len(p.args[0]) == 1 and is_const(p.args[0][0]) and n.op == "len" and p.op == "list":
                    # [0] * len(xs)
                    return Term("comp", "list", p.args[0][0], (n.args[0],), TRUE)
        if o == "zip" and len(a) == 1 and isinstance(a[0], tuple) and len(a[0]) > 1 and all(z == a[0][0] for z in a[0]):
            return a[0][0]
        if o in ("item", "in") and len(a) == 2:
            d = a[0] if o == "item" else a[1]
            if d.op == "dict" and len({e.args[0] for e in d.args[0] if e.op == "pair"}) == len(d.args[0]):
                # for looking up, the order does not matter
                d2 = Term("dict", tuple(sorted(d.args[0], key=tkey)))
                if d2 != d:
                    return Term("item", d2, a[1]) if o == "item" else Term("in", a[0], d2)
        if o == "comp":
            k, c = "list" if a[0] in ("gen", "tuple", "list") else a[0], canon_bool(a[3])
            if c == FALSE and k in ("list", "set"):
                return Term(k, ())
            return Term("comp", k, a[1], a[2], c)
        if o == "dcomp":
            c = canon_bool(a[3])
            return Term("dict", ()) if c == FALSE else Term("dcomp", a[0], a[1], a[2], c)
        if o == "fold":
            c = canon_bool(a[4])
            if c == FALSE and a[1].op != "first":
                return a[1]
            if len(a[3]) == 1 and a[3][0].op in ("list", "tuple", "seqcat") and a[0] in ("add", "mul") and a[1].op != "first":
                acc, L, parts = a[1], mk_elem(a[3][0]), a[3][0].args[0]
                if a[3][0].op == "seqcat":
                    parts = [e for q in parts for e in (q.args[0] if q.op in ("list", "tuple") else (Term("star", q),))]
                for p in parts:
                    if p.op == "star":
                        m = {L: mk_elem(p.args[0])}
                        acc = Term("fold", a[0], acc, subst(a[2], m), (p.args[0],), subst(c, m))
                    else:
                        m = {L: p}
                        acc = mk_phi(subst(c, m), rebuild(a[0], (acc, subst(a[2], m))), acc)
                return norm(acc)
            n = counted(a, c)
            return n if n is not None else Term("fold", *a[:4], c)
        if o in ("add", "mul"):
            fl = _flat(x, o)
            return Term(o + "*", tuple(sorted(fl, key=tkey)))
        if o == "dict" and all(e.op == "pair" and is_const(e.args[0]) for e in a[0]):
            return Term("dict", tuple(sorted(a[0], key=tkey)))
        if o == "set":
            return Term("set", tuple(sorted(a[0], key=tkey)))
        if o == "sub" and a[0].op == "len" and a[1].op == "len":
            # len(xs) - len([x for x in xs if p]) is len([x for x in xs if not p])
            x1 = a[1].args[0]
            if x1.op == "comp" and x1.args[0] == "list" and x1.args[2] == (a[0].args[0],):
                return mk_len(Term("comp", *x1.args[:3], canon_bool(mk_not(_tt_cond.get(x1.args[3], x1.args[3])))))
        if o == "sub":
            return Term("add*", tuple(sorted([a[0], mk_neg(a[1])], key=tkey)))
        return x
    r = rewrite(t, f, _norm_memo)
    _canon_memo[t] = r
    return r


# predicates of fields and indices by their definition (which is compared with
# the specification where it is made)
PREDICATES = {
    "is_fermion": lambda x: mk_not(Term("attr", x, "is_boson")),
    "is_su2": lambda x: mk_or(*[mk_eq(Term("attr", x, "index_type"), K(k)) for k in ("Isospin", "Undotted", "Dotted")]),
}


GATE_AT = {"exists": 0, "comp": 3, "dcomp": 3, "fold": 4}


def through_filters(x):
    """for y in [e(x) for x in xs if p(x)]: b(y)   is   for x in xs: if p(x): b(e(x))"""
    gi = GATE_AT.get(x.op)
    if gi is None or x.op == "comp" and x.args[0] not in ("list", "set", "gen", "tuple"):
        return x
    bi = BINDS[x.op][0]
    its = x.args[bi]
    if not isinstance(its, tuple):
        return x
    for i, c in enumerate(its):
        if not (isinstance(c, Term) and c.op == "comp" and c.args[0] in ("list", "gen", "tuple") and len(c.args[2]) == 1):
            continue
        inner = c.args[2][0]
        rest = [a for j, a in enumerate(x.args) if j != bi]
        subs = [z for a in rest for t in _terms(a) for z in subterms(t)]
        ixs = {z for z in subs if z.op == "idx" and z.args[0] == c}
        if ixs and c.args[3] != TRUE:
            continue
        vs = {z for z in subs if z.op == "elem" and z.args[0] == c}
        if len(vs) > 1:
            continue
        if any(z.op in VARS and z.args[0] == inner for z in subs if z not in vs and z not in ixs and z != c):
            left = [subst(t, {v: NONE for v in vs | ixs}) for a in rest for t in _terms(a)]
            if any(z.op in VARS and z.args[0] == inner for t in left for z in subterms(t)):
                continue
        m = {v: c.args[1] for v in vs}
        m.update({v: Term("idx", inner, *v.args[1:]) for v in ixs})

        def put(a):
            return subst(a, m) if isinstance(a, Term) else tuple(put(z) for z in a) if isinstance(a, tuple) else a
        new = [put(a) if j != bi else a for j, a in enumerate(x.args)]
        new[bi] = its[:i] + (inner,) + tuple(put(z) for z in its[i + 1:])
        new[gi] = mk_and(*[_tt_cond.get(z, z) for z in (c.args[3], new[gi])])
        return through_filters(Term(x.op, *new))
    return x


def tidy_sum(r):
    """numbers collected, in one order"""
    nums = [x for x in r.args[0] if _is_num(x) and not isinstance(cval(x), bool)]
    rest = [x for x in r.args[0] if not (_is_num(x) and not isinstance(cval(x), bool))]
    if rest and nums:
        n = cval(nums[0])
        for x in nums[1:]:
            n = n + cval(x) if r.op == "add*" else n * cval(x)
        if n != (0 if r.op == "add*" else 1):
            rest.append(K(n))
        if len(rest) == 1 and (rest[0].op in ("len", "mod_", "fold", "floordiv") or r.op == "mul*"):
            return rest[0]
    elif nums and len(nums) > 1:
        n = cval(nums[0])
        for x in nums[1:]:
            n = n + cval(x) if r.op == "add*" else n * cval(x)
        return K(n)
    return Term(r.op, tuple(sorted(rest or nums, key=tkey)))


def counted(a, c):
    """sum(1 for .. if c) is the length of [.. if c]"""
    if a[0] != "add" or a[1] != K(0):
        return None
    e = a[2]
    if e == K(1):
        return mk_len(Term("comp", "list", K(1), a[3], c))
    if e.op == "phi" and e.args[1:] == (K(1), K(0)):
        e = e.args[0]
    if is_boolish(e) or e.op == "tt":
        return mk_len(Term("comp", "list", K(1), a[3], canon_bool(mk_and(*[_tt_cond.get(z, z) for z in (c, e)]))))
    return None


def _flat(t, op):
    if t.op == op:
        return _flat(t.args[0], op) + _flat(t.args[1], op)
    if t.op == op + "*":
        return list(t.args[0])
    return [t]


# ---------------------------------------------------------------- lazy cases
WORK = 400000        # resolved nodes per comparison
DOUBTFUL = 12
EXCHANGE = 150      # cases looked at for an exchange of branches
SPLITS = 3000        # case distinctions per comparison
BINDS = {"exists": (1, (0,)), "comp": (2, (3,)), "dcomp": (2, (3,)), "dgrow": (2, (3,)), "fold": (3, (4,)), "lastif": (1, (2,))}
VARS = ("elem", "keyof", "valof", "idx")


class TooMany(Exception):
    pass


class Dom:
    """What is known about the value of one subject."""
    __slots__ = ("pt", "lo", "hi", "excl", "num")

    def __init__(self, pt=None, lo=None, hi=None, excl=frozenset(), num=False):
        self.pt, self.lo, self.hi, self.excl, self.num = pt, lo, hi, excl, num


def start_dom(subj):
    if subj.op == "mod_" and is_const(subj.args[1]) and _is_num(subj.args[1]) and cval(subj.args[1]) > 0:
        return Dom(lo=(0, False), hi=(cval(subj.args[1]), True), num=True)
    nonneg = subj.op == "len" or (subj.op == "attr" and subj.args[1] in ("derivs", "nf")) \
        or (subj.op == "fold" and is_integral(subj))
    return Dom(lo=(0, False)) if nonneg else Dom()


def settle(d, integral):
    """Tighten bounds; None when nothing is left."""
    if d.pt is not None:
        return d
    lo, hi, excl = d.lo, d.hi, d.excl
    if integral:
        import math
        if lo is not None:
            v = math.floor(lo[0]) + 1 if lo[1] else math.ceil(lo[0])
            while K(v) in excl:
                v += 1
            lo = (v, False)
        if hi is not None:
            v = math.ceil(hi[0]) - 1 if hi[1] else math.floor(hi[0])
            while K(v) in excl:
                v -= 1
            hi = (v, False)
    if lo is not None and hi is not None:
        if lo[0] > hi[0] or (lo[0] == hi[0] and (lo[1] or hi[1] or K(lo[0]) in excl)):
            return None
        if lo[0] == hi[0] and d.num:
            return Dom(pt=K(lo[0]))
    return Dom(None, lo, hi, excl, d.num)


class Env:
    """A partial case: what has been assumed about the branch conditions."""
    __slots__ = ("dom", "fe", "bools", "log", "_vis")

    def __init__(self, dom=None, fe=None, bools=frozenset(), log=()):
        self.dom, self.fe, self.bools, self.log = dom or {}, fe or {}, bools, log
        self._vis = {}

    def bare(self, a):
        """A value tested as such: the test of a number or a length it stands
        for (which is then false exactly when that is zero)."""
        if a.op in ("eq", "lt", "exists", "in", "isinstance", "const", "tt", "not"):
            return None
        kinds = getattr(self.bools, "kinds", None)
        k = kinds.get(a) if kinds else None
        k = k or test_kind(a)
        if k == "num":
            return mk_eq(a, K(0))
        if k == "len":
            return mk_eq(mk_len(a), K(0))
        return None

    def truth(self, a):
        z = self.bare(a)
        if z is not None:
            if z in (TRUE, FALSE):
                return z == FALSE
            v = self.truth(z)
            return None if v is None else not v
        s = atom_subject(a)
        if s is None:
            d = self.dom.get(a)
            if d is not None:
                # a value tested as such, and compared elsewhere
                if d.pt is not None and is_const(d.pt):
                    return bool(cval(d.pt))
            v = self.fe.get(a)
            if v is None and a.op in ("lt", "eq"):
                p, q = a.args
                dp, dq = self.dom.get(p), self.dom.get(q)
                if dp is not None and dq is not None and dp.pt is not None and dq.pt is not None:
                    if a.op == "eq" and is_const(dp.pt) and is_const(dq.pt):
                        return dp.pt == dq.pt
                    if a.op == "lt" and _is_num(dp.pt) and _is_num(dq.pt):
                        return cval(dp.pt) < cval(dq.pt)
                elif a.op == "eq" and (dp is not None and dp.pt is not None and dq is not None and dp.pt in dq.excl or
                                       dq is not None and dq.pt is not None and dp is not None and dq.pt in dp.excl):
                    return False
                if a.op == "lt" and (self.fe.get(Term("lt", q, p)) or self.fe.get(mk_eq(p, q))):
                    return False
                if a.op == "eq" and (self.fe.get(Term("lt", p, q)) or self.fe.get(Term("lt", q, p))):
                    return False
                if a.op == "eq" and any(m.op == "mod_" and difference(m.args[0]) == a and (K(0) in d.excl or d.pt not in (None, K(0)) or d.lo is not None and d.lo[0] > 0)
                                        for m, d in self.dom.items()):
                    return False
            return v
        kind, subj, c = s
        d = self.dom.get(subj)
        m = self.remainder(subj)
        if m is not None:
            d = m
        if kind == "eq" and subj in self.fe and bool(cval(c)) != self.fe[subj]:
            return False
        if d is None:
            d = start_dom(subj)
            if d.lo is None:
                return None
        cn = _is_num(c)
        if d.pt is not None:
            if kind == "eq":
                return d.pt == c
            if not _is_num(d.pt):
                return False
            return cval(d.pt) < cval(c) if kind == "lt" else cval(d.pt) > cval(c)
        v = cval(c) if cn else None
        if kind == "eq":
            if c in d.excl or (d.num and not cn):
                return False
            if cn and ((d.lo is not None and (v < d.lo[0] or (v == d.lo[0] and d.lo[1])))
                       or (d.hi is not None and (v > d.hi[0] or (v == d.hi[0] and d.hi[1])))):
                return False
            if subj in self.bools and c in (TRUE, FALSE) and mk_not(c) in d.excl:
                return True
            return None
        if kind == "lt":
            if d.num and d.hi is not None and (d.hi[0] < v or (d.hi[0] == v and d.hi[1])):
                return True
            if d.lo is not None and d.lo[0] >= v:
                return False
            return None
        if d.num and d.lo is not None and (d.lo[0] > v or (d.lo[0] == v and d.lo[1])):
            return True
        if d.hi is not None and d.hi[0] <= v:
            return False
        return None

    def remainder(self, subj):
        """x % k for a known x"""
        if subj.op == "mod_" and is_const(subj.args[1]) and _is_num(subj.args[1]) and cval(subj.args[1]):
            d = self.dom.get(subj.args[0])
            if d is not None and d.pt is not None and _is_num(d.pt):
                return Dom(pt=K(cval(d.pt) % cval(subj.args[1])))
            e = difference(subj.args[0])
            if e is not None and self.fe.get(e):
                return Dom(pt=K(0))
        return None

    def assume(self, a, val):
        """The case extended by one condition, or None when impossible."""
        z = self.bare(a)
        if z is not None and atom_subject(z) is not None:
            return self.assume(z, not val)
        s = atom_subject(a)
        if s is None or s[1] in self.fe:
            v = self.truth(a)
            if v is not None:
                return self if v == val else None
        if s is None:
            fe = dict(self.fe)
            fe[a] = val
            if val and not consistent(fe):
                return None
            e = Env(self.dom, fe, self.bools, self.log + ((a, val),))
            if a.op == "eq":
                for x, y in (a.args, a.args[::-1]):
                    d = self.dom.get(x)
                    if d is not None and d.pt is not None:
                        e = e.follows(mk_eq(y, d.pt), val)
                        if e is None:
                            return None
            return e
        kind, subj, c = s
        d = self.remainder(subj) or self.dom.get(subj) or start_dom(subj)
        if d.pt is not None:
            return self if self.truth(a) == val else None
        lo, hi, excl, num = d.lo, d.hi, d.excl, d.num
        if kind == "eq" and val:
            if self.truth(a) is False:
                return None
            n = Dom(pt=c)
        elif kind == "eq":
            excl = excl | {c}
            if subj in self.bools and TRUE in excl and FALSE in excl:
                return None
            n = Dom(None, lo, hi, excl, num)
        else:
            v = cval(c)
            up = (kind == "lt") == val
            if up:      # bounded above
                b = (v, val)
                if hi is None or b[0] < hi[0] or (b[0] == hi[0] and b[1]):
                    hi = b
            else:
                b = (v, val)
                if lo is None or b[0] > lo[0] or (b[0] == lo[0] and b[1]):
                    lo = b
            n = Dom(None, lo, hi, excl, num or val)
        n = settle(n, is_integral(subj))
        if n is None:
            return None
        dom = dict(self.dom)
        dom[subj] = n
        e = Env(dom, self.fe, self.bools, self.log + ((a, val),))
        if n.pt is not None:
            for t, k in self.fe.items():
                if t.op == "eq" and subj in t.args:
                    e = e.follows(mk_eq(t.args[1] if t.args[0] == subj else t.args[0], n.pt), k)
                    if e is None:
                        return None
            for t, k in self.dom.items():
                if t.op == "mod_" and t.args[0] == subj:
                    m = e.remainder(t)
                    if m is not None and (k.pt is not None and k.pt != m.pt or m.pt in k.excl
                                          or k.lo is not None and cval(m.pt) < k.lo[0] or k.hi is not None and cval(m.pt) > k.hi[0]):
                        return None
        return e

    def none_of(self, r):
        """[.. for x in xs for y in ys if p(x) if q(y)] when there is no x with p(x)"""
        for t, d in self.dom.items():
            if t.op == "len" and d.pt == K(0) and t.args[0].op == "comp" and t.args[0].args[2] == r.args[2][:1]:
                have, need = (set(z.args if z.op == "and" else (z,)) for z in (_tt_cond.get(g, g) for g in (r.args[3], t.args[0].args[3])))
                if t.args[0].args[3] == TRUE or need <= have:
                    return True
        return False

    def follows(self, a, val):
        """with what follows from the rest"""
        v = self.truth(a)
        if v is not None:
            return self if v == val else None
        e = self.assume(a, val)
        return e and Env(e.dom, e.fe, e.bools, self.log)

    def outside(self, iters):
        """The case without the assumptions about the elements of these."""
        bases = frozenset(_bare(i) for i in iters if isinstance(i, Term))
        e = self._vis.get(bases)
        if e is None:
            hit = {a for a, _ in self.log if mentions(a, bases)}
            if not hit:
                e = self
            else:
                e = Env({}, {}, self.bools, ())
                for a, v in self.log:
                    if a not in hit:
                        e = e.assume(a, v) or e
            self._vis[bases] = e
        return e


_mention_memo = {}


_bare_memo = {}


def _bare(t):
    r = _bare_memo.get(t)
    if r is None:
        r = _bare_memo[t] = strip_copy(t)
    return r


def mentions(a, bases):
    bs = _mention_memo.get(a)
    if bs is None:
        bs = frozenset(_bare(x.args[0]) for x in subterms(a) if x.op in VARS)
        _mention_memo[a] = bs
    return bool(bs & bases)


def b3(c, env):
    """Three-valued truth of a condition in a partial case."""
    c = expand_in(c)
    o = c.op
    if o == "const":
        return bool(cval(c))
    if o == "not":
        v = b3(c.args[0], env)
        return None if v is None else not v
    if o == "and":
        r = True
        for a in c.args:
            v = b3(a, env)
            if v is False:
                return False
            if v is None:
                r = None
        return r
    if o == "or":
        r = False
        for a in c.args:
            v = b3(a, env)
            if v is True:
                return True
            if v is None:
                r = None
        return r
    if o == "phi":
        v = b3(c.args[0], env)
        if v is None:
            x, y = b3(c.args[1], env), b3(c.args[2], env)
            return x if x == y else None
        return b3(c.args[1 if v else 2], env)
    tv = truth(c)
    return tv if tv is not None else env.truth(c)


_tt_cond = {}     # canonical truth table -> a condition it stands for


_settled = {}


def settled(t):
    """nothing in the term depends on a condition"""
    r = _settled.get(t)
    if r is None:
        r = not (t.op in ("phi", "tt", "and", "or", "add*", "mul*", "dstar", "star", "mod_") or t.op in BINDS or is_boolish(t)) and all(_settled_arg(a) for a in t.args)
        _settled[t] = r
    return r


def _settled_arg(a):
    if isinstance(a, Term):
        return settled(a)
    if isinstance(a, tuple):
        return all(_settled_arg(x) for x in a)
    return not isinstance(a, frozenset)


class Cmp:
    def __init__(self):
        self.work = 0
        self.splits = 0
        self.skip = None       # go on looking for another difference?
        self.body = {}
        self.twins = []        # conditions of the two sides that are the same

    # ---- simplification in a partial case
    def resolve(self, t, env, memo):
        if t in memo:
            return memo[t]
        if settled(t):
            return t
        self.work += 1
        if self.work > WORK:
            raise TooMany
        o = t.op
        r = None
        if o == "phi":
            v = b3(t.args[0], env)
            if v is None:
                c = self.cond(t.args[0], env, memo)
                v = b3(c, env)
            if v is not None:
                r = self.resolve(t.args[1 if v else 2], env, memo)
            else:
                r = mk_phi(c, self.resolve(t.args[1], env, memo), self.resolve(t.args[2], env, memo))
        elif o == "tt":
            c = _tt_cond.get(t)
            if c is None:
                r = t
            else:
                n = self.cond(c, env, memo)
                r = t if n == c else canon_bool(n)
        elif o in ("and", "or") and not is_boolish(t):
            xs = [self.resolve(a, env, memo) for a in t.args]
            out = []
            for i, x in enumerate(xs):
                v = b3(x, env)
                if i < len(xs) - 1 and v is (o == "and"):
                    continue
                out.append(x)
                if v is (o == "or"):
                    break
            r = out[0] if len(out) == 1 else Term(o, *out)
        elif is_boolish(t):
            r = self.cond(t, env, memo)
        elif o in BINDS:
            bi, gs = BINDS[o]
            iters = t.args[bi] if isinstance(t.args[bi], tuple) else (t.args[bi],)
            oe = env.outside(iters)
            om = memo if oe is env else {}
            new = tuple(self.cond(a, oe, om) if i in gs and isinstance(a, Term) else self.args(a, env, memo) for i, a in enumerate(t.args))
            r = t if new == t.args else rebuild(o, new)
            if r.op in ("comp", "dcomp") and env.none_of(r):
                r = Term("dict", ()) if r.op == "dcomp" else Term("set" if r.args[0] == "set" else "list", ())
        if r is None:
            new = tuple(self.args(a, env, memo) for a in t.args)
            if o in ("dict", "list", "dictcat", "seqcat") and new and isinstance(new[0], tuple):
                # **x and *x of something empty
                left = tuple(e for e in new[0] if not (isinstance(e, Term) and e.op in ("dstar", "star") and isinstance(e.args[0], Term) and b3(e.args[0], env) is False))
                new = (left,) + new[1:]
            r = t if new == t.args else rebuild(o, new)
        if r.op == "mod_":
            m = env.remainder(r)
            d = env.dom.get(r)
            m = m if m is not None else d
            if m is not None and m.pt is not None:
                r = m.pt
        if r.op in ("add*", "mul*"):
            r = tidy_sum(r)
        memo[t] = r
        return r

    def args(self, a, env, memo):
        if isinstance(a, Term):
            return self.resolve(a, env, memo)
        if isinstance(a, tuple):
            return tuple(self.args(x, env, memo) for x in a)
        return a

    def cond(self, c, env, memo):
        """A condition simplified in the case."""
        k = ("cond", c)
        if k in memo:
            return memo[k]
        self.work += 1
        if self.work > WORK:
            raise TooMany
        v = b3(c, env)
        if v is not None:
            r = K(v)
        elif c.op == "not":
            r = mk_not(self.cond(c.args[0], env, memo))
        elif c.op == "and":
            r = mk_and(*[self.cond(a, env, memo) for a in c.args])
        elif c.op == "or":
            r = mk_or(*[self.cond(a, env, memo) for a in c.args])
        elif c.op == "phi":
            p = self.cond(c.args[0], env, memo)
            r = mk_phi(p, self.cond(c.args[1], env, memo), self.cond(c.args[2], env, memo))
        elif c.op == "tt":
            r = self.resolve(c, env, memo)
        elif c.op == "exists":
            oe = env.outside(c.args[1])
            g = self.cond(c.args[0], oe, memo if oe is env else {})
            its = self.args(c.args[1], env, memo)
            r = FALSE if g == FALSE else c if (g, its) == c.args else Term("exists", g, its)
            if r != c:
                v = b3(r, env)
                r = r if v is None else K(v)
        elif c.op == "const":
            r = c
        else:
            new = tuple(self.args(a, env, memo) for a in c.args)
            r = c if new == c.args else rebuild(c.op, new)
            if r != c:
                v = b3(r, env)
                if v is not None:
                    r = K(v)
        memo[k] = r
        return r

    def under(self, x, env):
        x = self.resolve(x, env, {})
        sizes = {k.args[0]: cval(d.pt) for k, d in env.dom.items() if k.op == "len" and d.pt is not None and is_const(d.pt)}
        if sizes:
            # counted from the end of something of known length
            x = rewrite(x, lambda z: mk_item(z.args[0], K(sizes[z.args[0]] + cval(z.args[1]))) if z.op == "item" and z.args[0] in sizes
                        and is_const(z.args[1]) and type(cval(z.args[1])) is int and -sizes[z.args[0]] <= cval(z.args[1]) < 0 else z)
        return norm(x)

    # ---- comparison
    def eq(self, x, y, env, given):
        """None when equal in every case below env; otherwise (env, x, y)"""
        if x == y:
            return None
        if x.op == y.op and x.op in BINDS:
            return self.binder(x, y, env, given)
        if x.op == "tt" and y.op == "tt" or is_cond(x) and is_cond(y):
            return self.boolean(x, y, env, given)
        if x.op == y.op and x.op not in ("phi", "add*", "mul*", "set", "dict", "and", "or", "not") and shape(x.args) == shape(y.args):
            for p, q in pairs(x.args, y.args):
                d = self.eq(p, q, env, given)
                if d is not None:
                    return d
            return None
        return self.split(x, y, env, given)

    def binder(self, x, y, env, given):
        bi, gs = BINDS[x.op]
        if shape(x.args[bi:bi + 1]) != shape(y.args[bi:bi + 1]):
            return self.split(x, y, env, given)
        g2 = given
        for i, (a, b) in enumerate(zip(x.args, y.args)):
            if i in gs or not isinstance(a, (Term, tuple)):
                continue
            if i == bi:
                for p, q in pairs((a,), (b,)):
                    d = self.eq(p, q, env, given)
                    if d is not None:
                        return d
        ga = None
        for i in gs:
            a, b = (_tt_cond.get(z, z) for z in (x.args[i], y.args[i]))
            if x.args[i] != y.args[i]:
                d = self.boolean(a, b, env, given)
                if d is not None:
                    return d
            ga = a
        if x.op != "exists" and ga is not None and ga != TRUE and ga.op != "tt":
            g2 = given + (ga,)
        for i, (a, b) in enumerate(zip(x.args, y.args)):
            if i in gs or i == bi:
                continue
            if isinstance(a, Term) and isinstance(b, Term):
                d = self.eq(a, b, env, given if (x.op, i) in (("fold", 1), ("lastif", 3)) else g2)
                if d is not None:
                    return d
            elif a != b:
                return self.leaf(x, y, env, given)
        return None

    def boolean(self, x, y, env, given):
        x, y = _tt_cond.get(x, x), _tt_cond.get(y, y)
        vx, vy = b3(x, env), b3(y, env)
        if vx is not None and vx == vy:
            return None
        if vx is not None and vy is not None:
            return self.leaf(K(vx), K(vy), env, given)
        a = self.pick_bool(x, env) or self.pick_bool(y, env)
        if a is None:
            return self.leaf(x, y, env, given)
        return self.cases(a, x, y, env, given, True)

    def split(self, x, y, env, given):
        a = self.pick(x, env, set()) or self.pick(y, env, set())
        if a is None:
            return self.leaf(x, y, env, given)
        return self.cases(a, x, y, env, given, False)

    def cases(self, a, x, y, env, given, boolean):
        self.splits += 1
        if self.splits > SPLITS:
            raise TooMany
        for val in (True, False):
            e = env.assume(a, val)
            if e is None:
                continue
            if any(b3(g, e) is False for g in given):
                continue
            if boolean:
                memo = {}
                p, q = self.cond(x, e, memo), self.cond(y, e, memo)
                d = self.boolean(p, q, e, given) if p != q else None
            else:
                d = self.eq(self.under(x, e), self.under(y, e), e, given)
            if d is not None:
                return d
        return None

    def leaf(self, x, y, env, given):
        """Different here: is the case possible?"""
        for g in given:
            v = b3(g, env)
            if v is False:
                return None
            if v is None:
                a = self.pick_bool(g, env)
                if a is not None:
                    self.splits += 1
                    if self.splits > SPLITS:
                        raise TooMany
                    for val in (True, False):
                        e = env.assume(a, val)
                        if e is None:
                            continue
                        d = self.eq(self.under(x, e), self.under(y, e), e, given)
                        if d is not None:
                            return d
                    return None
        if self.skip is not None and self.skip(env):
            return None
        return (env, x, y)

    # ---- is the case possible?
    def possible(self, g, w, env, under):
        """Conditions that only one of the two sides distinguishes may be two
        spellings of one condition; a case that needs both is then not known
        to be possible."""
        sg, sw = subjects(g), subjects(w)
        pg, pw = {}, {}
        e, x, y = Env(bools=env.bools), g, w
        for a, v in env.log:
            s = subject_of(a)
            ig, iw = s in sg, s in sw
            if not ig and not iw:
                # a condition in the form it takes in this case
                ig, iw = s in subjects(under(g, e)), s in subjects(under(w, e))
            if ig and not iw:
                pg[a] = s
            elif iw and not ig:
                pw[a] = s
            e = e.assume(a, v) or e
        val = dict(env.log)
        mates = {(p, q) for p in pg for q in pw if alike(p, q)}
        self.twins = []
        for p in pg:
            for q in pw:
                if p.op == q.op and p.op in ("exists", "last") and (p, q) not in mates and p.args[1:] == q.args[1:]:
                    v = self.bodies(p, q)
                    if v:
                        self.twins.append((p, q))
                    elif v is False and len(pg) == len(pw) == 1:
                        return True     # they differ for some element
        paired = {x for m in mates for x in m}
        if not any(related(p, q, val[p], val[q]) for p in pg for q in pw if (p, q) not in mates and not (p in paired and q in paired)):
            return True
        for drop, keep, swap in ((pw, g, False), (pg, w, True)):
            e = Env(bools=env.bools)
            for a, v in env.log:
                if a not in drop:
                    e = e.assume(a, v) or e
            x, y = under(keep, e), under(w if keep is g else g, e)
            if self.apart(x, y, e, swap, under, 64):
                return True
        return False

    def bodies(self, p, q):
        r = self.body.get((p, q), self)
        if r is self:
            r = self.body[p, q] = same(p.args[0], q.args[0])[0]
        return r

    def apart(self, x, y, env, swap, under, budget):
        """x and y differ whatever the conditions left in y are."""
        if budget <= 0:
            return False
        if x == y:
            return False
        a = self.pick_bool(y, env) if is_cond(y) else self.pick(y, env, set())
        if a is None:
            return definite(y, x) if swap else definite(x, y)
        for val in (True, False):
            e = env.assume(a, val)
            if e is not None and not self.apart(x, under(y, e), e, swap, under, budget // 2):
                return False
        return True

    # ---- choosing the next condition to distinguish
    def pick_bool(self, c, env):
        c = expand_in(c)
        if c.op in BOOLOPS or c.op == "phi":
            for a in c.args:
                r = self.pick_bool(a, env)
                if r is not None:
                    return r
            return None
        if c.op == "const" or b3(c, env) is not None:
            return None
        if c.op == "tt":
            o = _tt_cond.get(c)
            return self.pick_bool(o, env) if o is not None else None
        if c.op != "exists":
            seen = set()
            for a in c.args:
                r = self.pick_args(a, env, seen)
                if r is not None:
                    return r
        return c

    def pick(self, t, env, seen):
        if t in seen:
            return None
        seen.add(t)
        if t.op == "tt":
            return None
        if t.op == "phi":
            r = self.pick_bool(t.args[0], env)
            if r is not None:
                return r
        elif is_boolish(t):
            return self.pick_bool(t, env)
        elif t.op in ("and", "or"):
            for a in t.args[:-1]:
                r = self.pick_bool(a, env)
                if r is not None:
                    return r
        skip = BINDS[t.op][1] if t.op in BINDS else ()
        for i, a in enumerate(t.args):
            if i in skip:
                continue
            r = self.pick_args(a, env, seen)
            if r is not None:
                return r
        return None

    def pick_args(self, a, env, seen):
        if isinstance(a, Term):
            return self.pick(a, env, seen)
        if isinstance(a, tuple):
            for x in a:
                r = self.pick_args(x, env, seen)
                if r is not None:
                    return r
        return None


def is_cond(t):
    return is_boolish(t) or t.op == "tt"


def shape(args):
    return tuple("T" if isinstance(a, Term) else shape(a) if isinstance(a, tuple) else a for a in args)


def pairs(a, b):
    for x, y in zip(a, b):
        if isinstance(x, Term):
            yield x, y
        elif isinstance(x, tuple):
            yield from pairs(x, y)


SIZED = ("list", "tuple", "dict", "set", "comp", "dcomp", "dictcat", "seqcat", "slice", "sorted", "items", "keys", "values", "rev")


def test_kind(t):
    """What a value is known to be, as far as its truth goes."""
    if t.op in ("len", "div", "neg", "mod_", "floordiv") or t.op == "fold" and t.args[0] in ("add", "mul") and _is_num(t.args[1]):
        return "num"
    if t.op in SIZED:
        return "len"
    if t.op == "as" and t.args[0] in ("list", "tuple", "set", "dict"):
        return "len"
    if t.op in ("add*", "mul*"):
        return "num" if any(_is_num(x) or test_kind(x) == "num" for x in t.args[0]) else None
    return None


class Subjects(frozenset):
    """Boolean subjects; .kinds: values compared with numbers or measured."""
    kinds = None


def value_kinds(*ts):
    kinds, no = {}, set()
    for t in ts:
        for x in subterms(t):
            if x.op == "len":
                kinds[x.args[0]] = "len"
            elif x.op in ("eq", "lt"):
                s = atom_subject(x)
                if s is not None and _is_num(s[2]):
                    kinds.setdefault(s[1], "num")
                elif s is not None:
                    no.add(s[1])     # None or a string as well
                elif s is None and x.op == "eq":
                    for p, q in (x.args, x.args[::-1]):
                        if is_empty_literal(q):
                            kinds[p] = "len"
    return {k: v for k, v in kinds.items() if k not in no}


def boolean_subjects(*ts):
    """subjects compared with both True and False: taken to be one of them"""
    seen = {}
    for t in ts:
        if ops_in(t).isdisjoint(("eq", "lt")):
            continue
        for x in subterms(t):
            s = atom_subject(x) if x.op in ("eq", "lt") else None
            if s is not None and s[2] in (TRUE, FALSE):
                seen.setdefault(s[1], set()).add(s[2])
    r = Subjects(k for k, v in seen.items() if len(v) == 2)
    r.kinds = value_kinds(*ts)
    return r


def describe(env):
    return "; ".join(show(a if v else mk_not(a), 100) for a, v in env.log)


DICTY = ("dict", "dcomp", "dictcat")
ITER_AT = {"comp": 2, "dcomp": 2, "dgrow": 2, "fold": 3, "exists": 1, "last": 1, "lastif": 1, "for": 0, "fix": 0}
ITERS = ("comp", "dcomp", "dgrow", "fold", "exists", "last", "lastif", "for", "fix")


def dict_bases(t, out=None):
    """Terms that are used as mappings somewhere in t."""
    out = set() if out is None else out
    if ops_in(t).isdisjoint(("items", "keys", "values", "keyof", "valof", "dict", "dcomp", "dictcat")):
        return out
    for x in subterms(t):
        if x.op in ("items", "keys", "values", "keyof", "valof"):
            out.add(x.args[0])
        elif x.op in ("dict", "dcomp", "dictcat"):
            out.add(x)
    return out


def plain_iter(it, D):
    while True:
        if it.op == "enumerate":
            it = it.args[0]
        elif it.op == "range" and it.args[0] == K(0) and it.args[1].op == "len" and it.args[2] == K(1):
            it = it.args[1].args[0]
        elif it.op in ("as", "copy") and it.args[0] in ("list", "tuple", "iter", "shallow"):
            it = it.args[-1]
        else:
            break
    if it.op in ("items", "keys", "values"):
        return Term("items", it.args[0])
    if it in D:
        return Term("items", it)
    return it


def dictify(t, D):
    """One spelling for iterating a mapping or a sequence."""
    def f(x):
        if x.op == "elem" and x.args[0] in D:
            return Term("keyof", x.args[0], x.args[1])
        if x.op == "item" and x.args[1].op == "keyof" and x.args[1].args[0] == x.args[0]:
            return Term("valof", x.args[0], x.args[1].args[1])
        if x.op in ITERS:
            return Term(x.op, *[plain_iters(a, D) if isinstance(a, tuple) else a for a in x.args]) if x.op not in ("for", "fix") \
                else Term(x.op, plain_iter(x.args[0], D), *x.args[1:])
        return x
    return rewrite(t, f)


def plain_iters(a, D):
    return tuple(plain_iter(x, D) if isinstance(x, Term) else x for x in a)


def same(got, want, given=None, depth=0):
    """(verdict, explanation)"""
    D = dict_bases(got)
    dict_bases(want, D)
    test = is_test(got) and is_test(want)
    if test:
        got, want = (z.args[0] if z.op == "phi" else z for z in (got, want))
    g, w = norm(dictify(got, D)), norm(dictify(want, D))
    if g == w:
        return True, ""
    gv = (norm(dictify(given, D)),) if given is not None else ()
    T = texts(g) | texts(w)
    if T:
        # x + "a" means that x is text: str(x) is x
        g, w, *gv = (norm(rewrite(z, lambda x: x.args[0] if x.op == "str" and x.args[0] in T else x)) for z in (g, w, *gv))
        gv = tuple(gv)
        if g == w:
            return True, ""
    C = Cmp()
    env = Env(bools=boolean_subjects(g, w, *gv))
    under = (lambda z, e: C.cond(z, e, {})) if test else C.under
    first, seen = [], [0]

    def skip(e):
        """A case not known to be possible: is there another difference?"""
        seen[0] += 1
        if seen[0] > DOUBTFUL:
            return False
        d = settle_case(e)
        if d is None or d[3] or not (ground(d[1]) and ground(d[2])) and not definite(d[1], d[2]):
            return False
        if not first:
            first.append((d, C.twins))
        return True

    def settle_case(env):
        """The difference in a case, with the conditions fixed that do not
        matter for it."""
        x, y = under(g, env), under(w, env)
        if x == y:
            return None
        for _ in range(200):
            a = (C.pick_bool(x, env) or C.pick_bool(y, env)) if test else C.pick(x, env, set()) or C.pick(y, env, set())
            if a is None:
                break
            for val in (True, False):
                e = env.assume(a, val)
                if e is None or any(b3(c, e) is False for c in gv):
                    continue
                x2, y2 = under(x, e), under(y, e)
                if x2 != y2:
                    break
            else:
                break
            env, x, y = e, x2, y2
        return env, x, y, C.possible(g, w, env, under)
    def exchanged(x, y):
        """Here got is what is expected in another case, where it is something
        else; and the expected value is what got is in another case, where
        something else is expected."""
        there = [False, False]
        budget = [EXCHANGE]

        def go(e):
            budget[0] -= 1
            if budget[0] < 0:
                return True
            p, q = under(g, e), under(w, e)
            a = (C.pick_bool(p, e) or C.pick_bool(q, e)) if test else C.pick(p, e, set()) or C.pick(q, e, set())
            if a is None:
                there[0] |= p == y and q != y
                there[1] |= q == x and p != x
                return all(there)
            return any(go(z) for z in (e.assume(a, True), e.assume(a, False)) if z is not None and not any(b3(c, z) is False for c in gv))
        go(Env(bools=env.bools))
        return all(there)
    C.skip = skip
    try:
        d = C.boolean(under(g, env), under(w, env), env, gv) if test else C.eq(under(g, env), under(w, env), env, gv)
        if d is None and not first:
            return True, ""
        if d is None:
            d, C.twins = first[0]
        else:
            d = settle_case(d[0])
            if d is None:
                return None, "not decided: the difference is not visible in the result"
        env, x, y, possible = d
    except TooMany:
        return None, "too many cases"
    if has_unknown(x) or has_unknown(y):
        return None, "not decided: " + show(x, 200)
    t = diff(x, y)
    if not (ground(x) and ground(y)) and not definite(x, y):
        try:
            if possible and exchanged(x, y):
                return False, f"when {describe(env)}, with cases exchanged: " + t
        except TooMany:
            pass
        return None, "differs in form, not decided: " + t
    if not possible and C.twins and depth < 3:
        # two spellings of one condition
        m = {q: p for p, q in C.twins}
        return same(g, subst(w, m), given, depth + 1) if not test else \
            same(Term("phi", g, TRUE, FALSE), Term("phi", subst(w, m), TRUE, FALSE), given, depth + 1)
    if not possible:
        return None, f"when {describe(env)} (not known to be possible): " + t
    return False, (f"when {describe(env)}: " if env.log else "") + t


def texts(t):
    if "concat" not in ops_in(t):
        return frozenset()
    return frozenset(x for c in subterms(t) if c.op == "concat" for x in c.args[0] if x.op not in ("const", "str", "concat", "sjoin", "strm", "fmt", "phi"))


def is_test(t):
    return t.op == "phi" and t.args[1:] == (TRUE, FALSE) or t in (TRUE, FALSE) or is_boolish(t)


# ------------------------------------------------- conditions of two spellings
def subject_of(a):
    s = atom_subject(a)
    if s is not None:
        return s[1]
    if a.op in ("lt", "eq"):
        return frozenset(a.args)
    return a


_subjects_memo = {}


def subjects(t):
    """The conditions a term distinguishes, by subject."""
    r = _subjects_memo.get(t)
    if r is None:
        r = set()
        _subjects(t, r, set())
        _subjects_memo[t] = r = frozenset(r)
    return r


def _cond_subjects(c, out, seen):
    c = expand_in(_tt_cond.get(c, c))
    if c.op in BOOLOPS or c.op == "phi":
        for a in c.args:
            _cond_subjects(a, out, seen)
        return
    if c.op != "const":
        out.add(subject_of(c))
    _subjects(c, out, seen)


def _subjects(t, out, seen):
    if t in seen:
        return
    seen.add(t)
    if t.op == "tt" or is_boolish(t):
        c = expand_in(_tt_cond.get(t, t))
        if c.op == "tt":
            for row in c.args[0]:
                for p in row:
                    if isinstance(p[0], Term):
                        out.add(p[0])
            return
        if c is not t or c.op in BOOLOPS:
            _cond_subjects(c, out, seen)
            return
        out.add(subject_of(c))
    if t.op == "phi":
        _cond_subjects(t.args[0], out, seen)
    if t.op in ("and", "or"):
        for a in t.args:
            _cond_subjects(a, out, seen)
    for i in BINDS[t.op][1] if t.op in BINDS else ():
        if isinstance(t.args[i], Term):
            _cond_subjects(t.args[i], out, seen)
    for a in t.args:
        for z in _terms(a):
            _subjects(z, out, seen)


def simple_index(x):
    return leafy(x) or x.op in ("rec", "idx")


def alike(p, q, cond=True):
    """Two conditions (values) of one form that speak of different things."""
    if p == q:
        return True
    if leafy(p) and leafy(q):
        return True
    if cond:
        sp, sq = atom_subject(p), atom_subject(q)
        if (sp is None) != (sq is None):
            return False
        if sp is not None:
            return sp[0] == sq[0] and sp[2] == sq[2] and alike(sp[1], sq[1], False)
        if p.op == q.op and p.op in ("lt", "eq"):
            a, b = list(p.args), list(q.args)
            return any(x == y and alike(u, v, False) for x, u in (a, a[::-1]) for y, v in (b, b[::-1]))
        if p.op == q.op == "exists":
            # one element tells them apart
            return p.args[1] == q.args[1] and same(p.args[0], q.args[0])[0] is False
    for a, b in ((p, q), (q, p)):
        if a.op == "len" and b.op == "fold" and a.args[0].op == "comp" and a.args[0].args[1] == K(1) and b.args[:2] == ("add", K(0)):
            return alike(Term("fold", "add", K(0), *a.args[0].args[1:]), b, False)
    if not cond and all(simple_index(x) or x.op in ("add*", "mul*", "neg") and all(simple_index(z) for a in x.args for z in _terms(a)) for x in (p, q)):
        return True
    if p.op != q.op or len(p.args) != len(q.args):
        return False
    if p.op in ("add*", "mul*", "set"):
        a, b = list(p.args[0]), list(q.args[0])
        for x in list(a):
            if x in b:
                a.remove(x)
                b.remove(x)
        return len(a) == len(b) == 1 and alike(a[0], b[0], False)
    if p.op in BINDS:
        gs = BINDS[p.op][1]
        if any(not alike(p.args[i], q.args[i]) for i in gs):
            return False
    return all(_alike_arg(a, b) for a, b in zip(p.args, q.args))


def _alike_arg(x, y):
    if isinstance(x, Term) and isinstance(y, Term):
        return alike(x, y, False)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(_alike_arg(a, b) for a, b in zip(x, y))
    return True     # names of attributes, operators, ...


def data_of(p):
    return {x for x in subterms(p) if x.op in ("sym", "elem", "keyof", "valof", "global", "loopval", "last")}


def related(p, q, vp, vq):
    """May one condition say something about the other?  (vp, vq: what is
    assumed of them)"""
    for a, b, va, vb in ((p, q, vp, vq), (q, p, vq, vp)):
        sa, sb = atom_subject(a), atom_subject(b)
        if sa is not None and sa[1].op == "mod_" and (sb is not None and sa[1].args[0] == sb[1] or difference(sa[1].args[0]) == b):
            return False     # the case is checked for that
        if a.op == "last" and b.op == "exists" and vb and tuple(a.args[1:2]) == b.args[1:2]:
            return False     # the last one, and some other one
    return bool(data_of(p) & data_of(q))


GROUND = ("const", "list", "tuple", "dict", "set", "pair", "call", "apply", "ext", "builtin", "attr", "item", "new", "cls", "global", "add*", "mul*", "neg", "div", "pow", "mod", "lam", "cset")


def ground(t):
    """A module-level construction without any open computation: library
    constructors applied to literals.  Two of them that differ are different."""
    return all(x.op in GROUND and not (x.op == "call" and x.args[0].op == "fn") for x in subterms(t))


def diff(x, y):
    """Smallest differing pair, with its path."""
    path = []
    while True:
        if x.op == "new" and y.op == "new" and x.args[0] == y.args[0]:
            dx, dy = dict(x.args[1]), dict(y.args[1])
            ks = [k for k in sorted(set(dx) | set(dy)) if dx.get(k) != dy.get(k)]
            if len(ks) == 1 and ks[0] in dx and ks[0] in dy:
                path.append(ks[0])
                x, y = dx[ks[0]], dy[ks[0]]
                continue
            return _p(path) + "; ".join(
                f"{k} is {show(dx[k], 120) if k in dx else 'missing'}, expected {show(dy[k], 120) if k in dy else 'absent'}" for k in ks[:4])
        if x.op == y.op and len(x.args) == len(y.args):
            df = [(a, b) for a, b in zip(x.args, y.args) if a != b]
            if len(df) == 1 and isinstance(df[0][0], Term) and isinstance(df[0][1], Term):
                x, y = df[0]
                path.append(x.op)
                continue
            if len(df) == 1 and isinstance(df[0][0], tuple) and isinstance(df[0][1], tuple) and len(df[0][0]) == len(df[0][1]):
                dd = [(a, b) for a, b in zip(*df[0]) if a != b]
                if len(dd) == 1 and isinstance(dd[0][0], Term) and isinstance(dd[0][1], Term):
                    x, y = dd[0]
                    continue
        return _p(path) + f"got {show(x, 220)}, expected {show(y, 220)}"


def _p(path):
    p = [q for q in path if q not in ("comp", "phi")]
    return ("at " + "/".join(p[:6]) + ": ") if p else ""


# ---------------------------------------------------------------- definite
LEAFY = ("const", "sym", "global", "fn", "cls", "builtin", "ext", "mod", "elem", "keyof", "valof", "param")
PATH = ("attr", "item", "elem", "keyof", "valof")
ARITH = ("add*", "mul*", "neg", "div", "floordiv", "mod_", "pow", "len", "sum", "min", "max", "add", "sub", "mul")
BOOLISH = ("and", "or", "not", "eq", "lt", "in", "tt", "exists", "isinstance")


def leafy(t):
    if t.op in LEAFY and t.op not in PATH:
        return True
    if t.op in PATH:
        return all(leafy(a) for a in t.args if isinstance(a, Term))
    return False


def definite(x, y, depth=0):
    """Is the difference between two normalised terms a difference in content
    (another constant, variable, operator, operand, missing or extra part), as
    opposed to two unrelated shapes that may still denote the same value?"""
    if x == y:
        return True
    if depth > 40:
        return False
    if leafy(x) and leafy(y):
        return True
    for p, q in ((x, y), (y, x)):
        if p.op == "len" and q.op == "fold" and p.args[0].op == "comp" and p.args[0].args[1] == K(1) and q.args[:2] == ("add", K(0)):
            return definite(Term("fold", "add", K(0), *p.args[0].args[1:]), q, depth + 1)
    if popped(x) or popped(y):
        return False
    for p, q in ((x, y), (y, x)):
        if p.op in ("list", "tuple") and len(p.args[0]) > 1 and all(z == mk_item(q, K(i)) for i, z in enumerate(p.args[0])):
            # taken apart and put together again
            return False
        if p.op in ("concat", "sjoin", "str") and q.op in ("concat", "sjoin"):
            # all elements joined against some written one by one
            its = {i for z in subterms(p) if z.op == "sjoin" and z.args[1].op == "comp" for i in z.args[1].args[2]}
            if its and any(z.op == "item" and z.args[0] in its for z in subterms(q)):
                return False
    for p, q in ((x, y), (y, x)):
        if p.op == "list" and p.args[0] and all(z.op == "const" for z in p.args[0]) and q.op == "fix":
            return not any(z == p for z in subterms(q))
    if x.op in ("unbound", "undefined") and y.op not in ("unbound", "undefined"):
        return True
    if x.op == "never" or y.op == "never":
        return False
    if x.op == y.op:
        if x.op == "tt":
            return tt_definite(x, y)
        if x.op in ("new",):
            if x.args[0] != y.args[0]:
                return True
            return kw_definite(x.args[1], y.args[1], depth)
        if x.op == "evald":
            sx, sy = (dict(t.args[1]) if len(t.args) > 1 else {} for t in (x, y))
            return definite(x.args[0], y.args[0], depth + 1) and \
                (x.args[0] != y.args[0] or any(k not in sx or (sx[k] != v and definite(sx[k], v, depth + 1)) for k, v in sy.items()))
        if x.op == "call":
            if x.args[0] != y.args[0]:
                return x.args[0].op in ("fn", "cls", "method", "builtin", "ext", "super") and \
                    y.args[0].op in ("fn", "cls", "method", "builtin", "ext", "super") and bool(set(x.args[1]) & set(y.args[1]) or x.args[2] == y.args[2])
            return seq_definite(x.args[1], y.args[1], depth) and kw_definite(x.args[2], y.args[2], depth)
        if x.op in ("add*", "mul*", "and", "or", "set"):
            a = x.args[0] if x.op in ("add*", "mul*", "set") else x.args
            b = y.args[0] if y.op in ("add*", "mul*", "set") else y.args
            return bag_definite(a, b, depth)
        if len(x.args) != len(y.args):
            return seq_definite(x.args, y.args, depth)
        return all(arg_definite(a, b, depth) for a, b in zip(x.args, y.args))
    if x.op == "const" or y.op == "const":
        c, o = (x, y) if x.op == "const" else (y, x)
        if o.op in ("fold", "fix"):
            return not any(z == c for z in subterms(o))
        if o.op == "exists":
            return not isinstance(cval(c), bool)
        return o.op not in ("loopval", "dictcat", "seqcat")
    if {x.op, y.op} <= {"eq", "lt", "not", "in", "and", "or", "tt"}:
        return True
    if x.op in ARITH and y.op in ARITH:
        return True
    if contains(x, y) or contains(y, x):
        return True
    p, q = rigid(x), rigid(y)
    if p is not None and q is not None and p != q:
        return True
    for a, b, r in ((x, y, p), (y, x, q)):
        if a.op in ("sym", "global") and b.op in STRUCT:
            return True
        if r is not None and r.op != "call" and b.op in BUILT:
            return True
        if is_empty_literal(a) and b.op in STRUCT + ("fold", "fix", "sorted", "as"):
            return True
    if x.op in SEQ and y.op in SEQ:
        return True
    if x.op in CONVERT and y.op in CONVERT and x.args == y.args:
        return True
    for a, b in ((x, y), (y, x)):
        if a.op in ("list", "dict", "set", "dictcat", "new", "concat", "sym", "const") and b.op == "call" and b.args[0].op == "fn":
            return True    # one branch calls the library, the other builds something (callees are dissolved before this is believed)
    return False


def popped(t):
    """Taken out of a collection made here, whose content is not followed."""
    while t.op in PATH and t.args:
        t = t.args[0]
    return t.op == "call" and t.args[0].op == "method" and t.args[0].args[0] in ("pop", "popleft", "popitem") and t.args[1] \
        and t.args[1][0].op not in ("sym", "global", "attr")


def rigid(t):
    """Where a value comes from, if nothing was computed on the way: a variable,
    an element of a collection, or a call of a package function."""
    while t.op in ("attr", "item") and not (t.op == "item" and not (is_const(t.args[1]) or leafy(t.args[1]))):
        t = t.args[0]
    if t.op in ("sym", "global"):
        return t
    if t.op in ("elem", "last", "keyof", "valof") and isinstance(t.args[0], Term):
        return Term("rigid", t.op, strip_mark(t.args[0]))
    if t.op == "rec":
        return Term("rigid", "rec")
    if t.op == "call" and t.args[0].op == "fn":
        return t.args[0]
    return None


def strip_mark(t):
    r = rigid(t)
    return r if r is not None else Term("rigid", "?")


BUILT = ("list", "dict", "set", "comp", "dcomp", "concat")
CONVERT = ("str", "float", "int", "abs", "repr", "bool", "complex", "len", "sum", "min", "max", "neg", "sorted")


STRUCT = ("list", "dict", "set", "comp", "dcomp", "seqcat", "dictcat", "add*", "mul*", "neg", "str", "concat", "new",
          "elem", "item", "last", "keyof", "valof", "lam", "items", "fmt", "sjoin", "slice", "rev")
SEQ = ("slice", "rev", "item", "sorted")


def contains(big, small):
    if small.op == "const":
        return False
    n = 0
    layer = [big]
    for _ in range(4):
        nxt = []
        for t in layer:
            for a in t.args:
                nxt += _terms(a)
        if any(a == small for a in nxt):
            return True
        layer = nxt
        n += len(nxt)
        if n > 400:
            return False
    return False


def _terms(a):
    if isinstance(a, Term):
        return [a]
    if isinstance(a, (tuple, frozenset)):
        return [t for x in a for t in _terms(x)]
    return []


def arg_definite(a, b, depth):
    if isinstance(a, Term) and isinstance(b, Term):
        return definite(a, b, depth + 1)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a and b and all(isinstance(z, tuple) and len(z) == 2 and isinstance(z[0], str) for z in a + b):
            return kw_definite(a, b, depth)
        return seq_definite(a, b, depth)
    if isinstance(a, frozenset) and isinstance(b, frozenset):
        return True
    return type(a) == type(b) or (isinstance(a, (str, int)) and isinstance(b, (str, int)))


def kw_definite(a, b, depth):
    da, db = dict(a), dict(b)
    return all(definite(da[k], db[k], depth + 1) for k in set(da) & set(db))


def seq_definite(a, b, depth):
    if len(a) == len(b):
        return all(arg_definite(x, y, depth) for x, y in zip(a, b))
    # parts missing or added: the shorter one is what is left of the longer one
    lo, hi = (a, b) if len(a) < len(b) else (b, a)
    left = list(hi)
    k = 0
    for x in lo:
        if x in left:
            left.remove(x)
            k += 1
    return k == len(lo) or (len(lo) >= 2 and k >= len(lo) - 1)


def bag_definite(a, b, depth):
    a, b = list(a), list(b)
    for x in list(a):
        if x in b:
            a.remove(x)
            b.remove(x)
    if not a or not b:
        return True
    if len(a) == len(b):
        return all(any(definite(x, y, depth + 1) for y in b) for x in a)
    return all(leafy(x) or x.op in BOOLISH + ARITH for x in a + b)


def tt_definite(x, y):
    def at(t):
        return {p[0] for row in t.args[0] for p in row}
    a, b = at(x), at(y)
    if a == b or a < b or b < a:
        return True
    la, lb = list(a - b), list(b - a)
    if len(la) == len(lb):
        return all(any(definite(p, q) for q in lb) for p in la)
    return all(leafy(p) or p.op in BOOLISH or p.op == "call" for p in la + lb)
