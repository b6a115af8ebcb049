"""P12 every catalogued operator violates lepton number by two and is a singlet."""
from .facts import *

EXPLAIN = ("The packaged operator tables are decoded into inert records, the operators written in code are folded to field and tensor lists, "
           "and charges, mass dimension and index contractions of each are summed; field contents are matched with the label table, and the catalogue is compared with an enumeration of all field contents admitting an invariant (characters) and of all isospin pairings.")

STORED = (("completions/operators.p", "operators"), ("completions/deriv_operators.p", "deriv_operators"))


def report(R, key, where, probs, rule="operator-accounting"):
    for aspect, text in probs:
        R.ob(f"{key}:{aspect}", False, where, rule, text)
    if not probs:
        R.ob(f"{key}:accounting", True, where, rule)


def load(ctx, R, rel):
    path = data_path(ctx, rel)
    try:
        return read_pickle(path)
    except FileNotFoundError:
        R.ob(f"{rel}:exists", False, "neutrinomass/" + rel, "packaged-data", "file is missing")
    except Exception as e:
        R.ob(f"{rel}:decodes", None, "neutrinomass/" + rel, "packaged-data", f"{type(e).__name__}: {e}")
    return None


def stored(ctx, R):
    sm = sm_fields(ctx)
    for rel, nm in STORED:
        d = load(ctx, R, rel)
        if d is None:
            continue
        for k, op in d.items():
            w = f"neutrinomass/{rel} operator {k}"
            fs, ts = stored_operator(op)
            report(R, f"{nm}.{k}", w, accounting(fs, ts))
            for f in fs:
                s = sm.get(f.name)
                if s is None:
                    R.ob(f"{nm}.{k}.{f.name}:field", f.name in sm or False, w, "stored-field", f"field {f.name} is not a Standard Model field")
                    continue
                sg = -1 if f.conj else 1
                if f.y != sg * s.y or f.b != sg * (s.b or 0):
                    R.ob(f"{nm}.{k}.{f.name}:charges", False, w, "stored-field", f"{f.key()} is stored with y={f.y}, 3B={f.b}; the field has y={sg*s.y}, 3B={sg*(s.b or 0)}")


def written(ctx, R):
    sm = sm_fields(ctx)
    if any(v is None for v in sm.values()):
        R.ob("written:fields", None, "", "operator-accounting", "Standard Model fields are not constants")
        return
    vals = values(ctx, "completions.operators")
    st = load(ctx, R, STORED[0][0]) or {}
    m = ctx.p.module("completions.operators")
    tab = vals.get("EFF_OPERATORS")
    if tab is None or tab.op != "dictcat":
        R.ob("written:table", None, f"neutrinomass/{m.rel}", "operator-accounting", "table of operators not recognised")
        return
    for e in tab.args[0]:
        if e.op != "pair" or not is_const(e.args[0]):
            continue
        k, t = cval(e.args[0]), e.args[1]
        w = f"neutrinomass/{m.rel} EFF_OPERATORS[{k!r}]"
        got = None
        if t.op == "new":
            a = dict(t.args[1])
            R.ob(f"written.{k}:name", None if not is_const(a.get("name", NONE)) else cval(a["name"]) == k, w, "label", f"operator {k} is named {show(a.get('name', NONE))}")
            op = a.get("operator")
            if op is not None and op.op == "call" and op.args[0].op == "fn" and op.args[0].args[0].endswith(".prod"):
                lst = dict(op.args[2]).get("lst") or (op.args[1][0] if op.args[1] else None)
                if lst is not None:
                    tabs = {}

                    def f(x):
                        # EFF_OPERATORS at the time of use: only stored labels are looked up
                        return x
                    got = written_operator(lst, sm, st)
        if got is None:
            R.ob(f"written.{k}:form", None, w, "operator-accounting", "operator not recognised: " + show(t, 160))
            continue
        report(R, f"written.{k}", w, accounting(*got))


def labels(ctx, R):
    """the field content listed under a number is that of the operators stored under it"""
    vals = values(ctx, "tensormethod.lnv")
    m = ctx.p.module("tensormethod.lnv")
    st = load(ctx, R, STORED[0][0]) or {}
    sm = sm_fields(ctx)
    content = {}
    for k, op in st.items():
        mm = re.match(r"\d+", k)
        if mm:
            content.setdefault(int(mm.group()), {})[k] = tuple(sorted(f.key() for f in stored_operator(op)[0]))
    for name in ("bl_list", "BL_LIST"):
        d = dictmap(vals.get(name, NONE)) if name in vals else None
        w = f"neutrinomass/{m.rel} {name}"
        if d is None:
            R.ob(f"lnv.{name}:folded", None, w, "label-table", "table is not constant")
            continue
        nums = [number(v) for v in d.values()]
        R.ob(f"lnv.{name}:numbers", len(set(nums)) == len(nums), w, "label-table", "two field contents share a number")
        for k, v in d.items():
            n = number(v)
            if k.op not in ("tuple", "list") or n is None or not all(is_const(x) for x in k.args[0]):
                R.ob(f"lnv.{name}:entry", None, w, "label-table", show(k, 80))
                continue
            names = tuple(sorted(str(cval(x)) for x in k.args[0]))
            fs = []
            for x in names:
                base, cj = (x[:-5], True) if x.endswith(".conj") else (x, False)
                s = sm.get(base)
                if s is None:
                    R.ob(f"lnv.{name}.{n}:{x}", False, w, "label-table", f"{x} is not a Standard Model field")
                    continue
                sg = -1 if cj else 1
                idx = ["u"] * int(s.dynkin[0]) + ["d"] * int(s.dynkin[1])
                if cj:
                    idx = ["d"] * int(s.dynkin[0]) + ["u"] * int(s.dynkin[1])
                col = {"00": [], "10": ["c"], "01": ["-c"]}.get(s.dynkin[2:4], [])
                if cj:
                    col = [i[1:] if i[0] == "-" else "-" + i for i in col]
                n0 = len(fs)
                fs.append(F(base, cj, sg * s.y, sg * (s.b or 0), [f"{i}{n0}{j}" for j, i in enumerate(idx + col)]))
            report(R, f"lnv.{name}.{n}", w + f" {n}", accounting(fs, []), "label-table")
            if name == "BL_LIST":
                R.ob(f"lnv.{name}.{n}:sorted", tuple(str(cval(x)) for x in k.args[0]) == names, w, "label-table", f"content of {n} is not in sorted order")
            for lab, c in content.get(int(n), {}).items():
                R.ob(f"lnv.{name}.{n}:{lab}", c == names, w, "label-matches-operator", f"{n} lists {names}, operator {lab} has {c}")


def content_of(fields):
    c = {}
    for f in fields:
        k = f.name + ("d" if f.conj else "")
        c[k] = c.get(k, 0) + 1
    return frozenset(c.items())


def pairing(fields, tensors):
    """which field kinds the isospin epsilons connect"""
    own = {i: f.key() for f in fields for i in f.indices}
    out = []
    for e in tensors:
        if {i.lstrip("-")[0] for i in e} == {"i"}:
            out.append(tuple(sorted(own.get(i[1:] if i[0] == "-" else "-" + i, "?") for i in e)))
    return tuple(sorted(out))


def pairings(names):
    if not names:
        yield ()
        return
    for j in range(1, len(names)):
        for r in pairings(names[1:j] + names[j + 1:]):
            yield (tuple(sorted((names[0], names[j]))),) + r


def structures(ctx, R):
    """every field content occurs, with every isospin structure exactly once"""
    from .p13 import contents, count_invariants, account, name_of
    sm = sm_fields(ctx)
    st = load(ctx, R, STORED[0][0]) or {}
    by = {}
    for k, op in st.items():
        fs, ts = stored_operator(op)
        by.setdefault(content_of(fs), {})[k] = (pairing(fs, ts), fs)
    w = "neutrinomass/" + STORED[0][0]
    for c, d in by.items():
        nm = name_of(dict(c), 0)
        fs = next(iter(d.values()))[1]
        dbl = [f.key() for f in fs for i in f.indices if i.lstrip("-")[0] == "i"]
        want = {tuple(sorted(p)) for p in pairings(dbl)}
        want = {p for p in want if not any(x == y and x.split(".")[0] == "H" for x, y in p)}
        have = {}
        for k, (p, _) in d.items():
            if p in have:
                R.ob(f"operators.{k}:distinct", False, w + f" operator {k}", "isospin-structures", f"same isospin structure as operator {have[p]}")
            have[p] = k
            R.ob(f"operators.{k}:structure", p in want, w + f" operator {k}", "isospin-structures", f"contraction {p} vanishes or is not between doublets")
        R.ob(f"operators[{nm}]:complete", want <= set(have), w, "isospin-structures", f"structures {sorted(want - set(have))[:2]} of {nm} are missing")
        nums = {re.match(r"\d*", k).group() for k in d}
        lets = sorted(k[len(re.match(r"\d*", k).group()):] for k in d)
        ok = len(nums) == 1 and lets == ([""] if len(d) == 1 else [chr(97 + i) for i in range(len(d))])
        R.ob(f"operators[{nm}]:labels", ok, w, "label", f"labels {sorted(d)} of {nm}")
    # contents of every dimension that admit an invariant
    have = set(by)
    vals = values(ctx, "completions.operators")
    tab = vals.get("EFF_OPERATORS")
    whole = tab is not None and tab.op == "dictcat"
    for e in (tab.args[0] if whole else ()):
        if e.op == "pair":
            got = None
            if e.args[1].op != "new":
                whole = False
                continue
            op = dict(e.args[1].args[1]).get("operator")
            if op is not None and op.op == "call":
                lst = dict(op.args[2]).get("lst") or (op.args[1][0] if op.args[1] else None)
                got = written_operator(lst, sm, st) if lst is not None else None
            if got is not None:
                have.add(content_of(got[0]))
            else:
                whole = False
    have.add(frozenset({"H": 5, "Hd": 3, "L": 2}.items()))   # 1ppp, left out on purpose
    n = 0
    for dim in (5, 7, 9, 11):
        for c, d in contents(dim, sm, False, False):
            if account(c, 0, sm)[0] or not count_invariants(c, sm, 0):
                continue
            n += 1
            if frozenset(c.items()) not in have:
                R.ob(f"catalogue[{name_of(c, 0)}]:missing", False if whole else None, "neutrinomass/completions/operators.py EFF_OPERATORS", "catalogue-complete",
                     f"no operator with field content {name_of(c, 0)}")
    R.ob("catalogue:complete", n > 0, "neutrinomass/completions/operators.py EFF_OPERATORS", "catalogue-complete", f"{n} field contents of dimension 5 to 11")
    # derivative operators carry the content listed under their number
    from .p13 import poly_flat, poly, split_mono, NotPoly
    dn = dictmap(values(ctx, "tensormethod.deriv_operators").get("deriv_operator_names", NONE)) or {}
    names = {}
    for k, v in dn.items():
        try:
            (mono, _), = poly_flat(v).items()
            c, nd, _ = split_mono(mono)
            names[str(cval(k))] = (frozenset(c.items()), nd)
        except (NotPoly, ValueError):
            pass
    for k, op in (load(ctx, R, STORED[1][0]) or {}).items():
        fs, _ = stored_operator(op)
        m = re.match(r"D(\d+)", k)
        got = (content_of(fs), sum(f.derivs for f in fs))
        w = f"neutrinomass/{STORED[1][0]} operator {k}"
        if m is None or m.group(1) not in names:
            R.ob(f"deriv_operators.{k}:label", False if names else None, w, "label-matches-operator", "label is not in deriv_operator_names")
            continue
        R.ob(f"deriv_operators.{k}:label", got == names[m.group(1)], w, "label-matches-operator",
             f"stored content {name_of(dict(got[0]), got[1])}, listed {name_of(dict(names[m.group(1)][0]), names[m.group(1)][1])}")


PARTS = [("stored operators", stored), ("written operators", written), ("label table", labels), ("structures", structures)]
