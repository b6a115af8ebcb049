"""P09: calls do not mutate what they were given, defaults, module tables or the
shared Standard Model fields."""
import ast

from ..effects import Effects
from ..refcheck import pair
from ..program import PKG

EXPLAIN = ("Interprocedural side-effect analysis: a points-to abstraction (parameters and module globals by depth, allocation sites, "
           "fields) gives for every function the parameters and globals a statement in it or in a callee may write to; every such "
           "write must be one of the documented in-place operations.")

# documented in-place operations: function -> {parameter: (deepest level written, where the purpose is stated)}
ANY = 9
ALLOWED = {
    "utils.functions.remove_equivalent": {"l": (0, "docstring: modifies the list it is given")},
    "completions.completions.slow_remove_equivalent_completions": {"comps": (0, "deduplicates in place through remove_equivalent")},
    "completions.completions.contract": {"field_dict": (0, "shared symbol assignment"), "symbols": (1, "consumes fresh symbols")},
    "completions.completions.exotic_field_and_term": {"field_dict": (0, "comment: field_dict mutated here"), "symbols": (1, "consumes fresh symbols")},
    "completions.completions.replace_and_mutate": {"field_dict": (0, "docstring"), "symbols": (1, "docstring"), "edge_dict": (0, "docstring"),
                                                   "terms": (0, "docstring"), "lorentz_epsilons": (0, "docstring")},
    "completions.completions.is_contracted_epsilon": {"indices": (0, "docstring: acts on the index list")},
    "completions.completions.partition_completion": {"partition": (1, "annotates the edges of the partition's own graph")},
    "tensormethod.contract.construct_operators": {"_stack": (0, "private accumulator of the recursion")},
    "tensormethod.core.IndexedField.latex_and_pop": {"index_dict": (0, "docstring"), "style": (1, "docstring")},
    "tensormethod.core.IndexedField.substitute_indices": {"self": (1, "in-place form of substituted_indices")},
    "database.closures.neutrino_mass_estimate": {"eff_op": (1, "analysis precision: the list comes from clean(), which builds it")},
    "database.utils.estimate_np_scale": {"eff_op": (1, "as neutrino_mass_estimate")},
    "database.utils.get_leading_mv": {"eff_op": (1, "as neutrino_mass_estimate")},
    "database.utils.table_data": {"eff_op": (1, "as neutrino_mass_estimate")},
    "database.database.ModelDatabase.__init__": {"data": (ANY, "comment: sort all of the terms by side effect")},
}
# the database object is documented as stateful
STATEFUL = ("database.database.ModelDatabase.",)
# analysis precision: lists built by closures.clean are indistinguishable from the operators given
PRECISION = {("G", "neutrinomass.completions.operators.EFF_OPERATORS"), ("G", "neutrinomass.completions.operators.DERIV_EFF_OPERATORS")}


def short(q):
    return q[len(PKG) + 1:]


def effects_of(ctx):
    if getattr(ctx, "_effects", None) is None:
        ctx._effects = Effects(ctx.p)
    return ctx._effects


class Judge:
    def __init__(self, ctx):
        self.E = effects_of(ctx)
        P = pair(ctx)
        self.spec = set(P.spec)
        self.ref_globals = P.ref_globals
        self.classes = P.cur_classes()
        self.memo = {}

    def allowed(self, q, o):
        kind, name, lvl = o
        a = ALLOWED.get(short(q), {})
        if kind == "P" and name in a and lvl <= a[name][0]:
            return True
        if kind == "P" and name == "self" and any(short(q).startswith(s) for s in STATEFUL):
            return True
        return False

    def new_global(self, name):
        return name not in self.ref_globals and not name.startswith("<cached") and ".<default" not in name

    def reported(self, q, o):
        """the write to o is a violation of function q itself"""
        k = (q, o)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = False
        out = False
        if q in self.spec and not self.allowed(q, o):
            for what, node, md, via in self.E.sum[q].eff.get(o, []):
                if via is None or not self.reported(*via):
                    if via is not None and self.precision(via, o):
                        continue
                    out = (what, node, md)
                    break
        self.memo[k] = out
        return out

    @staticmethod
    def precision(via, o):
        c, co = via
        return co[0] == "P" and "analysis precision" in ALLOWED.get(short(c), {}).get(co[1], (0, ""))[1] or \
            co[0] == "P" and "as neutrino_mass_estimate" in ALLOWED.get(short(c), {}).get(co[1], (0, ""))[1] or \
            (o[0], o[1]) in PRECISION and co[0] == "G"


def describe(o):
    kind, name, lvl = o
    if kind == "P":
        return f"its argument {name}" if lvl == 0 else f"something inside its argument {name}"
    if ".<default" in name:
        return f"the shared default value of {name}"
    if name.startswith("<cached"):
        return f"the shared {name[1:-1]}"
    return f"the shared {name[len(PKG)+1:]}" + ("" if lvl == 0 else " (inside it)")


def functions(ctx, R):
    J = Judge(ctx)
    rule = "writes only to objects it created, or as documented"
    for q, (m, fn) in sorted(J.E.fns.items()):
        ctx.functions_seen.add(q)
        if q not in J.spec:
            continue
        where = f"neutrinomass/{m.rel}:{fn.lineno} {short(q)}"
        seen = {}
        for o in sorted(J.E.sum[q].eff, key=lambda o: (o[0], o[1], o[2])):
            r = J.reported(q, o)
            if not r:
                continue
            what, node, md = r
            v = False
            if o[0] == "G" and J.new_global(o[1]):
                v = None
                nm = o[1].split(".")[-1]
                if o[2] >= 1 and not any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(fn)) and r[2] is m:
                    v = False
            if o[0] == "P" and o[1] == "self" and o[2] == 0 and v is False and private_cache(J.E, q, fn):
                v = None
            k = (o[0], o[1])
            if k in seen and not (seen[k][0] is None and v is False):
                continue
            seen[k] = (v, what, node, o)
        for (kind, name), (v, what, node, o) in seen.items():
            nm = name if kind == "P" else name.replace(PKG + ".", "")
            R.ob(f"{short(q)}:writes {nm}", v, f"neutrinomass/{m.rel}:{getattr(node, 'lineno', fn.lineno)} {short(q)}", rule,
                 f"changes {describe(o)}: {what}")
        if not seen:
            R.ob(f"{short(q)}:effects", True, where, rule)


def private_cache(E, q, fn):
    """the only attributes stored on self are private ones"""
    me = fn.args.args[0].arg if fn.args.args else None
    st = [x for x in ast.walk(fn) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)
          and isinstance(x.value, ast.Name) and x.value.id == me]
    return bool(st) and all(x.attr.startswith("_") for x in st)


def module_level(ctx, R):
    E = effects_of(ctx)
    J = Judge(ctx)
    rule = "importing a module changes no other module's objects"
    for mn, s in sorted(E.mod_eff.items()):
        m = ctx.p.modules[mn]
        seen = set()
        for o in sorted(s.eff, key=str):
            if o[0] != "G" or o[1].startswith(mn + ".") or J.new_global(o[1]):
                continue
            es = [e for e in s.eff[o] if e[3] is None or not (J.reported(*e[3]) or J.precision(e[3], o))]
            if not es or o[1] in seen:
                continue
            seen.add(o[1])
            what, node, md, via = es[0]
            R.ob(f"{short(mn) or 'neutrinomass'}:writes {short(o[1])}", False, f"neutrinomass/{m.rel}:{node.lineno}", rule,
                 f"module body changes {describe(o)}: {what}")
        if not seen:
            R.ob(f"{short(mn) or 'neutrinomass'}:module effects", True, f"neutrinomass/{m.rel}", rule)


PARTS = [("function effects", functions), ("module effects", module_level)]
