"""P16 packaged topologies."""
import ast
import collections
import itertools
from functools import lru_cache

from .facts import *

EXPLAIN = ("The packaged partitions and graphs are parsed as data: each partition is matched with its graph vertex by vertex, and the topologies of every leaf content are "
           "compared with an enumeration of all coloured trees with renormalisable vertices.")

REL = "completions/topology_data"
KINDS = (("partitions", ".dat"), ("diagrams", ".png"), ("graphs", ".csv"))


def parse_partition(text):
    def go(n):
        if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Name) or n.keywords:
            raise ValueError("not a nest of List, S and F")
        if n.func.id == "List":
            return tuple(go(x) for x in n.args)
        if n.func.id in ("S", "F") and len(n.args) == 1 and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, int):
            return (n.func.id, n.args[0].value)
        raise ValueError(f"unknown {n.func.id}")
    return go(ast.parse(text.strip(), mode="eval").body)


def is_leaf(x):
    return len(x) == 2 and x[0] in ("S", "F") and isinstance(x[1], int)


def leaves_of(p):
    return [p] if is_leaf(p) else [l for c in p for l in leaves_of(c)]


def canon(G, col):
    def enc(v, par):
        return (col.get(v, ""),) + tuple(sorted(enc(x, v) for x in G[v] if x != par))
    return min(enc(v, None) for v in G if len(G[v]) > 1)


def splits(s_, f, k):
    if k == 1:
        yield ((s_, f),)
        return
    for a in range(s_ + 1):
        for c in range(f + 1):
            if a + c and (s_ - a) + (f - c):
                for r in splits(s_ - a, f - c, k - 1):
                    yield ((a, c),) + r


@lru_cache(None)
def half(s_, f):
    """branches with that many leaves: (kind of the edge, shape); vertices couple
    three scalars, four scalars or a scalar and two fermions"""
    out = set()
    if (s_, f) == (1, 0):
        out.add(("S", ("S",)))
    if (s_, f) == (0, 1):
        out.add(("F", ("F",)))
    for k in (2, 3):
        for parts in splits(s_, f, k):
            for combo in itertools.product(*[half(*q) for q in parts]):
                nf = sum(t == "F" for t, _ in combo)
                if k == 2 or nf == 0:
                    out.add(("F" if nf % 2 else "S", ("",) + tuple(sorted(e for _, e in combo))))
    return out


def trees(s_, f):
    out = set()
    for k in (3, 4):
        for parts in splits(s_, f, k):
            for combo in itertools.product(*[half(*q) for q in parts]):
                nf = sum(t == "F" for t, _ in combo)
                if nf in (0, 2) if k == 3 else nf == 0:
                    out.add(("",) + tuple(sorted(e for _, e in combo)))

    def to_graph(e):
        G, col, n = collections.defaultdict(set), {}, [0]

        def go(x):
            v = n[0]
            n[0] += 1
            if x[0]:
                col[v] = x[0]
            for y in x[1:]:
                u = go(y)
                G[v].add(u)
                G[u].add(v)
            return v
        go(e)
        return canon(G, col)
    contact = s_ + f <= 4
    got = {to_graph(e) for e in out}
    if contact:
        # a single vertex has no internal line
        got = {g for g in got if any(len(x) > 1 for x in g[1:])} if got else got
    return got


def topologies(ctx, R):
    base = data_path(ctx, REL)
    stems = {}
    for d, ext in KINDS:
        try:
            stems[d] = {x[:-len(ext)] for x in os.listdir(os.path.join(base, d)) if x.endswith(ext)}
        except OSError as e:
            R.ob(f"{d}:exists", False, f"neutrinomass/{REL}/{d}", "topology-files", str(e))
            return
        other = [x for x in os.listdir(os.path.join(base, d)) if not x.endswith(ext) and re.match(r"\d+s\d+f_", x)]
        R.ob(f"{d}:only", not other, f"neutrinomass/{REL}/{d}", "topology-files", f"unexpected {other[:3]} would be paired with other topologies")
    allst = set().union(*stems.values())
    for d, _ in KINDS:
        for x in sorted(allst - stems[d]):
            R.ob(f"{d}.{x}:exists", False, f"neutrinomass/{REL}/{d}", "topology-files", f"{x} is missing: the pairing by position is shifted")
    shapes = {}
    for st in sorted(allst):
        if not all(st in stems[d] for d, _ in KINDS):
            continue
        w = f"neutrinomass/{REL} {st}"
        m = re.match(r"(\d+)s(\d+)f_(\d+)$", st)
        if m is None:
            R.ob(f"{st}:name", False, w, "topology-files", "name is not <scalars>s<fermions>f_<number>")
            continue
        ns, nf, num = map(int, m.groups())
        try:
            with open(os.path.join(base, "partitions", st + ".dat"), encoding="utf-8") as fh:
                p = parse_partition(fh.read())
            G = collections.defaultdict(set)
            edges = 0
            with open(os.path.join(base, "graphs", st + ".csv"), encoding="utf-8") as fh:
                for line in fh.read().splitlines():
                    i, j = ast.literal_eval(line)
                    G[i].add(j)
                    G[j].add(i)
                    edges += 1
        except (ValueError, SyntaxError, TypeError) as e:
            R.ob(f"{st}:parses", False, w, "topology-files", f"{type(e).__name__}: {e}")
            continue
        lv = leaves_of(p)
        col = {v: k for k, v in lv}
        kinds = collections.Counter(k for k, _ in lv)
        bad = []
        if (kinds["S"], kinds["F"]) != (ns, nf):
            bad.append(("leaves", f"{kinds['S']} scalar and {kinds['F']} fermion leaves"))
        if len(col) != len(lv):
            bad.append(("leaves", "two leaves share a vertex"))
        ext = {v for v in G if len(G[v]) == 1}
        if ext != set(col):
            bad.append(("external", f"external vertices {sorted(ext ^ set(col))[:4]} and leaves differ"))
        if edges != len(G) - 1:
            bad.append(("tree", f"{len(G)} vertices and {edges} edges"))
        if {len(G[v]) for v in G} - {1, 3, 4}:
            bad.append(("degree", "a vertex joins neither three nor four lines"))

        def vert(x):
            if is_leaf(x):
                return x[1]
            cs = [vert(c) for c in x]
            if None in cs:
                return None
            common = set.intersection(*[G[c] for c in cs])
            return next(iter(common)) if len(common) == 1 else None
        if not bad:
            root = [vert(c) for c in p]
            if None in root or not (set.intersection(*[G[c] for c in root]) or (len(root) == 2 and root[1] in G[root[0]])):
                bad.append(("nesting", "the nesting of the partition is not that of the graph"))
        for a, t in bad:
            R.ob(f"{st}:{a}", False, w, "partition-matches-graph", t)
        if not bad:
            R.ob(f"{st}:consistent", True, w, "partition-matches-graph")
            shapes.setdefault((ns, nf), {}).setdefault(canon(G, col), []).append(st)
    for (ns, nf), sh in sorted(shapes.items()):
        w = f"neutrinomass/{REL} {ns}s{nf}f"
        twice = [v for v in sh.values() if len(v) > 1]
        R.ob(f"{ns}s{nf}f:distinct", not twice, w, "topologies-complete", f"{twice[:1]} are the same topology")
        want = trees(ns, nf)
        R.ob(f"{ns}s{nf}f:complete", want <= set(sh), w, "topologies-complete", f"{len(want - set(sh))} of {len(want)} topologies are missing")
        R.ob(f"{ns}s{nf}f:renormalisable", set(sh) <= want, w, "topologies-complete", f"{[sh[x] for x in set(sh) - want][:2]} are not trees of renormalisable vertices")
    need = set()
    for rel in ("completions/operators.p", "completions/deriv_operators.p"):
        try:
            d = read_pickle(data_path(ctx, rel))
        except Exception:
            continue
        for k, op in d.items():
            fs, _ = stored_operator(op)
            h = sum(f.name == "H" for f in fs)
            need.add((h, len(fs) - h))
    for ns, nf in sorted(need):
        R.ob(f"{ns}s{nf}f:present", (ns, nf) in shapes, f"neutrinomass/{REL}", "topologies-complete", f"no topologies for operators with {ns} scalars and {nf} fermions")


PARTS = [("topology data", topologies)]
