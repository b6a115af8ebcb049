"""Sensitivity probes (thorough tier): single-edit variants of the anchored
functions are analysed in memory, to measure how many edits the check of this
property would notice.  Probes are measurements of the analyser: they are
recorded in the evidence and never raise or suppress an alarm."""
import collections
import os
import random
import sys
import time
import warnings
from multiprocessing import Pool

from .ctx import Ctx
from .props import P as PROPS, expand

BUDGET = 420.0
_state = {}


def _init(root, t_end):
    sys.setrecursionlimit(20000)
    warnings.simplefilter("ignore")
    _state["ctx"] = Ctx(root)
    _state["end"] = t_end


def _job(a):
    mod, qual, seed, limit = a
    from .refcheck import Pair
    from .tools.variants import variant, mutant_sources
    base = _state["ctx"]
    c = collections.Counter()
    missed = []
    t0 = time.time()
    try:
        m, fn = base.p.function(mod, qual)
    except Exception:
        return mod, qual, {}, []
    srcs = list(mutant_sources(m, qual))
    random.Random(f"{seed}:{mod}:{qual}").shuffle(srcs)
    for desc, ln, src in srcs:
        if time.time() > _state["end"] or time.time() - t0 > limit:
            c["not tried"] += 1
            continue
        try:
            p = variant(base.p, m.name, src)
            r, _ = Pair(Ctx(base.root, program=p)).decide(mod, qual)
            vs = [x[1] for x in r]
            v = "noticed" if False in vs else "undecided" if None in vs else "equivalent"
        except Exception:
            v = "undecided"
        c[v] += 1
        if v != "noticed" and len(missed) < 8:
            missed.append(f"line {ln}: {desc} ({v})")
    return mod, qual, dict(c), missed


def probe(pid, ctx, rep):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    todo = []
    for mod, qual in expand(PROPS[pid]["fn"]):
        if (mod, qual) not in todo:
            todo.append((mod, qual))
    if not todo:
        return {"functions": 0, "variants": 0}
    t_end = time.time() + BUDGET
    n = min(8, os.cpu_count() or 1)
    limit = max(15.0, 2.0 * BUDGET * n / max(1, len(todo)))
    tot, rows = collections.Counter(), []
    with Pool(n, initializer=_init, initargs=(ctx.root, t_end)) as pool:
        for mod, qual, c, missed in pool.imap_unordered(_job, [(m, q, seed, limit) for m, q in todo]):
            tot.update(c)
            rows.append({"function": f"{mod}.{qual}", **c, "not_noticed": missed})
    rows.sort(key=lambda r: r["function"])
    return {"functions": len(rows), "variants": sum(tot.values()), "totals": dict(tot), "by_function": rows}
