import importlib
import json
import os
import re
import sys
import warnings
import time
import hashlib

from .ctx import Ctx, Report
from .program import AnalysisBroken
from .props import P as PROPS, expand
from .refcheck import check_function, check_module, check_module_effects, check_class

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = {}


def rule_module(pid):
    try:
        return importlib.import_module("nmcheck.rules." + pid.lower())
    except ModuleNotFoundError as e:
        if e.name != "nmcheck.rules." + pid.lower():
            raise
        return None


def parts(pid):
    mod = rule_module(pid)
    out = list(mod.PARTS) if mod else []
    out.append(("specification equivalence", lambda ctx, R: anchored(pid, ctx, R)))
    return out


SPEC = ("Specification equivalence: the observable summary (returned value, raising conditions, effects) of each anchored "
        "function, computed by gated value-provenance dataflow over its syntax tree, equals the summary of its specification in "
        "nmcheck/refs under a case split over all branch conditions; module tables are compared as folded values.")


def explain(pid):
    mod = rule_module(pid)
    return ((mod.EXPLAIN + " ") if mod else "") + SPEC


def anchored(pid, ctx, R):
    d = PROPS[pid]
    rule = "equals its specification"
    for m, q in expand(d["fn"]):
        check_function(ctx, R, m, q, rule)
    byglob = {}
    for m, n in expand(d["glob"]):
        byglob.setdefault(m, []).append(n)
    for m, ns in byglob.items():
        check_module(ctx, R, m, ns, "equals its specified value")
        check_module_effects(ctx, R, m, "importing has the specified effects")
    for m, c in expand(d["cls"]):
        check_class(ctx, R, m, c, "class structure is as specified")


def known_findings(pid):
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return out
    for line in open(path, encoding="utf-8"):
        line = line.strip()
        m = re.match(r"^finding: property=(\S+) key=(\S+) (.*)$", line)
        if m and m.group(1) == pid:
            out[m.group(2)] = m.group(3)
    return out


def analyse(pid, root, tier, program=None):
    ctx = Ctx(root, tier, program)
    rep = Report(pid)
    for name, f in parts(pid):
        rep.guard(name, f, ctx, rep)
    return ctx, rep


def slug(s):
    return re.sub(r"[^A-Za-z0-9_.:+=\[\],/<>-]", "_", s)


def main(argv):
    sys.setrecursionlimit(20000)
    warnings.simplefilter("ignore")
    pid = argv[0]
    root = "/repo"
    tier = os.environ.get("VERIF_TIER", "quick")
    verbose = "-v" in argv or "-vv" in argv
    if "--root" in argv:
        root = argv[argv.index("--root") + 1]
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    noev = "--no-evidence" in argv
    t0 = time.time()
    try:
        ctx, rep = analyse(pid, root, tier)
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN: {e}")
        return 2
    known = known_findings(pid)
    new, kn = [], []
    for key, v, where, rule, msg in rep.failed():
        k = slug(key)
        (kn if k in known else new).append((k, where, rule, msg))
    decided = [o for o in rep.obs if o[1] is not None]
    if verbose:
        for key, v, where, rule, msg in rep.obs:
            if v is not True or "-vv" in argv:
                print({True: "ok  ", False: "FAIL", None: "??  "}[v], slug(key), "|", where, "|", msg[:600])
        for e in rep.errors:
            print(e)
    probes = None
    if tier == "thorough":
        from .probe import probe
        probes = probe(pid, ctx, rep)
    ev = {
        "property": pid,
        "tier": "thorough" if tier == "thorough" else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "other",
        "coverage": {
            "explanation": explain(pid),
            "obligations": len(rep.obs),
            "discharged": sum(1 for o in rep.obs if o[1] is True),
            "violated": len(new),
            "known_findings": len(kn),
            "undecided": len(rep.undecided()),
            "functions_analysed": sorted(ctx.functions_seen),
            "call_sites_seen": ctx.calls_seen,
            "modules_loaded": len(ctx.p.modules),
            "obligation_list": [
                {"key": slug(o[0]), "verdict": {True: "holds", False: "violated", None: "undecided"}[o[1]],
                 "where": o[2], "rule": o[3]} for o in rep.obs],
        },
        "wall_s": round(time.time() - t0, 3),
        "violations": [{"description": f"{w}: {m} [{k}]", "replay": f"evidence/{pid}.violations.txt"} for k, w, r, m in new],
    }
    if probes is not None:
        ev["coverage"]["sensitivity_probes"] = probes
    if not noev:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w", encoding="utf-8") as fh:
            json.dump(ev, fh, indent=1)
    for k, where, rule, msg in kn:
        print(f"KNOWN-FINDING: property={pid} {where}: {known[k]}")
    print(f"{pid}: {len(rep.obs)} obligations, {sum(1 for o in rep.obs if o[1] is True)} discharged, "
          f"{len(rep.undecided())} undecided, {len(kn)} known, {len(new)} violated; "
          f"{len(ctx.functions_seen)} functions analysed in {time.time()-t0:.1f}s")
    for key, v, where, rule, msg in ([] if verbose else rep.undecided()):
        print(f"  undecided {slug(key)} at {where}: {msg[:300]}")
    if new:
        path = os.path.join(VERIF, "evidence", pid + ".violations.txt")
        if not noev:
            with open(path, "w", encoding="utf-8") as fh:
                for k, where, rule, msg in new:
                    fh.write(f"{where}\n  rule: {rule}\n  key: {k}\n  {msg}\n")
        for k, where, rule, msg in ([] if verbose else new):
            print(f"  {where}: {msg} [{k}] (rule: {rule})")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if not decided:
        print("ANALYSIS-BROKEN: no obligation could be decided")
        return 2
    return 0
