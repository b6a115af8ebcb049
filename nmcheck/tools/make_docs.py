"""Writes properties.jsonl and MANIFEST.json from nmcheck/props.py (run by hand)."""
import json
import os

from ..props import P, expand

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

NA = [
]

TECH = {
    "effects": "static effect analysis (writes to parameters, defaults, globals) over the call graph",
    "names": "static name, import and call-signature resolution over all control-flow paths",
    "sm": "constant folding of module tables, anomaly and Yukawa arithmetic on the folded table",
    "catalogue": "decoding of pickled tables without executing them, charge and index accounting",
    "hilbert": "constant folding of series tables, charge accounting per monomial",
    "closures": "constant folding of rewrite rules, charge accounting per rule",
    "topologies": "parsing of topology data, graph/leaf accounting",
    "data": "decoding of packaged data without executing it, cross-checking names with the source",
    "loops": "constant folding of tables, gauge-invariance accounting per row",
}
BASE = "gated value-provenance dataflow over the AST, compared by case split with a specification summary"


def path_of(mod):
    return "neutrinomass/" + (mod[:-len("__script")].replace(".", "/") if mod.endswith("__script") else mod.replace(".", "/") + ".py")


def main():
    from ..runner import rule_module
    with open(os.path.join(VERIF, "properties.jsonl"), "w", encoding="utf-8") as fh:
        for pid, d in sorted(P.items()):
            mods = []
            for m, _ in list(expand(d["fn"])) + list(expand(d["glob"])) + list(expand(d["cls"])):
                if path_of(m) not in mods:
                    mods.append(path_of(m))
            mech = [{"name": n, "where": w} for n, w in d["mech"]]
            for m, names in d["fn"]:
                mech.append({"name": names.replace(" ", ", "), "where": path_of(m)})
            over = d["over"]
            row = {"id": pid, "title": d["title"], "statement": d["statement"],
                   "quantifier": {"over": over, "text": d["qtext"]},
                   "why_tests_cant": d["why"][0].upper() + d["why"][1:] + ".",
                   "anchors": {"files": mods or ["neutrinomass"], "mechanism": mech}}
            fh.write(json.dumps(row, ensure_ascii=False) + "\n")
    checks = []
    for pid, d in sorted(P.items()):
        t = TECH.get(d["rule"])
        own = rule_module(pid) is not None
        tech = "; ".join(x for x in ([t] if t else []) + ([BASE] if d["fn"] or d["glob"] or own else []) if x)
        note = ("Decides every listed obligation from the source of /repo for all inputs; obligations the dataflow cannot decide are reported as undecided, never as holding. "
                "Trusts the dataflow engine, the specification in nmcheck/refs and the rule, and assumes third-party libraries behave as documented.")
        checks.append({"property": pid, "quick_cmd": f"python3 -m nmcheck {pid} --tier quick",
                       "thorough_cmd": f"python3 -m nmcheck {pid} --tier thorough",
                       "technique": "static analysis: " + (tech or BASE), "level": "other", "level_note": note})
    man = {"version": 1, "setup_cmd": "python3 --version", "checks": checks, "not_applicable": NA,
           "notes": "All checks are one standard-library Python static analyser (nmcheck); nothing of /repo is executed or imported."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w", encoding="utf-8") as fh:
        json.dump(man, fh, indent=1, ensure_ascii=False)
        fh.write("\n")


if __name__ == "__main__":
    main()
