"""Regenerate nmcheck/refs from a reviewed tree (manual; never run by a check).

The reference tree is the reviewed semantics the checks compare against: the
package's sources with comments and documentation strings dropped."""
import ast
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
root = sys.argv[1] if len(sys.argv) > 1 else "/repo"
from nmcheck.program import SCRIPTS, PKG

base = os.path.join(root, PKG)
out = os.path.join(HERE, "refs", PKG)


def strip(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            b = n.body
            if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
                n.body = b[1:] or [ast.Pass()]
    return tree


for d, dirs, files in os.walk(base):
    dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "wolfram", "topology_data"))
    for f in sorted(files):
        rel = os.path.relpath(os.path.join(d, f), base)
        if not (f.endswith(".py") and not f.endswith("_test.py") or rel in SCRIPTS):
            continue
        src = open(os.path.join(d, f), encoding="utf-8").read()
        dst = os.path.join(out, rel)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        with open(dst, "w", encoding="utf-8") as fh:
            fh.write(ast.unparse(strip(ast.parse(src))) + "\n")
