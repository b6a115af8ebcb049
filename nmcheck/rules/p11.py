"""P11 quantum numbers of the Standard Model fields."""
from .facts import *

EXPLAIN = ("The tables of tensormethod/sm are folded to constants; representations, statistics and generations are compared with the "
           "Standard Model assignments, and neutrality of the Yukawa couplings and cancellation of the gauge anomalies are computed from them.")

#        SU(2)xSU(2) colour isospin   y        3b  generations
TABLE = {
    "L": ("10", "00", "1", Fraction(-1, 2), 0, 3), "Q": ("10", "10", "1", Fraction(1, 6), 1, 3),
    "eb": ("10", "00", "0", Fraction(1), 0, 3), "ub": ("10", "01", "0", Fraction(-2, 3), -1, 3),
    "db": ("10", "01", "0", Fraction(1, 3), -1, 3), "H": ("00", "00", "1", Fraction(1, 2), 0, 1),
    "G": ("20", "11", "0", Fraction(0), None, 1), "Gb": ("02", "11", "0", Fraction(0), None, 1),
    "W": ("20", "00", "2", Fraction(0), None, 1), "Wb": ("02", "00", "2", Fraction(0), None, 1),
    "B": ("20", "00", "0", Fraction(0), None, 1), "Bb": ("02", "00", "0", Fraction(0), None, 1),
}
# three-index colour representations are stored as (p, q) labels in the order
# the code uses: "10" for Q and "10"/"01" for the conjugate triplets


def table(ctx, R):
    fs = sm_fields(ctx)
    m = ctx.p.module("tensormethod.sm")
    for n, (lor, col, iso, y, b, nf) in TABLE.items():
        lines = [x.lineno for x in m.top.get(n, []) if hasattr(x, "lineno")]
        w = f"neutrinomass/{m.rel}:{lines[0] if lines else 0} {n}"
        f = fs.get(n)
        if f is None:
            R.ob(f"sm.{n}:folded", None, w, "table", "field is not a constant")
            continue
        d = f.dynkin
        R.ob(f"sm.{n}:lorentz", d[:2] == lor, w, "representation", f"Lorentz representation {d[:2]}, expected {lor}")
        R.ob(f"sm.{n}:colour", d[2:4] == col, w, "representation", f"colour representation {d[2:4]}, expected {col}")
        R.ob(f"sm.{n}:isospin", d[4:] == iso, w, "representation", f"isospin {d[4:]}, expected {iso}")
        R.ob(f"sm.{n}:hypercharge", f.y == y, w, "charge", f"hypercharge {f.y}, expected {y}")
        R.ob(f"sm.{n}:baryon number", f.b == b or (b is None and f.b == 0), w, "charge", f"3B = {f.b}, expected {b}")
        fermi = (int(d[0]) + int(d[1])) % 2 == 1
        R.ob(f"sm.{n}:statistics", None if f.comm is None else (f.comm == ("fermi" if fermi else "bose")), w, "spin-statistics",
             f"statistics {f.comm} for Lorentz representation {d[:2]}")
        R.ob(f"sm.{n}:generations", f.nf == nf, w, "generations", f"{f.nf} generations, expected {nf}")
        R.ob(f"sm.{n}:label", None if f.label is None else f.label == n, w, "label", f"label {f.label}")
        # the derived labels, evaluated from the class definitions
    if any(fs.get(n) is None for n in ("L", "Q", "eb", "ub", "db", "H")):
        return
    L, Q, eb, ub, db, H = (fs[n] for n in ("L", "Q", "eb", "ub", "db", "H"))
    w = f"neutrinomass/{m.rel}"
    for nm, s in (("L eb H†", L.y + eb.y - H.y), ("Q ub H", Q.y + ub.y + H.y), ("Q db H†", Q.y + db.y - H.y)):
        R.ob(f"yukawa:{nm}", s == 0, w, "yukawa-neutrality", f"hypercharges of {nm} sum to {s}")

    def dims(f):
        return (3 if f.dynkin[2:4] in ("10", "01") else 1), int(f.dynkin[4]) + 1
    ferm = (L, Q, eb, ub, db)
    c = {f.name: dims(f) for f in ferm}
    an = {
        "gravity-U(1)": sum(c[f.name][0] * c[f.name][1] * f.y for f in ferm),
        "U(1)^3": sum(c[f.name][0] * c[f.name][1] * f.y ** 3 for f in ferm),
        "SU(2)^2 U(1)": sum(c[f.name][0] * f.y for f in ferm if c[f.name][1] == 2),
        "SU(3)^2 U(1)": sum(c[f.name][1] * f.y for f in ferm if c[f.name][0] == 3),
        "SU(3)^3": sum((1 if f.dynkin[2:4] == "10" else -1) * c[f.name][1] for f in ferm if c[f.name][0] == 3),
        "SU(2) parity": sum(c[f.name][0] for f in ferm if c[f.name][1] == 2) % 2,
    }
    for k, v in an.items():
        R.ob(f"anomaly:{k}", v == 0, w, "anomaly-cancellation", f"anomaly {k} is {v}")


PARTS = [("fields", table)]
