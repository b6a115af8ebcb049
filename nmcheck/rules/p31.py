"""P31 packaged data files."""
import ast

from .facts import *
from .p13 import field_of

EXPLAIN = ("Paths built in the source from the location of a module are resolved without running it and must exist; the packaged registries are decoded as inert data and every "
           "entry is checked: known names, charges, one prime per field or term and its conjugate, distinct primes otherwise.")


class Unknown(Exception):
    pass


def literal_paths(m):
    """[(line, parts or None)] of the paths below the directory of the module, and
    of relative literals passed to open"""
    env = {}
    for st in m.tree.body:
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            env[st.targets[0].id] = st.value

    def here(n, depth=0):
        """parts below the module directory, or None"""
        if isinstance(n, ast.Name) and n.id in env and depth < 5:
            return here(env[n.id], depth + 1)
        if isinstance(n, ast.Call):
            f = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
            if f == "dirname" and len(n.args) == 1:
                x = here(n.args[0], depth)
                if x is not None:
                    return x[:-1] if x else None
                return None
            if f in ("abspath", "realpath", "Path", "str", "fspath") and len(n.args) == 1:
                return here(n.args[0], depth)
            if f in ("resolve", "absolute") and isinstance(n.func, ast.Attribute):
                return here(n.func.value, depth)
            if f in ("join", "joinpath") and n.args:
                args = ([n.func.value] if f == "joinpath" else []) + list(n.args)
                x = here(args[0], depth)
                if x is None:
                    return None
                x = list(x)
                for a in args[1:]:
                    a = text(a)
                    if a is None:
                        return None
                    x += [p for p in a.split("/") if p not in ("", ".")]
                return x
        if isinstance(n, ast.Name) and n.id == "__file__":
            return ["\0file"]
        if isinstance(n, ast.Attribute) and n.attr == "parent":
            x = here(n.value, depth)
            return x[:-1] if x else None
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Div, ast.Add)):
            x, a = here(n.left, depth), text(n.right)
            if x is not None and a is not None:
                return list(x) + [p for p in a.split("/") if p not in ("", ".")]
        return None

    def text(n):
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            return n.value
        if isinstance(n, ast.Name) and n.id in env:
            return text(env[n.id])
        return None
    out = []
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.Call, ast.BinOp)):
            x = here(n)
            if x and "\0file" not in x:
                out.append((n.lineno, x))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "open" and n.args:
            t = text(n.args[0])
            if t is not None and not os.path.isabs(t):
                out.append((n.lineno, None))
    return out


def paths(ctx, R):
    n = 0
    for m in ctx.src_modules():
        d = os.path.dirname(os.path.join(ctx.root, "neutrinomass", m.rel))
        for line, x in literal_paths(m):
            w = f"neutrinomass/{m.rel}:{line}"
            if x is None:
                R.ob(f"{m.rel}:{line}:relative", False, w, "packaged-path", "a file is opened relative to the working directory")
                continue
            n += 1
            p = os.path.join(d, *x)
            R.ob(f"{m.rel}:{'/'.join(x)}", os.path.exists(p), w, "packaged-path", f"{'/'.join(x)} is opened but not packaged")
    R.ob("paths:found", None if not n else True, "neutrinomass", "packaged-path", "no packaged path recognised")


def is_prime(n):
    if not isinstance(n, int) or n < 2:
        return False
    d = 2
    while d * d <= n:
        if n % d == 0:
            return False
        d += 1
    return True


def conj(x):
    if x.count(",") == 4:
        k, c, i, y, b = x.split(",")

        def neg(q):
            return "0" if Fraction(q) == 0 else str(-Fraction(q))
        return ",".join([k, c[::-1], i, neg(y), neg(b)])
    return x[:-5] if x.endswith(".conj") else x + ".conj"


def registry(R, name, reg, cj, w):
    by = {}
    for k, v in reg.items():
        by.setdefault(v, set()).add(k)
        if not is_prime(v):
            R.ob(f"{name}.{show_key(k)}:prime", False, w, "prime-registry", f"{show_key(k)} has number {v}, not a prime")
        c = cj(k)
        if c not in reg or reg[c] != v:
            R.ob(f"{name}.{show_key(k)}:conjugate", False, w, "prime-registry",
                 f"{show_key(k)} and its conjugate {'have primes %s and %s' % (v, reg[c]) if c in reg else 'which is missing'}")
    for v, ks in sorted(by.items(), key=str):
        a = min(ks, key=str)
        R.ob(f"{name}.{v}:distinct", not ks - {a, cj(a)}, w, "prime-registry", f"prime {v} is shared by {[show_key(k) for k in sorted(ks, key=str)][:4]}")


def show_key(k):
    return k if isinstance(k, str) else " ".join(map(str, k))


def registries(ctx, R):
    sm = sm_fields(ctx)
    reg = {}
    for n in ("exotics", "terms"):
        try:
            reg[n] = read_pickle(data_path(ctx, f"database/{n}.p"))
        except FileNotFoundError:
            R.ob(f"{n}.p:exists", False, f"neutrinomass/database/{n}.p", "packaged-data", "file is missing")
            return
        except Exception as e:
            R.ob(f"{n}.p:decodes", None, f"neutrinomass/database/{n}.p", "packaged-data", f"{type(e).__name__}: {e}")
            return
    ex, te = reg["exotics"], reg["terms"]
    w = "neutrinomass/database/exotics.p"
    for k in ex:
        good = isinstance(k, str) and re.fullmatch(r"[SF],[0-9]{2},[0-9]+,-?[0-9]+(/[0-9]+)?,-?[0-9]+", k) is not None
        if not good:
            R.ob(f"exotics.{k}:form", False, w, "quantum-number-string", f"{k!r} is not kind,colour,isospin,hypercharge,baryon number")
    registry(R, "exotics", ex, conj, w)
    w = "neutrinomass/database/terms.p"

    def cterm(t):
        return tuple(sorted(conj(x) for x in t))
    registry(R, "terms", te, cterm, w)
    good = 0
    for t in te:
        bad = []
        y = b = Fraction(0)
        tri = iso = nf = 0
        for x in t:
            if x.count(",") == 4:
                if x not in ex:
                    bad.append(("exotic", f"{x} is in no registry"))
                k, c, i, yy, bb = x.split(",")
                y += Fraction(yy)
                b += Fraction(bb)
                tri += int(c[0]) - int(c[1])
                iso += int(i)
                nf += k == "F"
            else:
                fc = field_of(x[:-5] + "d" if x.endswith(".conj") else x, sm)
                if fc is None or fc[0] is None:
                    bad.append(("field", f"{x} is not a Standard Model field"))
                    continue
                f, cj = fc
                sg = -1 if cj else 1
                y += sg * f.y
                b += sg * (f.b or 0)
                tri += sg * (int(f.dynkin[2]) - int(f.dynkin[3]))
                iso += int(f.dynkin[4])
                nf += f.name != "H"
        if tuple(sorted(t)) != tuple(t):
            bad.append(("order", "fields are not sorted"))
        if y or b or tri % 3 or iso % 2:
            bad.append(("singlet", f"hypercharge {y}, three times the baryon number {b}, triality {tri}, {iso} isospin indices"))
        if (len(t), nf) not in ((3, 0), (3, 2), (4, 0)):
            bad.append(("renormalisable", f"{len(t)} fields of which {nf} fermions"))
        for a, x in bad:
            R.ob(f"terms.{show_key(t)}:{a}", False, w, "interaction-term", x)
        good += not bad
    R.ob("terms:singlets", good > 0, w, "interaction-term", f"{good} terms are neutral, renormalisable and refer to known fields")


PARTS = [("paths", paths), ("registries", registries)]
