"""Types and value-flow terms as printed by the driver."""
import re
from collections import namedtuple
from fractions import Fraction

QTy = namedtuple("QTy", "scale dim t brand")
SC = ("_2", "_3", "_5", "_Pi")
DM = ("_M", "_L", "_T", "_I", "_Θ", "_N", "_J", "_A")
ZERO_S = (0, 0, 0, 0)
ZERO_D = (0,) * 8

FLOATS = ("f32", "f64")
SIGNED = ("i8", "i16", "i32", "i64", "i128", "isize")
UNSIGNED = ("u8", "u16", "u32", "u64", "u128", "usize")
INTS = SIGNED + UNSIGNED
STORAGE = FLOATS + SIGNED + UNSIGNED


def parse_ty(s):
    """-> (name, [args]) tree; leaf args are strings."""
    pos = 0

    def ws():
        nonlocal pos
        while pos < len(s) and s[pos] == " ":
            pos += 1

    def one():
        nonlocal pos
        ws()
        start = pos
        depth = 0
        while pos < len(s):
            c = s[pos]
            if c in "([{":
                depth += 1
            elif c in ")]}":
                if depth == 0:
                    break
                depth -= 1
            elif depth == 0 and c in "<,>" and not (c == ">" and s[pos - 1] in "-="):
                break
            pos += 1
        name = s[start:pos].strip()
        args = []
        if pos < len(s) and s[pos] == "<" and depth == 0:
            pos += 1
            while True:
                args.append(one())
                ws()
                if pos < len(s) and s[pos] == ",":
                    pos += 1
                    continue
                if pos < len(s) and s[pos] == ">":
                    pos += 1
                break
            # something may follow a generic list (e.g. `::method`)
            start = pos
            while pos < len(s) and s[pos] not in ",<>":
                pos += 1
            name += s[start:pos].rstrip()
        return (name, args)

    return one()


def last(name):
    return name.rsplit("::", 1)[-1]


def _exps(node, keys):
    vals = {}
    for n, a in node[1]:
        k = last(n)
        if k not in keys:
            return None
        if not a:
            vals[k] = 0
        else:
            try:
                vals[k] = int(a[0][0])
            except ValueError:
                vals[k] = a[0][0]
    # positional defaults: anything not printed is the default (exponent 0)
    return tuple(vals.get(k, 0) for k in keys)


def qty(s):
    """Parse a printed Quantity type; None if it is not one."""
    node = parse_ty(s) if isinstance(s, str) else s
    return qty_node(node)


def show(node):
    n, a = node
    return n + ("<" + ", ".join(show(x) for x in a) + ">" if a else "")


def qty_node(node):
    if last(node[0]) != "Quantity":
        return None
    args = list(node[1])
    scale, dim, t, brand = ZERO_S, ZERO_D, "f64", "()"
    if len(args) >= 1:
        if last(args[0][0]) != "Scale":
            scale = show(args[0])
        else:
            scale = _exps(args[0], SC)
    if len(args) >= 2:
        dim = _exps(args[1], DM) if last(args[1][0]) == "Dimension" else show(args[1])
    if len(args) >= 3:
        t = show(args[2])
    if len(args) >= 4:
        brand = show(args[3])
    return QTy(scale, dim, t, brand)


def ty_src(scale=ZERO_S, dim=ZERO_D, t="f64", brand="()"):
    s = ", ".join("%s<%d>" % (k, v) for k, v in zip(SC, scale))
    d = ", ".join("%s<%d>" % (k, v) for k, v in zip(DM, dim))
    return "Quantity<Scale<%s>, Dimension<%s>, %s, %s>" % (s, d, t, brand)


PRELUDE = """#![allow(warnings, mixed_script_confusables)]
use whippyunits::quantity::*;
use whippyunits::*;
"""

# ------------------------------------------------------------------ terms


def const_val(v):
    """Exact value of a constant scalar term, or None."""
    if v.get("k") != "c":
        return None
    t, x = v["t"], v["v"]
    if t in FLOATS:
        if x in ("inf", "-inf", "NaN", "nan"):
            return None
        return Fraction(float(x))
    if t == "bool":
        return Fraction(1 if x == "true" else 0)
    try:
        return Fraction(int(x))
    except ValueError:
        return None


def raw(ret):
    """The stored number of a returned Quantity (or the scalar itself)."""
    if ret is None:
        return None
    if ret.get("k") == "agg" and last(ret["t"]) == "Quantity":
        f = ret["f"]
        nums = [f[k] for k in f]
        return nums[0] if len(nums) == 1 else f.get("unsafe_value")
    return ret


def leaf_name(v):
    """Name of an opaque input, with field path, or None."""
    k = v.get("k")
    if k == "in":
        return v["n"]
    if k == "field":
        b = leaf_name(v["a"])
        return None if b is None else b + "." + v["n"]
    return None


def base_input(v):
    n = leaf_name(v)
    return None if n is None else n.split(".")[0].lstrip("*")


def strip_float_casts(v):
    while v.get("k") == "cast":
        v = v["a"]
    return v


def key(v):
    """Canonical hashable form of a term, modulo commutativity."""
    k = v.get("k")
    if k == "c":
        return ("c", v["t"], v["v"])
    n = leaf_name(v)
    if n is not None:
        # the stored number of an input, whatever wrapper it is read through
        return ("in", n.split(".")[0].lstrip("*"), "." in n)
    if k == "bin":
        a, b = key(v["a"]), key(v["b"])
        if v["op"] in ("Add", "Mul", "Eq", "Ne"):
            a, b = sorted((a, b), key=repr)
        return ("bin", v["op"], a, b)
    if k == "un":
        return ("un", v["op"], key(v["a"]))
    if k == "cast":
        return ("cast", v["t"], key(v["a"]))
    if k == "ref":
        return key(v["v"])
    if k == "call":
        return ("call", v["n"], tuple(key(x) for x in v["args"]))
    return (k, repr(v))


class NotAffine(Exception):
    pass


def affine(v, casts=None):
    """v as {input: coefficient, None: constant} with exact rational coefficients.
    Float/float and int/float casts are transparent (recorded in `casts`)."""
    k = v.get("k")
    c = const_val(v)
    if c is not None:
        return {None: c}
    n = leaf_name(v)
    if n is not None:
        return {n.split(".")[0].lstrip("*"): Fraction(1)}
    if k == "cast":
        frm, to = v["from"], v["t"]
        if casts is not None:
            casts.append((frm, to))
        if to in FLOATS or frm == to:
            return affine(v["a"], casts)
        if frm in INTS and to in INTS:
            return affine(v["a"], casts)
        raise NotAffine("cast %s -> %s" % (frm, to))
    if k == "un" and v["op"] == "Neg":
        return {x: -y for x, y in affine(v["a"], casts).items()}
    if k == "bin":
        a, b = affine(v["a"], casts), affine(v["b"], casts)
        op = v["op"]
        if op in ("Add", "Sub"):
            r = dict(a)
            for x, y in b.items():
                r[x] = r.get(x, Fraction(0)) + (y if op == "Add" else -y)
            return r
        if op == "Mul":
            if set(b) <= {None}:
                f = b.get(None, Fraction(0))
                return {x: y * f for x, y in a.items()}
            if set(a) <= {None}:
                f = a.get(None, Fraction(0))
                return {x: y * f for x, y in b.items()}
            raise NotAffine("product of inputs")
        if op == "Div" and set(b) <= {None} and v["t"] in FLOATS:
            f = b.get(None, Fraction(0))
            if f == 0:
                raise NotAffine("division by zero")
            return {x: y / f for x, y in a.items()}
        raise NotAffine("operator " + op)
    if k == "call":
        m = re.search(r"::(mul_add)$", v["n"])
        raise NotAffine("call " + v["n"][:120])
    raise NotAffine("term " + str(k))


def pretty(v, d=0):
    k = v.get("k") if isinstance(v, dict) else None
    if k is None:
        return str(v)
    if d > 12:
        return "…"
    if k == "c":
        return v["v"]
    n = leaf_name(v)
    if n is not None:
        return n
    ops = {"Add": "+", "Sub": "-", "Mul": "*", "Div": "/", "Rem": "%", "Eq": "==", "Ne": "!=", "Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">="}
    if k == "bin":
        return "(%s %s %s)" % (pretty(v["a"], d + 1), ops.get(v["op"], v["op"]), pretty(v["b"], d + 1))
    if k == "un":
        return "%s(%s)" % (v["op"], pretty(v["a"], d + 1))
    if k == "cast":
        return "(%s as %s)" % (pretty(v["a"], d + 1), v["t"])
    if k == "ref":
        return "&" + pretty(v["v"], d + 1)
    if k == "call":
        return "%s(%s)" % (v["n"], ", ".join(pretty(x, d + 1) for x in v["args"]))
    if k == "agg":
        return "%s{%s}" % (last(v["t"]) + ("::" + v["var"] if v.get("var") else ""), ", ".join("%s: %s" % (a, pretty(b, d + 1)) for a, b in v["f"].items()))
    if k == "discr":
        return "discr(%s)" % pretty(v["a"], d + 1)
    if k == "field":
        return pretty(v["a"], d + 1) + "." + v["n"]
    if k == "deref":
        return "*" + pretty(v["a"], d + 1)
    if k == "str":
        return repr(v["v"])
    if k == "arr":
        return "[%s]" % ", ".join(pretty(x, d + 1) for x in v["v"][:20])
    return k + (":" + v["n"] if "n" in v else "")


def single_return(rec):
    """The one returning path of a flow whose control flow does not depend on its inputs.
    -> (value, None) or (None, reason)"""
    ps = rec["paths"]
    if len(ps) != 1:
        return None, "%d paths" % len(ps)
    p = ps[0]
    if p["end"] != "return":
        return None, "%s: %s" % (p["end"], p.get("detail"))
    return p, None


def close(a, b, rel=1e-12):
    a, b = Fraction(a), Fraction(b)
    if a == b:
        return True
    return abs(a - b) <= Fraction(rel) * max(abs(a), abs(b))


def short(s):
    """Type text without module paths."""
    return re.sub(r"\b(?:\w+::)+(\w)", r"\1", s)


def strip(v):
    """Peel identity wrappers: clones of scalars, references, same-type casts."""
    while isinstance(v, dict):
        if v.get("k") == "call" and len(v["args"]) == 1 and re.search(r"clone::impls|Clone>::clone$", v["n"]):
            v = v["args"][0]
        elif v.get("k") == "ref":
            v = v["v"]
        elif v.get("k") == "cast" and v.get("from") == v.get("t"):
            v = v["a"]
        else:
            return v
    return v


def value_returns(rec):
    """All paths return -> (list of returned values, None), else (None, why)."""
    out = []
    for p in rec["paths"]:
        if p["end"] != "return":
            return None, "a path ends in %s %s" % (p["end"], p.get("detail", ""))
        out.append(p["ret"])
    if not out:
        return None, "no path returns"
    return out, None


ORD = {"lt": -1, "eq": 0, "gt": 1, "un": None}


class Undecided(Exception):
    pass


def eval_cmp(v, outcome, a="a", b="b"):
    """Value of a boolean/ordering term when the stored numbers of a and b compare as `outcome`
    (lt, eq, gt, or un = unordered). Returns int, bool or an enum variant name."""
    v = strip(v)
    k = v.get("k")
    if k == "c":
        if v["t"] == "bool":
            return v["v"] == "true"
        return int(v["v"])
    if k == "bin":
        op = v["op"]
        na, nb = leaf_name(strip(v["a"])), leaf_name(strip(v["b"]))
        if na and nb:
            na, nb = na.split(".")[0].lstrip("*"), nb.split(".")[0].lstrip("*")
            if {na, nb} != {a, b}:
                raise Undecided("comparison of %s with %s" % (na, nb))
            o = ORD[outcome]
            if na == b and o is not None:
                o = -o
            if op == "Cmp":
                if o is None:
                    raise Undecided("total comparison of unordered numbers")
                return o
            if o is None:
                return op == "Ne"
            return {"Eq": o == 0, "Ne": o != 0, "Lt": o < 0, "Le": o <= 0, "Gt": o > 0, "Ge": o >= 0}[op]
        x, y = eval_cmp(v["a"], outcome, a, b), eval_cmp(v["b"], outcome, a, b)
        f = {"Eq": lambda: x == y, "Ne": lambda: x != y, "Lt": lambda: x < y, "Le": lambda: x <= y, "Gt": lambda: x > y, "Ge": lambda: x >= y,
             "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y}.get(op)
        if not f:
            raise Undecided("operator " + op)
        return f()
    if k == "un" and v["op"] == "Not":
        x = eval_cmp(v["a"], outcome, a, b)
        return (not x) if isinstance(x, bool) else ~x
    if k == "un" and v["op"] == "Neg":
        return -eval_cmp(v["a"], outcome, a, b)
    if k in ("discr", "cast"):
        return eval_cmp(v["a"], outcome, a, b)
    if k == "agg":
        var = v.get("var")
        if var in ("Less", "Equal", "Greater"):
            return {"Less": -1, "Equal": 0, "Greater": 1}[var]
        if var == "None":
            return "None"
        if var == "Some":
            return ("Some", eval_cmp(next(iter(v["f"].values())), outcome, a, b))
    if k == "call" and re.search(r"::partial_cmp$", v["n"]) and len(v["args"]) == 2:
        na, nb = (leaf_name(strip(x)) for x in v["args"])
        if na and nb:
            o = eval_cmp({"k": "bin", "op": "Eq", "a": strip(v["args"][0]), "b": strip(v["args"][1]), "t": "bool"}, outcome, a, b)
            oo = ORD[outcome]
            if na.split(".")[0].lstrip("*") == b and oo is not None:
                oo = -oo
            return "None" if oo is None else ("Some", oo)
    raise Undecided("term " + pretty(v)[:200])


def _as_switch(x):
    if x is True or x is False:
        return int(x)
    return x


def decide(rec, outcome, a="a", b="b"):
    """The value the function returns when its operands compare as `outcome`."""
    res = []
    for p in rec["paths"]:
        ok = True
        for t, f in p["facts"]:
            x = _as_switch(eval_cmp(t, outcome, a, b))
            if isinstance(x, int) and x < 0:
                # discriminants are printed as unsigned bits
                x = (x + 256, x + (1 << 32), x + (1 << 64), x + (1 << 128), x)
            else:
                x = (x,)
            if "eq" in f:
                ok = any(int(f["eq"]) == y for y in x)
            else:
                ok = not any(int(z) == y for z in f["notin"] for y in x)
            if not ok:
                break
        if ok:
            if p["end"] != "return":
                raise Undecided("path ends in " + p["end"] + " " + p.get("detail", ""))
            res.append(eval_cmp(p["ret"], outcome, a, b))
    if len(set(map(repr, res))) != 1:
        raise Undecided("%d feasible paths" % len(res))
    return res[0]


PI = Fraction("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899")
PI_RAT = Fraction(355, 113)


def scale_factor(s, pi=PI):
    return Fraction(2) ** s[0] * Fraction(3) ** s[1] * Fraction(5) ** s[2] * pi ** s[3]


def f32_ok(f):
    return Fraction(2) ** -126 <= abs(f) < Fraction(2) ** 127
