"""Reading the value flow of the runtime unit-string code: normal forms of its terms, facts and values."""
import re
from fractions import Fraction

from .terms import const_val

OPAQUE = ("<strings>", "std::string::String as std::ops::Deref", "core::str::traits::", "array::equality", "find_unknown_unit", "evaluate_with_mode",
          "parser::calculate_unit_conversion_factors", "whippyunits_core::calculate_unit_conversion_factors",
          "calculate_conversion_factors_recursive", "aggregate_scale_factor_float", "get_source_unit_symbol_static")


def strip(v):
    """Peel references, dereferences and pointer casts."""
    while isinstance(v, dict):
        k = v.get("k")
        if k == "ref":
            v = v["v"]
        elif k == "deref":
            v = v["a"]
        elif k == "cast" and str(v.get("t", "")).lstrip("(").startswith(("&", "*")):
            v = v["a"]
        elif k == "call" and v["n"].endswith(("String::as_str", "<std::string::String as std::ops::Deref>::deref")) and len(v["args"]) == 1:
            v = v["args"][0]
        else:
            return v
    return v


def text(v):
    """The text of a constant string term, or None."""
    v = strip(v)
    if isinstance(v, dict):
        if v.get("k") == "str":
            return v["v"]
        if v.get("k") == "call" and v["n"] == "<text>":
            return text(v["args"][0])
    return None


def norm(v):
    """Hashable meaning of a term of the unit-string code."""
    v = strip(v)
    if not isinstance(v, dict):
        return ("?", str(v))
    k = v.get("k")
    t = text(v)
    if t is not None:
        return ("text", t)
    if k == "in":
        return ("in", v["n"].lstrip("*"))
    if k == "c":
        c = const_val(v)
        return ("c", c) if c is not None else ("c", str(v["v"]))
    if k == "arr":
        return ("arr",) + tuple(norm(x) for x in v["v"])
    if k == "agg":
        return ("agg", v["t"].rsplit("::", 1)[-1], v.get("var")) + tuple((f, norm(x)) for f, x in sorted(v["f"].items()))
    if k == "field":
        a = norm(v["a"])
        n = v["n"]
        if a[0] == "parse" and n == "0" and v.get("var", "Ok") == "Ok":
            return ("unit", a[1])
        if a[0] == "eval" and n == "scale_exponents":
            return ("scales", a[1])
        if a[0] == "eval" and n == "dimension_exponents":
            return ("dims", a[1])
        if a[0] in ("scales", "dims"):
            if n == "0" and len(a) == 2:
                return a + ("arr",)
            return (a[0][:-1], a[1], int(n)) if len(a) == 3 and n.isdigit() else ("field", n, a)
        if a[0] == "arr" and n.isdigit() and int(n) < len(a) - 1:
            return a[1 + int(n)]
        if a[0] == "cfs" and n in "01":
            return (("cf", "af")[int(n)], a[1])
        return ("field", n, v.get("var"), a)
    if k == "idx" or k == "index":
        a, i = norm(v["a"]), norm(v["i"])
        if a[0] in ("scales", "dims") and len(a) == 3 and i[0] == "c":
            return (a[0][:-1], a[1], int(i[1]))
        return ("idx", a, i)
    if k == "call":
        n = re.sub(r"::<(?!impl )[^<>]*(<[^<>]*>[^<>]*)*>", "", v["n"])
        a = [norm(x) for x in v["args"]]
        if n.startswith("syn::parse") and len(a) == 1:
            # parse_str::<TokenStream>, parse2::<UnitExpr>, parse_str::<UnitExpr>: one text, one reading of it
            base = a[0][1] if a[0][0] == "unit" else a[0]
            return ("parse", base, n)
        if n.endswith("::evaluate_with_mode") or n.endswith("UnitExpr::evaluate"):
            return ("eval", a[0])
        if n.endswith("::calculate_unit_conversion_factors") and len(a) == 1:
            return ("cfs", a[0])
        if n.endswith("::aggregate_scale_factor_float"):
            return ("ratio",) + tuple(a)
        if n.endswith("::find_unknown_unit"):
            return ("unknown", a[0])
        if len(a) == 2 and ("::equality" in n or "PartialEq" in n) and n.endswith(("::eq", "::spec_eq")):
            return ("eq", frozenset(_whole(x) for x in a))
        if "clone" in n.lower() and len(a) == 1:
            return a[0]
        return ("call", v["n"]) + tuple(a) + ((v["id"],) if v.get("id") else ())
    if k == "discr":
        return ("discr", norm(v["a"]))
    if k == "bin":
        a, b = norm(v["a"]), norm(v["b"])
        if v["op"] in ("Eq", "Ne"):
            return (v["op"].lower(), frozenset((a, b)))
        return ("bin", v["op"], a, b)
    if k == "un":
        return ("un", v.get("op"), norm(v["a"]))
    if k == "cast":
        return ("cast", v.get("t"), norm(v["a"]))
    return (k,) + tuple(str(x) for x in sorted(v.items(), key=str) if x[0] != "t")


def _whole(a):
    """dims(..).0 and dims(..) compare alike."""
    return a[:2] if a[0] in ("dims", "scales") and len(a) == 3 and a[2] == "arr" else a[3][1] if a[0] == "agg" and a[1] == "DynDimensionExponents" and len(a) == 4 else a


class Facts:
    """What a path has established; .ok is False when it is contradictory (no input follows it)."""

    def __init__(self, path):
        self.m, self.ok = {}, True
        for c, want in path.get("facts", []):
            n = norm(c)
            if "eq" in want:
                val = int(want["eq"])
            else:
                nots = {int(x) for x in want.get("notin", [])}
                val = 1 if nots == {0} else 0 if nots == {1} else None
                if val is None:
                    continue
            if n[0] == "ne":
                n, val = ("eq", n[1]), 1 - val
            if n[0] == "un" and n[1] == "Not":
                n, val = n[2], 1 - val
            if n[0] == "eq":
                # a comparison of a discriminant with a constant
                d = [x for x in n[1] if x[0] == "discr"]
                c0 = [x for x in n[1] if x[0] == "c"]
                if len(d) == 1 and len(c0) == 1 and c0[0][1] in (0, 1):
                    n, val = d[0], int(c0[0][1]) if val else 1 - int(c0[0][1])
                elif len(n[1]) == 1:
                    if not val:
                        self.ok = False
                    continue
                elif all(_const(x) for x in n[1]):
                    if val:
                        self.ok = False
                    continue
            if n[0] == "discr" and n[1][0] == "parse":
                n = ("discr", n[1])
            if n in self.m and self.m[n] != val:
                self.ok = False
            self.m[n] = val

    def get(self, n):
        return self.m.get(n)

    def is_one(self, u):
        return self.m.get(("eq", frozenset((u, ("text", "1"))))) == 1


def _const(x):
    return x[0] in ("c", "text") or x[0] == "arr" and all(_const(y) for y in x[1:])


# ---------------------------------------------------------------- rational functions over atoms

def _mul(p, q):
    out = {}
    for a, x in p.items():
        for b, y in q.items():
            m = tuple(sorted(a + b, key=repr))
            out[m] = out.get(m, 0) + x * y
    return {m: c for m, c in out.items() if c}


def _add(p, q, s=1):
    out = dict(p)
    for m, c in q.items():
        out[m] = out.get(m, 0) + s * c
    return {m: c for m, c in out.items() if c}


ONE = {(): Fraction(1)}


def ratfun(v, sub):
    """A real-valued term as (numerator, denominator) over atoms; sub maps an atom to a number or an atom."""
    v = strip(v)
    k = v.get("k") if isinstance(v, dict) else None
    if k == "bin" and v["op"] in ("Add", "Sub", "Mul", "Div"):
        (a, b), (c, d) = ratfun(v["a"], sub), ratfun(v["b"], sub)
        if v["op"] == "Mul":
            return _mul(a, c), _mul(b, d)
        if v["op"] == "Div":
            return _mul(a, d), _mul(b, c)
        return _add(_mul(a, d), _mul(c, b), 1 if v["op"] == "Add" else -1), _mul(b, d)
    if k == "un" and v.get("op") == "Neg":
        a, b = ratfun(v["a"], sub)
        return _add({}, a, -1), b
    if k == "call" and v["n"].endswith("::mul_add") and len(v["args"]) == 3:
        x, y, z = (ratfun(a, sub) for a in v["args"])
        xy = _mul(x[0], y[0]), _mul(x[1], y[1])
        return _add(_mul(xy[0], z[1]), _mul(z[0], xy[1])), _mul(xy[1], z[1])
    if k == "cast" and v.get("from") == v.get("t") == "f64":
        return ratfun(v["a"], sub)
    n = sub(norm(v))
    if n[0] == "c" and not isinstance(n[1], str):
        return ({(): Fraction(n[1])} if n[1] else {}), ONE
    return {(n,): Fraction(1)}, ONE


def same(p, q):
    return _add(_mul(p[0], q[1]), _mul(q[0], p[1]), -1) == {}


def atom(n):
    return {(n,): Fraction(1)}, ONE


def frac(p):
    """(numerator, denominator) as text."""
    def s(poly):
        return " + ".join("*".join(([] if c == 1 else [str(c)]) + [_short(a) for a in m]) or "1" for m, c in poly.items()) or "0"
    return s(p[0]) if p[1] == ONE else "(%s) / (%s)" % (s(p[0]), s(p[1]))


def _short(a):
    if not isinstance(a, tuple):
        return str(a)
    if a[0] == "in":
        return a[1]
    if a[0] in ("cf", "af", "x"):
        return a[0]
    if a[0] == "ratio":
        return "ratio(%s)" % ",".join(_short(x) for x in a[1:])
    if a[0] == "scale":
        return "unit.p%s" % (2, 3, 5, "pi")[a[2]]
    if a[0] == "c":
        return str(a[1])
    return repr(a)[:60]
