"""W18: printed unit names denote the true unit (Display, Debug, storage unit names)."""
import json
import math
import os
import re
from fractions import Fraction

from . import ser, spell
from .core import Check, analyse, pmap
from .terms import PRELUDE, pretty, ty_src

SUP = {c: str(i) for i, c in enumerate("⁰¹²³⁴⁵⁶⁷⁸⁹")}
SUP.update({"⁻": "-", "⁺": "+"})
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ZERO = (0, 0, 0, 0, 0, 0, 0, 0)


class Unreadable(Exception):
    pass


def sup(s):
    try:
        return int("".join(SUP[c] for c in s))
    except (KeyError, ValueError):
        raise Unreadable("exponent %r" % s)


def _add(a, b, n=1):
    return tuple(x + n * y for x, y in zip(a, b))


class Reader:
    """Text of a unit -> (numeric factor or None, scale exponents, dimension exponents)."""

    def __init__(self, cat):
        self.sp = cat.spellings
        self.pre = {}
        for p in cat.prefixes:
            self.pre[p.name] = p.log10
            self.pre[p.symbol] = p.log10

    def atom(self, s):
        m = re.fullmatch(r"([^⁰¹²³⁴⁵⁶⁷⁸⁹⁻]+)([⁻⁰¹²³⁴⁵⁶⁷⁸⁹]*)", s)
        if not m:
            raise Unreadable("unit %r" % s)
        u = self.sp.get(m.group(1))
        if u is None:
            raise Unreadable("no unit is called %r" % m.group(1))
        if u.cf != 1.0 or u.af != 0.0:
            raise Unreadable("%r has a conversion factor or an offset" % m.group(1))
        n = sup(m.group(2)) if m.group(2) else 1
        return tuple(n * x for x in u.scale), tuple(n * x for x in u.dim)

    def product(self, s):
        sc, d = (0, 0, 0, 0), ZERO
        for part in s.split("·"):
            a, b = self.atom(part)
            sc, d = _add(sc, a), _add(d, b)
        return sc, d

    def body(self, s):
        if s in ("1", "()", ""):
            return (0, 0, 0, 0), ZERO
        m = re.fullmatch(r"([^()·]*)\(([^()]*)\)", s)
        if m:
            sc, d = self.body(m.group(2)) if m.group(2) in ("", "1") else self.product(m.group(2))
            if m.group(1):
                if m.group(1) not in self.pre:
                    raise Unreadable("no prefix is called %r" % m.group(1))
                e = self.pre[m.group(1)]
                sc = _add(sc, (e, 0, e, 0))
            return sc, d
        return self.product(s)

    def read(self, s):
        m = re.fullmatch(r"\(([0-9.]+)\)(.*)", s, re.S)
        if m:
            sc, d = self.body(m.group(2))
            return Fraction(m.group(1)), sc, d
        m = re.fullmatch(r"10([⁻⁰¹²³⁴⁵⁶⁷⁸⁹]+) (.*)", s, re.S)
        if m:
            e = sup(m.group(1))
            sc, d = self.body(m.group(2))
            return None, _add(sc, (e, 0, e, 0)), d
        sc, d = self.body(s)
        return None, sc, d

    def wrong(self, s, dim, scale):
        """None when the text denotes the unit, else what it denotes instead."""
        try:
            f, sc, d = self.read(s)
        except Unreadable as e:
            return str(e)
        if tuple(d) != tuple(dim):
            return "its dimension is %s" % (tuple(d),)
        if f is None:
            return None if tuple(sc) == tuple(scale) else "its scale is 2^%d 3^%d 5^%d pi^%d" % tuple(sc)
        want = magnitude(_add(scale, sc, -1))
        return None if abs(float(f) / want - 1) < 6e-3 else "its factor is %s instead of %.4g" % (f, want)


def magnitude(s):
    return 2.0 ** s[0] * 3.0 ** s[1] * 5.0 ** s[2] * math.pi ** s[3]


def text_of(ret):
    """The constant text a path returns, else None."""
    v = ser.strip(ret)
    if isinstance(v, dict) and v.get("k") == "call" and v.get("n") == "<text>":
        a = ser.strip(v["args"][0])
        if isinstance(a, dict) and a.get("k") == "str":
            return a["v"]
    if isinstance(v, dict) and v.get("k") == "str":
        return v["v"]
    return None


def worlds(cat, deep):
    """(dimension exponents, scale exponents) to name."""
    dims, units = [], {}
    for d in cat.dims:
        t = tuple(d.exps)
        if t not in dims:
            dims.append(t)
        for u in d.units:
            if u.cf == 1.0 and u.af == 0.0:
                units.setdefault(tuple(u.scale), []).append(t)
    named = list(dims)
    for i in range(8):
        for n in (-4, -3, -2, -1, 1, 2, 3, 4):
            t = tuple(n if j == i else 0 for j in range(8))
            if t not in dims:
                dims.append(t)
    for i in range(8):
        for j in range(8):
            if i != j:
                for n, m in ((1, 1), (1, -1), (2, -1), (-1, -1)) if deep else ((1, -1),):
                    t = tuple(n if k == i else m if k == j else 0 for k in range(8))
                    if t not in dims:
                        dims.append(t)
    for t in ((1, 1, -1, 0, 0, 0, 0, 0), (1, 2, -3, 0, 0, 0, 0, 1), (2, 2, -2, 0, 0, 0, 0, 0), (0, 1, 1, 1, 1, 1, 1, 1), (1, 1, 1, 1, 1, 1, 1, 1), (-1, 3, -2, 0, 0, 0, 0, 0), ZERO):
        if t not in dims:
            dims.append(t)

    def ten(e):
        return (e, 0, e, 0)
    odd = [s for s in units if s[1] or s[3] or s[0] != s[2]]
    base = [ten(e) for e in (0, 3, -3, 1, -6)]
    small = base + [(2, 1, 1, 0), (1, -2, -1, 1)]
    full = base + [ten(e) for e in ((-33, -9, -5, -2, -1, 2, 6, 9, 24, 30, 31) if not deep else tuple(range(-33, 34)) + (40, -40, 60, -60))]
    for s in odd:
        for n in (1, -1, 2) + ((-2, 3) if deep else ()):
            full.append(tuple(n * x for x in s))
        full.append(_add(s, ten(3)))
        full.append(_add(s, ten(-3)))
    if deep:
        small = list(dict.fromkeys(small + odd + [ten(e) for e in (2, 4, -9, 31)]))
        for s in odd:
            for r in odd:
                full.append(_add(s, r, -1))
    full = list(dict.fromkeys(full))
    out = []
    for d in dims:
        for s in full if d in named or sum(1 for x in d if x) == 1 else small:
            out.append((d, s))
    return out, len(dims)


HEAD = """#![allow(warnings)]
use whippyunits_core::{dimension_exponents::DynDimensionExponents, scale_exponents::ScaleExponents, storage_unit::*};
"""
CALL = {
    "literal": "generate_unit_literal(DynDimensionExponents(%s), ScaleExponents(%s), UnitLiteralConfig { verbose: %s, prefer_si_units: true })",
    "systematic": "generate_unit_literal(DynDimensionExponents(%s), ScaleExponents(%s), UnitLiteralConfig { verbose: %s, prefer_si_units: false })",
}
CALL["storage"] = "{ let (d, s) = (DynDimensionExponents(%s), ScaleExponents(%s)); get_storage_unit_name(s, d, %s) }"


def names(c, cat):
    deep = THOROUGH
    ws, nd = worlds(cat, deep)
    rd = Reader(cat)
    jobs = []
    for k, (d, s) in enumerate(ws):
        for v in (False, True):
            jobs.append(("literal", d, s, v))
            if k % 7 == 0:
                jobs.append(("systematic", d, s, v))
            if k % 7 == 3:
                jobs.append(("storage", d, s, v))
    size = 250
    chunks = [jobs[i:i + size] for i in range(0, len(jobs), size)]

    def go(i):
        src = HEAD
        for n, (kind, d, s, v) in enumerate(chunks[i]):
            src += "pub fn w_%d() -> String { %s }\n" % (n, CALL[kind] % (list(d), list(s), str(v).lower()))
        return analyse("wit_w18_%d" % i, src, opaque="<texts>", env_extra={"WFLOW_MAX_PATHS": "24", "WFLOW_CALLS": "<none>"})

    count = 0
    for ch, a in zip(chunks, pmap(go, range(len(chunks)))):
        if not c.compile_errors(a, "names"):
            continue
        for n, (kind, d, s, v) in enumerate(ch):
            key = "%s:%s:%s%s" % (kind, _dim(d), _scale(s), ":long" if v else "")
            f = a.flows.get("w_%d" % n)
            if not f:
                c.fail(key, "not analysed")
                continue
            ts = {text_of(p.get("ret")) if p["end"] == "return" else p["end"] + " " + str(p.get("detail"))[:120] for p in f["paths"]}
            if len(ts) != 1 or None in ts:
                c.fail(key, "the name is not determined by the type: %s" % sorted(map(str, ts))[:3])
                continue
            t = ts.pop()
            w = rd.wrong(t, d, s)
            c.ob(w is None, key, "named %r: %s" % (t, w))
            count += 1
            if count % 1500 == 1:
                c.sample({"dimension": _dim(d), "scale": _scale(s), "name": t})
    c.floor("names", count, 40000 if deep else 4000)
    c.assumptions.append("%d dimensions x their scales, %d names" % (nd, count))


def _dim(d):
    return "".join("%s%d" % (n, x) for n, x in zip("MLTIΘNJA", d) if x) or "1"


def _scale(s):
    if s[0] == s[2] and not s[1] and not s[3]:
        return "10^%d" % s[0]
    return ".".join("%s^%d" % (n, x) for n, x in zip(("2", "3", "5", "pi"), s) if x)



# ---------------------------------------------------------------- Display and Debug

def flatten(v):
    """Written value -> [text | ("num", term, precision term or None, type)]; raises Unreadable."""
    v = ser.strip(v)
    t = ser.text(v)
    if t is not None:
        return [t]
    if isinstance(v, dict) and v.get("k") == "call":
        n = v["n"]
        if n.endswith(("fmt::format", "ToString>::to_string", "Into<std::string::String>>::into", "From<&str>>::from", "Clone>::clone")) and v["args"]:
            return flatten(v["args"][0])
        if n == "<concat>":
            return flatten(v["args"][0]) + flatten(v["args"][1])
        if "Arguments" in n and "::from_str" in n:
            return flatten(v["args"][0])
        if "Arguments" in n:
            return template(ser.strip(v["args"][0]), ser.strip(v["args"][1]))
    raise Unreadable("a text that is not built from constants and the value: %s" % pretty(v)[:160])


def template(tm, args):
    if tm.get("k") != "arr" or args.get("k") != "arr":
        raise Unreadable("a format template that is not constant")
    b = [int(x["v"]) for x in tm["v"]]
    out, i, nxt = [], 0, 0
    args = [ser.strip(x) for x in args["v"]]

    def u16(j):
        return b[j] | b[j + 1] << 8
    while True:
        n = b[i]
        i += 1
        if n == 0:
            return out
        if n <= 0x80:
            ln = n
            if n == 0x80:
                ln = u16(i)
                i += 2
            out.append(bytes(b[i:i + ln]).decode())
            i += ln
            continue
        prec = None
        if n & 1:
            if b[i:i + 4] != [0x20, 0, 0, 0x60] and not n & 4:
                raise Unreadable("format flags")
            i += 4
        if n & 2:
            raise Unreadable("a format width")
        if n & 4:
            prec = u16(i)
            i += 2
        if n & 8:
            nxt = u16(i)
            i += 2
        if n & 32:
            p = args[prec]
            if "from_usize" not in p["n"]:
                raise Unreadable("a precision")
            prec = ser.strip(p["args"][0])
        a = args[nxt]
        nxt += 1
        m = re.search(r"::new_display::<(.*)>$", a["n"])
        if not m:
            raise Unreadable("a format other than {}: %s" % a["n"])
        if m.group(1) in ("f64", "f32", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "usize", "i8", "i128", "u128", "isize"):
            out.append(("num", ser.strip(a["args"][0]), prec, m.group(1)))
        elif prec is None:
            out += flatten(a["args"][0])
        else:
            raise Unreadable("a precision on a text")


def is_value(t):
    t = ser.strip(t)
    while isinstance(t, dict) and t.get("k") == "cast":
        # only the conversion to f64 keeps what can be kept of the value
        if t.get("t") != t.get("from") and t.get("t") != "f64":
            return False
        t = ser.strip(t["a"])
    return isinstance(t, dict) and t.get("k") == "field" and t["n"] == "unsafe_value" and ser.strip(t["a"]).get("k") == "in"


def fcall(t, name):
    t = ser.strip(t)
    if isinstance(t, dict) and t.get("k") == "call" and re.search(r"(^|::)%s(f64)?(::<f64>)?$" % name, t["n"]):
        return t["args"]
    return None


def is_order(t):
    """floor(log10(|value|)) as an integer"""
    t = ser.strip(t)
    if t.get("k") != "cast" or t.get("from") != "f64":
        return False
    a = fcall(t["a"], "floor")
    a = a and fcall(a[0], "log10")
    a = a and fcall(a[0], "(?:fabs|abs)")
    return bool(a) and is_value(a[0])


def at(t, m):
    """An integer term at a given decimal order of magnitude."""
    t = ser.strip(t)
    if isinstance(t, int):
        return t
    if is_order(t):
        return m
    k = t.get("k")
    if k == "c":
        return int(t["v"])
    if k == "cast":
        return at(t["a"], m)
    if k == "un" and t["op"] == "Neg":
        return -at(t["a"], m)
    if k == "un" and t["op"] == "Not" and t.get("t") == "bool":
        return 1 - at(t["a"], m)
    if k == "bin":
        a, b = at(t["a"], m), at(t["b"], m)
        return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "Lt": lambda: int(a < b), "Le": lambda: int(a <= b),
                "Gt": lambda: int(a > b), "Ge": lambda: int(a >= b), "Eq": lambda: int(a == b), "Ne": lambda: int(a != b)}[t["op"]]()
    if k == "ovf":
        return 0
    if k == "call":
        n = t["n"]
        if re.search(r"(::max|integer_max)(::<i32>)?$", n):
            return max(at(t["args"][0], m), at(t["args"][1], m))
        if re.search(r"(::min|integer_min)(::<i32>)?$", n):
            return min(at(t["args"][0], m), at(t["args"][1], m))
        if re.search(r"::(unsigned_)?abs(::<i32>)?$", n):
            return abs(at(t["args"][0], m))
    raise Unreadable("an integer term: %s" % pretty(t)[:120])


def possible(path, m):
    for f, want in path.get("facts", []):
        try:
            x = at(f, m)
        except (Unreadable, KeyError, ValueError, AttributeError):
            continue
        if "eq" in want and int(want["eq"]) != x or "notin" in want and x in {int(y) for y in want["notin"]}:
            return False
    return True


def finite(path, t):
    """Has the path compared |t| (or t) with infinity?"""
    key = json.dumps(t, sort_keys=True)
    for f, _ in path.get("facts", []):
        s = json.dumps(f, sort_keys=True)
        if f.get("k") == "bin" and '"inf"' in s and key in s:
            return True
        if f.get("k") == "call" and f["n"].endswith(("is_finite", "is_infinite")) and key in s:
            return True
    return False


DIGITS = 5


def shown(path, num):
    """None when the displayed number is the stored value (to at least five significant digits)."""
    _, x, prec, ty = num
    if is_value(x) and prec is None:
        return None
    s = None
    if not is_value(x):
        if x.get("k") != "bin" or x["op"] != "Div":
            return "shows %s" % pretty(x)[:160]
        r = fcall(x["a"], "round")
        y = ser.strip(r[0]) if r else {}
        if y.get("k") != "bin" or y["op"] != "Mul":
            return "shows %s" % pretty(x)[:160]
        s = ser.strip(x["b"])
        a, b = ser.strip(y["a"]), ser.strip(y["b"])
        if is_value(b):
            a, b = b, a
        if not is_value(a) or b != s:
            return "shows %s" % pretty(x)[:160]
        p = fcall(s, "powi")
        if not p or ser.strip(p[0]).get("v") not in ("10.0", "10"):
            return "rounds by %s" % pretty(s)[:120]
        if not finite(path, a) or not finite(path, s):
            return "rounds a value that may be infinite, or so small that the rounding factor is infinite (shows NaN)"
    try:
        for m in range(-324, 309):
            if not possible(path, m):
                continue
            if s is not None and at(p[1], m) < DIGITS - 1 - m and m > -304:
                return "of order 10^%d: rounded to 10^%d" % (m, -at(p[1], m))
            if prec is not None and at(prec, m) < DIGITS - 1 - m:
                return "of order 10^%d: shown with %d decimals" % (m, at(prec, m))
    except Unreadable as e:
        return "not decided: %s" % e
    return None


TERMS = (("mass", 0), ("length", 1), ("time", 2), ("current", 3), ("temperature", 4), ("amount", 5), ("luminosity", 6), ("angle", 7))


def brackets(s, names):
    """`a¹, b⁻²` -> exponents by name."""
    out = {}
    for part in s.split(", "):
        for n in names:
            if part.startswith(n):
                out[n] = sup(part[len(n):]) if part[len(n):] else 1
                break
        else:
            raise Unreadable("bracket entry %r" % part)
    return out


def label_wrong(rd, cat, txt, dim, scale, ty, brand, verbose):
    m = re.fullmatch(r" Quantity<(.*)>", txt, re.S)
    if not m:
        return "not of the form `value Quantity<...>`"
    body = m.group(1)
    tail = ", " + ty
    if brand:
        if not re.search(r", [\w:]*\b%s$" % brand, body):
            return "the brand is not shown"
        body = body.rsplit(", ", 1)[0]
    if not body.endswith(tail):
        return "the storage type %s is not shown last" % ty
    body = body[:-len(tail)]
    if verbose:
        br = []
        while body.endswith("]"):
            k = body.rindex(" [")
            br.insert(0, body[k + 2:-1])
            body = body[:k]
        want_s = {n: x for n, x in zip(("2", "3", "5", "π"), scale) if x}
        want_d = {n: dim[i] for n, i in TERMS if dim[i]}
        got_s, got_d = {}, {}
        for b in br:
            if re.match(r"[235π]", b):
                got_s = brackets(b, ("2", "3", "5", "π"))
            else:
                got_d = brackets(b, [n for n, _ in TERMS])
        if got_s != want_s:
            return "the scale is shown as %s" % got_s
        if got_d != want_d:
            return "the dimension is shown as %s" % got_d
        m = re.fullmatch(r"(.*) \(([^()·]+)\)", body)
        if m:
            body = m.group(1)
            names = [d.name for d in cat.dims if tuple(d.exps) == tuple(dim)]
            if m.group(2) not in names:
                return "the dimension is called %r" % m.group(2)
    return rd.wrong(body, dim, scale)


def displays(c, cat):
    rd = Reader(cat)
    ws = []
    z = (0, 0, 0, 0)
    kilo, ft = (3, 0, 3, 0), (4, 2, 1, 0)
    for d, s in [((0, 1, 0, 0, 0, 0, 0, 0), z), ((0, 1, 0, 0, 0, 0, 0, 0), kilo), ((1, 0, 0, 0, 0, 0, 0, 0), z), ((0, 0, 1, 0, 0, 0, 0, 0), (2, 1, 1, 0)), ((1, 1, -2, 0, 0, 0, 0, 0), kilo),
                 ((0, 0, -1, 0, 0, 0, 0, 0), kilo), ((0, 2, 0, 0, 0, 0, 0, 0), (-3, 0, -3, 0)), ((0, 0, 0, 0, 0, 0, 0, 1), (-2, -2, -1, 1)), ((0, 0, 0, 0, 1, 0, 0, 0), z),
                 ((2, -3, 1, 0, 1, 0, 0, -1), (1, -2, 0, 3)), ((1, 2, 3, 4, -1, -2, -3, -4), ft), ((0, 0, 0, 1, 0, 0, 0, 0), (-6, 0, -6, 0)), ((0, 0, 0, 0, 0, 1, 0, 0), z), ((0, 0, 0, 0, 0, 0, 1, 0), z), ((0,) * 8, z)]:
        ws.append((d, s, "f64", ""))
    for t in ("f32", "i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128", "isize", "usize"):
        ws.append(((1, 1, -2, 0, 0, 0, 0, 0), kilo, t, ""))
    ws.append(((0, 1, 0, 0, 0, 0, 0, 0), kilo, "f64", "Branded"))
    ws.append(((0, 1, -1, 0, 0, 0, 0, 0), z, "i32", "Branded"))
    parts = [range(k, len(ws), 4) for k in range(4)]

    def go(job):
        cfg, part = job
        src = PRELUDE + "\npub struct Branded;\n"
        for i in parts[part]:
            d, s, t, b = ws[i]
            for tr in ("Display", "Debug"):
                src += "pub fn w_%s_%d(q: &%s, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::%s::fmt(q, f) }\n" % (tr, i, ty_src(s, d, t, b or "()"), tr)
        kw = {"features": ["alloc"], "default_features": False} if cfg == "alloc" else {}
        return analyse("wit_w18_show%d%s" % (part, "_alloc" if kw else ""), src, cge=cfg == "cge", **kw, opaque="<texts>|std::string::String as std::ops::Deref|String::as_str", env_extra={"WFLOW_MAX_PATHS": "64", "WFLOW_CALLS": "Formatter"})

    jobs = [(cfg, k) for cfg in ("std", "cge", "alloc") for k in range(4)]
    n = 0
    for (cfg, k), a in zip(jobs, pmap(go, jobs)):
        if not c.compile_errors(a, cfg):
            continue
        for i in parts[k]:
            d, s, t, b = ws[i]
            for tr in ("Display", "Debug"):
                key = "%s:%s:%s:%s%s:%s" % (tr, _dim(d), _scale(s), t, ":brand" if b else "", cfg)
                f = a.flows.get("w_%s_%d" % (tr, i))
                if not f:
                    c.fail(key, "not analysed")
                    continue
                n += 1
                done = 0
                for p in f["paths"]:
                    if not any(possible(p, m) for m in range(-324, 309)):
                        continue
                    if p["end"] != "return":
                        c.fail(key + ":end", "a path ends in %s %s" % (p["end"], str(p.get("detail"))[:160]))
                        continue
                    w = [x for x in p["calls"] if x["n"].endswith(("::write_fmt", "::write_str", "::pad")) and "Formatter" in x["n"]]
                    try:
                        pieces = []
                        for x in w:
                            pieces += flatten(x["args"][1])
                    except (Unreadable, KeyError, TypeError, IndexError, AttributeError) as e:
                        c.fail(key + ":text", "the text cannot be read: %s" % e)
                        continue
                    done += 1
                    nums = [x for x in pieces if isinstance(x, tuple)]
                    txt = "".join("\0" if isinstance(x, tuple) else x for x in pieces)
                    zero = any(_zero(f0) and w0.get("eq") == "1" for f0, w0 in p["facts"])
                    if zero and not nums:
                        c.ob(re.match(r"-?0(\.0*)? ", txt), key + ":value", "zero is shown as %r" % txt)
                        txt = " " + txt.split(" ", 1)[1] if " " in txt else txt
                    elif len(nums) != 1 or not txt.startswith("\0"):
                        c.fail(key + ":value", "%d numbers in %r" % (len(nums), txt))
                        continue
                    else:
                        w1 = shown(p, nums[0])
                        c.ob(w1 is None, key + ":value", "the number shown: %s" % w1)
                        txt = txt[1:]
                    try:
                        w2 = label_wrong(rd, cat, txt, d, s, t, b, tr == "Debug")
                    except Unreadable as e:
                        w2 = str(e)
                    c.ob(w2 is None, key + ":unit", "%r: %s" % (txt, w2))
                    if done == 1:
                        c.sample({"trait": tr, "type": t, "shows": txt})
                c.ob(done >= 1, key + ":paths", "no path shows anything")
    c.floor("Display/Debug implementations", n, 6 * len(ws))


def _zero(f):
    return f.get("k") == "bin" and f["op"] == "Eq" and any(is_value(f[x]) for x in "ab") and any(ser.strip(f[x]).get("k") == "c" and float(ser.strip(f[x])["v"]) == 0 for x in "ab")


def main():
    c = Check("W18", "other", "constant propagation of the unit-naming code over the typed MIR for every enumerated dimension and scale, and value flow of the Display and Debug implementations; the resulting text is read back by an independent reader")
    c.rules.append("the name generated for a dimension and scale denotes exactly that dimension and scale (a factor in parentheses to 3 digits when the scale is no power of ten); Display and Debug write the stored value, to at least 5 significant digits, before that name, the storage type and the brand, and Debug's brackets list the type's exponents")
    cat = spell.catalogue()
    names(c, cat)
    displays(c, cat)
    c.finish()
