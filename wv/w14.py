"""W14: a compound unit expression means the product of its parts."""
import random
import os
from fractions import Fraction

from .core import Check, analyse, pmap
from .spell import KEYWORDS, catalogue, ident_ok
from .terms import FLOATS, NotAffine, affine, close, pretty, qty, raw, single_return, strip, ty_src, PRELUDE

THOROUGH = os.environ.get("VERIF_TIER") == "thorough"


class E:
    """Expression text with its meaning: scale exponents, dimension exponents, conversion factor."""

    def __init__(self, text, scale, dim, cf, prec, conv=None):
        self.text, self.scale, self.dim, self.cf, self.prec = text, tuple(scale), tuple(dim), Fraction(cf), prec
        self.conv = self.cf != 1 if conv is None else conv  # mentions a converted unit: unit! refuses it even when the factors cancel

    def fits(self):
        return all(abs(x) <= 400 for x in self.scale) and all(abs(x) <= 60 for x in self.dim) and Fraction(1, 10 ** 60) < self.cf < 10 ** 60


def paren(e, lvl):
    return "(%s)" % e.text if e.prec < lvl else e.text


def unit(s, m):
    return E(s, m.scale, m.dim, Fraction(m.cf), 4)


def power(e, n):
    return E("%s^%d" % (paren(e, 4), n), [x * n for x in e.scale], [x * n for x in e.dim], e.cf ** n, 3, e.conv)


def implicit(s, m, n):
    return E("%s%d" % (s, n), [x * n for x in m.scale], [x * n for x in m.dim], Fraction(m.cf) ** n, 3, m.cf != 1)


def mul(a, b, op=" * "):
    # products associate; a quotient on either side needs parentheses (everything after '/' is the denominator)
    l = paren(a, 2)
    if op == "." and l[-1].isdigit():
        op = " . "  # "2." would be a decimal literal
    return E(l + op + paren(b, 3), [x + y for x, y in zip(a.scale, b.scale)], [x + y for x, y in zip(a.dim, b.dim)], a.cf * b.cf, 2, a.conv or b.conv)


def div(a, b):
    return E(paren(a, 1) + " / " + paren(b, 2), [x - y for x, y in zip(a.scale, b.scale)], [x - y for x, y in zip(a.dim, b.dim)], a.cf / b.cf, 1, a.conv or b.conv)


def ten(n):
    return E("10^%d" % n if n != 1 else "10", (n, 0, n, 0), (0,) * 8, 1, 3)


ONE = E("1", (0,) * 4, (0,) * 8, 1, 4)


def expressions(cat, n_random):
    """The expressions judged: every form over chosen units, then nested combinations from a fixed seed."""
    units = [(s, m) for s, m in cat.exact.items() if ident_ok(s) and m.af == 0.0 and not any(ch.isdigit() for ch in s)]
    pre = [(s, m) for s, m in cat.prefixed.items() if ident_ok(s) and s not in KEYWORDS]
    base = [(s, cat.spellings[s]) for s in ("g", "kg", "m", "s", "A", "K", "mol", "cd", "rad", "mm", "ft", "lb", "deg", "min", "L", "eV", "N", "µm", "Ω", "kΩ", "degR") if s in cat.spellings]
    out = []
    for s, m in base:
        for n in (-12, -7, -3, -2, -1, 0, 1, 2, 3, 5, 9, 12):
            out.append(power(unit(s, m), n))
        for n in (0, 1, 2, 3, 4, 10, 12):
            out.append(implicit(s, m, n))
        out.append(div(ONE, unit(s, m)))
        out.append(mul(ten(3), unit(s, m)))
        out.append(mul(unit(s, m), ten(-6)))
        out.append(div(unit(s, m), ten(1)))
    for s, m in units:
        out.append(power(unit(s, m), 2))
        out.append(implicit(s, m, 3))
        out.append(div(unit(s, m), E("s", (0,) * 4, (0, 0, 1, 0, 0, 0, 0, 0), 1, 4)))
    for i, (s, m) in enumerate(base):
        for s2, m2 in base:
            a, b = unit(s, m), unit(s2, m2)
            out += [mul(a, b), mul(a, b, "."), div(a, b)]
    r = random.Random(20240607)

    def gen(d):
        k = r.random()
        if d == 0 or k < 0.2:
            s, m = r.choice(units if r.random() < 0.6 else pre)
            if r.random() < 0.25 and not s[-1].isdigit():
                return implicit(s, m, r.randint(1, 4))
            return unit(s, m)
        if k < 0.45:
            return mul(gen(d - 1), gen(d - 1), r.choice((" * ", ".", "*")))
        if k < 0.7:
            return div(gen(d - 1), gen(d - 1))
        if k < 0.76:
            return mul(ten(r.randint(-9, 9)), gen(d - 1))
        if k < 0.8:
            return div(ONE, gen(d - 1))
        e = gen(d - 1)
        return e if e.prec == 3 else power(e, r.choice((-3, -2, -1, 2, 3)))

    while len(out) < 2000 + n_random:
        e = gen(r.randint(2, 5))
        if e.fits():
            out.append(e)
    seen = {}
    for e in out:
        seen.setdefault(e.text, e)
    return list(seen.values())


def main():
    c = Check("W14", "other", "type-level witnesses and MIR value flow over enumerated unit expressions")
    c.rules.append("for each unit expression, quantity!, unit! and value! agree with the documented grammar: '*' and '.' add exponents, '/' subtracts those of everything after it, '^n' and a trailing number "
                   "multiply them, 10^n scales, 1 is neutral; conversion factors multiply, divide and exponentiate alike")
    c.rules.append("for every symbolic pair of exponent vectors, the composition primitives on dimension and scale exponents are componentwise sum, negation and scalar product")
    c.rules.append("for any two sub-expressions a and b, evaluating a*b, a/b and a^n returns componentwise the sum, difference and n-fold multiple of what evaluating a and b returns (inductive step, with the "
                   "recursive calls opaque); conversion factors multiply and divide")
    cat = catalogue()
    exprs = expressions(cat, 4000 if THOROUGH else 600)

    def go(cge):
        src = [PRELUDE, "use whippyunits::{quantity, unit, value};\n"]
        for i, e in enumerate(exprs):
            q = ty_src(e.scale, e.dim)
            src.append("pub fn w_q%d(v: f64) -> impl Sized { quantity!(v, %s) }\n" % (i, e.text))
            src.append("pub fn w_v%d(q: %s) -> f64 { value!(q, %s) }\n" % (i, q, e.text))
            if not e.conv:
                src.append("pub type Ty_u%d = unit!(%s);\n" % (i, e.text))
        return analyse("wit_w14", "".join(src), cge=cge)

    jobs = [lambda: go(False), lambda: go(True), primitives]
    a_std, a_cge, prim = pmap(lambda f: f(), jobs)
    n = 0
    for cfg, a in (("std", a_std), ("cge", a_cge)):
        if not c.compile_errors(a, cfg):
            continue
        for i, e in enumerate(exprs):
            n += 1
            want = (e.scale, e.dim, "f64", "()")
            for fn, ty in (("w_q%d" % i, a.flows["w_q%d" % i]["output"]), ("Ty_u%d" % i, a.types.get("Ty_u%d" % i))):
                if ty is None:
                    continue
                q = qty(ty)
                got = q and (tuple(q.scale), tuple(q.dim), q.t, q.brand)
                c.ob(got == want, "%s:%s:%s:type" % (cfg, fn[0] == "T" and "unit!" or "quantity!", e.text), "type is %s, expected %s" % (got, want))
            for fn, arg, f in (("w_q%d" % i, "v", e.cf), ("w_v%d" % i, "q", 1 / e.cf)):
                key = "%s:%s:%s" % (cfg, "quantity!" if arg == "v" else "value!", e.text)
                p, why = single_return(a.flows[fn])
                if p is None:
                    c.fail(key, why)
                    continue
                try:
                    t = affine(strip(raw(p["ret"])))
                except NotAffine as x:
                    c.fail(key, "%s (%s)" % (pretty(raw(p["ret"])), x))
                    continue
                ok = set(t) <= {arg, None} and close(t.get(arg, 0), f, 1e-11) and t.get(None, 0) == 0
                c.ob(ok, key, "number is %s, expected %s * %r" % (pretty(raw(p["ret"])), arg, float(f)))
        c.sample({"expression": exprs[-1].text, "type": a.flows["w_q%d" % (len(exprs) - 1)]["output"][-200:]})
    c.floor("expressions judged", n, 2500)
    judge_primitives(c, prim)
    c.assumptions.append("affine units (degC, degF) inside compound expressions have no defined meaning and are left out")
    c.finish()


def primitives():
    src = """#![allow(warnings)]
use whippyunits_core::dimension_exponents::DynDimensionExponents as D;
use whippyunits_core::scale_exponents::ScaleExponents as S;
use whippyunits_core::{UnitExpr, UnitEvaluationResult, EvaluationMode, calculate_unit_conversion_factors};
pub fn w_dadd(a: D, b: D) -> D { a + b }
pub fn w_dneg(a: D) -> D { -a }
pub fn w_dmul(a: D, n: i16) -> D { a * n }
pub fn w_sadd(a: S, b: S) -> S { a.mul(b) }
pub fn w_sneg(a: S) -> S { a.neg() }
pub fn w_smul(a: S, n: i16) -> S { a.scalar_exp(n) }
pub fn w_sten(n: i16) -> S { S::_10(n) }
pub fn w_emul(a: Box<UnitExpr>, b: Box<UnitExpr>, m: EvaluationMode) -> UnitEvaluationResult { let e = UnitExpr::Mul(a, b); let r = e.evaluate_with_mode(m); core::mem::forget(e); r }
pub fn w_ediv(a: Box<UnitExpr>, b: Box<UnitExpr>, m: EvaluationMode) -> UnitEvaluationResult { let e = UnitExpr::Div(a, b); let r = e.evaluate_with_mode(m); core::mem::forget(e); r }
pub fn w_epow(a: Box<UnitExpr>, n: syn::LitInt, m: EvaluationMode) -> UnitEvaluationResult { let e = UnitExpr::Pow(a, n); let r = e.evaluate_with_mode(m); core::mem::forget(e); r }
pub fn w_cmul(a: Box<UnitExpr>, b: Box<UnitExpr>) -> (f64, f64) { let e = UnitExpr::Mul(a, b); let r = calculate_unit_conversion_factors(&e); core::mem::forget(e); r }
pub fn w_cdiv(a: Box<UnitExpr>, b: Box<UnitExpr>) -> (f64, f64) { let e = UnitExpr::Div(a, b); let r = calculate_unit_conversion_factors(&e); core::mem::forget(e); r }
"""
    return analyse("wit_w14p", src, opaque="<recursion>|get_unit_info|to_string|base10_parse|find_unit", extra_deps='syn = "2.0"')


def mentions(v, acc=None):
    acc = set() if acc is None else acc
    if isinstance(v, dict):
        if v.get("k") == "in":
            acc.add(v["n"].lstrip("*"))
        else:
            for x in v.values():
                mentions(x, acc)
    elif isinstance(v, list):
        for x in v:
            mentions(x, acc)
    return acc


def poly(v):
    """Term as a polynomial {sorted atoms: coefficient}; an atom is (inputs it mentions, component read)."""
    v = strip(v)
    k = v.get("k")
    if k == "c":
        n = Fraction(v["v"])
        return {(): n} if n else {}
    if k == "un" and v["op"] == "Neg":
        return {m: -x for m, x in poly(v["a"]).items()}
    if k == "bin" and v["op"] in ("Add", "Sub", "Mul"):
        a, b = poly(v["a"]), poly(v["b"])
        out = {}
        if v["op"] == "Mul":
            for m, x in a.items():
                for n, y in b.items():
                    t = tuple(sorted(m + n))
                    out[t] = out.get(t, 0) + x * y
        else:
            out = dict(a)
            for m, x in b.items():
                out[m] = out.get(m, 0) + (x if v["op"] == "Add" else -x)
        return {m: x for m, x in out.items() if x}
    path = []
    w = v
    while w.get("k") == "field":
        path.append(w["n"])
        w = strip(w["a"])
    who = ",".join(sorted(mentions(w) - {"m"}))
    if who == "n" and w.get("k") == "call":
        path = []  # the payload of the parsed exponent
    return {((who, ".".join(reversed(path))),): Fraction(1)}


def components(ret, prefix=""):
    """Array leaves of an aggregate with their projection paths."""
    out = {}
    ret = strip(ret)
    if ret.get("k") == "agg":
        for n, x in ret["f"].items():
            out.update(components(x, prefix + n + "."))
    elif ret.get("k") == "arr":
        for i, x in enumerate(ret["v"]):
            out.update(components(x, prefix + str(i) + "."))
    else:
        out[prefix[:-1]] = ret
    return out


def judge_primitives(c, a):
    if not c.compile_errors(a, "primitives"):
        return
    one = Fraction(1)

    def sym(x, path):
        return (x, path)

    want = {
        "w_dadd": lambda p: {(sym("a", p),): one, (sym("b", p),): one},
        "w_sadd": lambda p: {(sym("a", p),): one, (sym("b", p),): one},
        "w_dneg": lambda p: {(sym("a", p),): -one},
        "w_sneg": lambda p: {(sym("a", p),): -one},
        "w_dmul": lambda p: {tuple(sorted((sym("a", p), sym("n", "")))): one},
        "w_smul": lambda p: {tuple(sorted((sym("a", p), sym("n", "")))): one},
        "w_sten": lambda p: {(sym("n", ""),): one} if p in ("0.0", "0.2") else {},
        "w_emul": lambda p: {(sym("a", p),): one, (sym("b", p),): one},
        "w_ediv": lambda p: {(sym("a", p),): one, (sym("b", p),): -one},
        "w_epow": lambda p: {tuple(sorted((sym("a", p), sym("n", "")))): one},
    }
    size = {"d": {"0.%d" % i for i in range(8)}, "s": {"0.%d" % i for i in range(4)}}
    size["e"] = {"dimension_exponents." + x for x in size["d"]} | {"scale_exponents." + x for x in size["s"]}
    induct = 0
    for fn, w in want.items():
        whole = fn[2] != "e"
        for p in a.flows[fn]["paths"]:
            if p["end"] == "panic" and fn in ("w_epow",):
                continue  # an exponent that does not fit i16
            key = "any exponents:%s" % fn[2:] if whole else "any sub-expressions:%s" % {"w_emul": "*", "w_ediv": "/", "w_epow": "^"}[fn]
            got = components(p["ret"]) if p["end"] == "return" and p.get("ret") else {}
            if set(got) != size[fn[2]]:
                if whole:
                    c.fail(key, "does not return one value per exponent: %s" % p["end"])
                else:
                    c.cov.setdefault("induction not applicable", []).append("%s: %s" % (fn, p["end"]))
                continue
            for path, v in got.items():
                f, e = poly(v), w(path)
                if not whole and any(t[0] == "" or "," in t[0] for m in f for t in m):
                    # the recursion is not visible as one result per operand: enumerated expressions decide alone
                    c.cov.setdefault("induction not applicable", []).append("%s.%s: %s" % (fn, path, pretty(v)[:200]))
                    continue
                induct += 1
                c.ob(f == e, key + ":" + path, "component is %s" % pretty(v)[:300])
    for fn, op in (("w_cmul", "Mul"), ("w_cdiv", "Div")):
        for p in a.flows[fn]["paths"]:
            v = components(p["ret"]).get("0") if p["end"] == "return" and p.get("ret") else None
            v = v and strip(v)
            sides = v and v.get("k") == "bin" and [mentions(v["a"]), mentions(v["b"])]
            if not sides or {len(sides[0]), len(sides[1])} != {1}:
                c.cov.setdefault("induction not applicable", []).append("%s: %s" % (fn, v and pretty(v)[:200]))
                continue
            induct += 1
            ok = v["op"] == op and ([{"a"}, {"b"}] == sides or op == "Mul" and [{"b"}, {"a"}] == sides)
            c.ob(ok, "any sub-expressions:%s:conversion factor" % {"w_cmul": "*", "w_cdiv": "/"}[fn], "factor is %s" % pretty(v)[:300])
    c.cov["induction steps judged"] = induct
