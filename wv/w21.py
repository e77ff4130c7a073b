"""W21: a dimension trait is implemented by exactly the quantities of the dimensions it lists."""
import os
import random
import re

from . import oracle
from .core import Check, analyse, both_configs
from .terms import PRELUDE, ZERO_D, last, parse_ty, qty

THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
AXES = ("Mass", "Length", "Time", "Current", "Temperature", "Amount", "Luminosity", "Angle")
LETTERS = ("M", "L", "T", "I", "Θ", "N", "J", "A")


def unit_vec(i):
    return tuple(1 if k == i else 0 for k in range(8))


def add(a, b, s=1):
    return tuple(x + s * y for x, y in zip(a, b))


NAMES = {}
for _i in range(8):
    NAMES[AXES[_i]] = NAMES[LETTERS[_i]] = unit_vec(_i)
ATOMS = sorted(NAMES)
NAMES.update({n: e for n, e in oracle.DIMENSIONS.items() if re.fullmatch(r"[A-Z][a-z]+", n)})


class X:
    """Dimension expression: text, exponents, precedence (1 quotient, 2 product, 3 power, 4 atom)."""

    def __init__(self, text, e, prec):
        self.text, self.e, self.prec = text, e, prec


def par(x, lvl):
    return "(%s)" % x.text if x.prec < lvl else x.text


def atom(n):
    return X(n, NAMES[n], 4)


def power(x, n):
    return X("%s^%d" % (par(x, 4), n), tuple(k * n for k in x.e), 3)


def implicit(n, k):
    return X("%s%d" % (n, k), tuple(k * v for v in NAMES[n]), 4)


def mul(a, b, op=" * "):
    l = par(a, 2)
    return X(l + (" . " if op == "." and l[-1].isdigit() else op) + par(b, 3), add(a.e, b.e), 2)


def div(a, b):
    # everything after the division sign is in the denominator
    return X(par(a, 1) + " / " + par(b, 2), add(a.e, b.e, -1), 1)


ONE = X("1", ZERO_D, 4)


def expressions(n_random):
    out = [ONE]
    for n in NAMES:
        out += [atom(n), power(atom(n), 2), power(atom(n), -3), implicit(n, 2), div(ONE, atom(n))]
    for n in LETTERS:
        out += [power(atom(n), k) for k in (-12, -2, -1, 0, 1, 3, 4, 7, 12, 200)]
        out += [implicit(n, k) for k in (0, 1, 3, 4, 12)]
        out += [div(ONE, power(atom(n), 2)), div(ONE, power(atom(n), -1)), power(div(ONE, atom(n)), 2)]
        for m in LETTERS:
            a, b = atom(n), atom(m)
            out += [mul(a, b), mul(a, b, "."), div(a, b), div(a, power(b, 2)), mul(implicit(n, 2), b, "."), div(power(a, -2), mul(b, a)), power(mul(a, b), 2), power(div(a, b), -2), div(div(a, b), a), mul(div(a, b), b), div(a, div(b, a))]
    r = random.Random(21)

    def rnd(k):
        if k == 0:
            n = r.choice(ATOMS if r.random() < 0.8 else sorted(NAMES))
            c = r.random()
            return atom(n) if c < 0.4 else power(atom(n), r.choice((-4, -3, -2, -1, 2, 3, 5))) if c < 0.7 else implicit(n, r.randint(1, 4)) if c < 0.95 else ONE
        c = r.random()
        if c < 0.45:
            return mul(rnd(k - 1), rnd(r.randint(0, k - 1)), r.choice((" * ", ".", "*")))
        if c < 0.85:
            return div(rnd(r.randint(0, k - 1)), rnd(k - 1))
        return power(rnd(k - 1), r.choice((-3, -2, -1, 0, 2, 3)))

    while n_random:
        x = rnd(r.randint(1, 4))
        if max(map(abs, x.e)) <= 200:
            out.append(x)
            n_random -= 1
    seen, uniq = set(), []
    for x in out:
        if x.text not in seen and max(map(abs, x.e)) <= 2000:
            seen.add(x.text)
            uniq.append(x)
    return uniq


BAD = ["Lenght", "X", "Mass2Length", "ML", "Q / T", "L * Wibble", "1 / Foo", "L^2 / (T * Bar)", "Baz^2", "Baz2", "(Qux)", "2", "0", "L * 2", "10", "L^1.5", "L^T", "L ^", "L /", "* L", "L + T", "L - T", "L T", "()",
       "meter", "m", "s", "kg", "Newton", "length", "l", "M, Nope", "Nope, M", "L^40000", "-1", "L % T", "\"L\"", "M; L"]


def impl_of(r):
    """(exponents, problem) of one impl of a dimension trait."""
    args = r["args"]
    s = args[0]
    q = qty(s)
    if q is None:
        return None, "implemented for %s" % s
    if not isinstance(q.dim, tuple) or not all(isinstance(x, int) for x in q.dim):
        return None, "implemented for a family of dimensions: %s" % s
    if q.brand != "()":
        return q.dim, "implemented for brand %s only" % q.brand
    g = set(r["generics"])
    sc = [a[1][0][0] for a in parse_ty(s)[1][0][1]] if last(parse_ty(s)[1][0][0]) == "Scale" else []
    if len(sc) != 4 or len(set(sc)) != 4 or not set(map(str, sc)) <= g:
        return q.dim, "does not cover every scale: %s" % s
    if q.t not in g:
        return q.dim, "does not cover every value type: %s" % s
    preds = [p for p in r["preds"] if not re.search(r": (std|core)::marker::(Sized|MetaSized)", p) and "ConstArgHasType" not in p and " has type " not in p and not re.match(r"^\[?const|^the constant", p, re.I)]
    if preds:
        return q.dim, "only under the condition %s" % preds[:2]
    u = r["assoc"].get("Unit")
    if u is not None and u != s:
        return q.dim, "its Unit is %s" % u
    return q.dim, None


def judge(c, cfg, key, what, recs, want):
    got = []
    for r in recs:
        if r["negative"]:
            continue
        e, bad = impl_of(r)
        c.ob(bad is None, "%s:%s:impl" % (cfg, key), "%s: %s" % (what, bad))
        if e is not None:
            got.append(e)
    c.ob(sorted(got) == sorted(want), "%s:%s:dimensions" % (cfg, key), "%s: implemented for dimensions %s, listed %s" % (what, sorted(got)[:4], sorted(want)[:4]))


def main():
    c = Check("W21", "other", "inventory of the trait impls the macro generates, read from the type-checked program")
    c.rules.append("for each invocation define_generic_dimension!(Tr, e1, ..): the impls of Tr in the type-checked program are one per expression, for Quantity<every scale, exponents of e_i, every value type, ()>, "
                   "without further conditions, with Unit = Self; the eight atomic traits of the library likewise; each malformed expression or unknown dimension is a compile error at its own line")
    xs = expressions(3000 if THOROUGH else 500)
    groups = [("x%d" % i, [x]) for i, x in enumerate(xs)]
    r = random.Random(2)
    for k in range(60):
        g, seen = [], set()
        for x in r.sample(xs, r.randint(2, 6)):
            if x.e not in seen:
                seen.add(x.e)
                g.append(x)
        groups.append(("l%d" % k, g))

    src = [PRELUDE, "#[allow(unused)] use whippyunits::dimension_traits::define_generic_dimension;\n"]
    for n, g in groups:
        src.append("pub mod %s { use whippyunits::dimension_traits::define_generic_dimension; define_generic_dimension!(Tq, %s); }\n" % (n, ", ".join(x.text for x in g)))
    ok_src = "".join(src)
    bad_src = PRELUDE + "".join("pub mod b%d { whippyunits::dimension_traits::define_generic_dimension!(Tq, %s); }\n" % (i, b) for i, b in enumerate(BAD))

    # a macro that cannot be parsed stops later checks, so the malformed ones are judged each by its own error line
    def go(cge):
        return cge, analyse("wit_w21", ok_src, cge=cge, env_extra={"WFLOW_INVENTORY": "1"}), analyse("wit_w21b", bad_src, cge=cge)

    for cge, a, b in both_configs(go):
        cfg = "cge" if cge else "stable"
        if c.compile_errors(a, cfg):
            by = {}
            for rec in a.by_kind("impl"):
                m = re.search(r"(?:^|::)([xl]\d+)::Tq$", rec["trait"])
                if m:
                    by.setdefault(m.group(1), []).append(rec)
            for n, g in groups:
                t = ", ".join(x.text for x in g)
                judge(c, cfg, t[:80], "define_generic_dimension!(Tq, %s)" % t[:200], by.get(n, []), [x.e for x in g])
            for i, n in enumerate(AXES):
                recs = [rec for rec in a.by_kind("impl") if re.search(r"dimension_traits::%s$" % n, rec["trait"])]
                judge(c, cfg, "atomic:" + n, "dimension_traits::%s" % n, recs, [unit_vec(i)])
            c.floor("%s dimension expressions" % cfg, len(xs), 1200)
            c.sample({"config": cfg, "expression": groups[40][1][0].text, "impl": by.get(groups[40][0], [{}])[0].get("args")})
        lines = {e.get("line") for e in b.errors}
        for i, l in enumerate(b.lines, 1):
            m = re.match(r"pub mod b(\d+) ", l)
            if m:
                e = BAD[int(m.group(1))]
                c.ob(i in lines, "%s:rejects:%s" % (cfg, e), "define_generic_dimension!(Tq, %s) compiles" % e)
        c.cov["malformed expressions rejected (%s)" % cfg] = len(BAD)
    c.finish()
