"""W15: what is not a unit is rejected at compile time."""
import itertools
import os
import random
import string

from .core import Check, analyse, pmap
from .spell import KEYWORDS, catalogue, ident_ok, plural
from .terms import PRELUDE

THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
# the strict check has to look under every operator of the expression tree
CONV_FORMS = ("%s", "%s^2", "%s2", "m / %s", "m * %s", "%s * m", "%s / m", "1 / (s * %s^3)", "(%s)", "(%s)^2", "(%s * m)^-1", "((m / %s)^2)^3", "K * (%s * s)^2 / m", "m / (s / %s)")
LOCAL = "Gram, Millimeter, Second, Ampere, Kelvin, Mole, Candela, Radian"


def non_units(cat):
    """Identifiers that are near units but are none: (text, why)."""
    known = set(cat.spellings) | {"dimensionless", "power_of_10"}
    out = {}

    def add(s, why):
        if ident_ok(s) and s not in known and s not in out and s not in KEYWORDS and s != "_" and not any(ch.isdigit() for ch in s):
            out[s] = why

    for n in (1, 2):
        for t in itertools.product(string.ascii_letters, repeat=n):
            add("".join(t), "every %d-letter identifier" % n)
    for d in cat.dims:
        for i, u in enumerate(d.units):
            for p in cat.prefixes:
                if i == 0 and u.system == "Metric":
                    continue
                # only the first unit of a dimension takes prefixes
                for s in u.symbols:
                    add(p.symbol + s, "prefix on %s" % u.name)
                add(p.name + u.name, "prefix on %s" % u.name)
            for s in list(u.symbols) + [u.name]:
                add(s.upper(), "capitals")
                add(s.capitalize(), "capitals")
                add(s.lower(), "capitals")
            add(plural(u.name) if plural(u.name) != u.name else u.name + "s", "plural")
    r = random.Random(41)
    sp = sorted(s for s in cat.spellings if ident_ok(s))
    pre = sorted(s for s in cat.prefixed if ident_ok(s))
    for p in cat.prefixes:
        for s in r.sample(pre, 8):
            add(p.symbol + s, "two prefixes")
            add(p.name + s, "two prefixes")
    for s in r.sample(sp, 250):
        k = r.randrange(len(s))
        add(s[:k] + s[k + 1:], "typo")
        add(s[:k] + r.choice(string.ascii_lowercase) + s[k:], "typo")
        if k:
            add(s[:k - 1] + s[k] + s[k - 1] + s[k + 1:], "typo")
        add(s + "_", "typo")
        add("_" + s, "typo")
        add(s + s, "typo")
    return list(out.items())


# numbers other than 1 and 10^n, fractional or out-of-range exponents, other operators
BAD_TEXT = ["0", "2", "5 * m", "m * 5", "m / 60", "60 * s", "100", "100 * m", "m * 100", "2^3 * m", "m / 2^2", "m^0.5", "m^1.5", "1.0 * m", "10.0 * m", "0.1 * m", "m * 0.5",
            "m + s", "m - s", "m^m", "m^s", "m^(1)", "m^(1/2)", "-m", "m * -1", "m s", "m ** 2", "m %% s", "m & s", "m, s, K, A", "", "* m", "m *", "/ m", "m /", "m ^", "(m", "\"m\"", "'m'", "m.0",
            "m^40000", "m^-40000", "10^40000", "10^65536", "10^65537 * m", "10^4294967297 * m", "1000 * m", "11 * m", "12 * m", "20", "1_0_0 * m", "m!", "&m", "m?", "[m]", "{m}", "m as s", "m = s", "m == s"]
BAD_TEXT = [t.replace("%%", "%") for t in BAD_TEXT if t.count("(") == t.count(")")]


def main():
    c = Check("W15", "other", "compile-fail witnesses against the type-checked macro expansions")
    c.rules.append("unit!, quantity!, value! and local_unit! with an identifier that is not a catalogue spelling, alone or inside a compound expression, do not compile; nor do numbers other than 1 and 10, "
                   "fractional or overflowing exponents and other operators")
    c.rules.append("unit! with a unit that needs a conversion factor, anywhere in the expression, does not compile")
    cat = catalogue()
    bad = non_units(cat)
    forms = ["%s", "%s^2", "(%s)^2", "m * (s * %s)^-1",  "m * %s", "m / %s", "%s / s", "(m / %s)^2", "m / (s * %s)", "1 / %s", "10^3 * %s", "%s2", "m * s / (kg * K^2 * %s^3)"]
    conv = sorted(s for s, m in cat.exact.items() if m.cf != 1 and ident_ok(s) and s not in KEYWORDS and s.isascii())

    def go(job):
        part, cge = job
        src, plan = [PRELUDE, "use whippyunits::{quantity, unit, value, local_unit};\n"], []

        def w(key, code, ctl=False):
            n = "w_%d" % len(plan)
            plan.append((n, key, ctl))
            src.append(code.replace("@", n, 1) + "\n")

        def four(text, key):
            w("unit!" + key, "pub fn @(q: &unit!(%s)) {}" % text)
            w("quantity!" + key, "pub fn @() { let _ = quantity!(1.0, %s); }" % text)
            w("value!" + key, "pub fn @(q: unit!(m)) { let _ = value!(q, %s); }" % text)

        if part == "plain":
            for i, (s, why) in enumerate(bad):
                if not THOROUGH and (i + cge) % 2:
                    w("quantity!(v, %s) [%s]" % (s, why), "pub fn @() { let _ = quantity!(1.0, %s); }" % s)
                    continue
                w("unit!(%s) [%s]" % (s, why), "pub fn @(q: &unit!(%s)) {}" % s)
                if THOROUGH:
                    w("quantity!(v, %s) [%s]" % (s, why), "pub fn @() { let _ = quantity!(1.0, %s); }" % s)
        else:
            r = random.Random(5)
            for s, why in r.sample(bad, 300):
                w("value!(q, %s) [%s]" % (s, why), "pub fn @(q: unit!(m)) { let _ = value!(q, %s); }" % s)
                w("local_unit!(%s) [%s]" % (s, why), "pub fn @(q: &local_unit!(%s, %s)) {}" % (s, LOCAL))
            for s in ("xyz", "kft", "Kg", "meters", "kkm", "q"):
                for f in forms:
                    t = f % s
                    four(t, "(%s)" % t)
                    w("local_unit!(%s)" % t, "pub fn @(q: &local_unit!(%s, %s)) {}" % (t, LOCAL))
            for t in BAD_TEXT:
                four(t, "(%s)" % t)
            for s in conv:
                for f in CONV_FORMS + ("%s / %s" % ("%s", s),):
                    t = f % s
                    w("unit!(%s) [conversion]" % t, "pub fn @(q: &unit!(%s)) {}" % t)
            # what must keep compiling, so that a failure of everything is not mistaken for rejection
        for f in forms:
            t = f % "N"
            w("unit!(%s)" % t, "pub fn @(q: &unit!(%s)) {}" % t, True)
            w("quantity!(%s)" % t, "pub fn @() { let _ = quantity!(1.0, %s); }" % t, True)
            w("local_unit!(%s)" % t, "pub fn @(q: &local_unit!(%s, %s)) {}" % (t, LOCAL), True)
        return job, plan, analyse("wit_w15_" + part, "".join(src), cge=cge)

    n = ok = 0
    for (part, cge), plan, a in pmap(go, [(p, g) for p in ("plain", "forms") for g in (False, True)]):
        cfg = "cge" if cge else "std"
        at = {}
        for i, l in enumerate(a.lines, 1):
            if l.startswith("pub fn w_"):
                at[l[7:l.index("(")]] = i
        hit = {e["line"] for e in a.errors if e["line"]}
        for fn, key, ctl in plan:
            if ctl:
                ok += 1
                c.ob(at[fn] not in hit, "%s:rejected:%s" % (cfg, key), "a valid unit expression is refused")
            else:
                n += 1
                c.ob(at[fn] in hit, "%s:accepted:%s" % (cfg, key), "the compiler accepts " + key)
    c.sample({"identifiers": len(bad), "first": bad[:3], "last": bad[-3:]})
    c.floor("rejections", n, 12000)
    c.floor("controls", ok, 60)
    c.finish()
