"""W07: every catalogue unit has the amount, zero point and dimension its definition gives it."""
import os
import re
from fractions import Fraction
from math import log10

from . import oracle
from .cat import SRC, dims, plain, prefixes, scale_val, unit
from .core import Check, REPO, analyse, both_configs


def all_unit_consts():
    """Names of the unit constants declared in the catalogue source (also those no dimension lists)."""
    try:
        s = open(os.path.join(REPO, "whippyunits-core/src/units.rs")).read()
    except OSError:
        return []
    return sorted(set(re.findall(r"pub const ([A-Z][A-Z0-9_]*)\s*:\s*Self\s*=\s*Self\s*\{", s)))


def judge(c, u, where):
    o = oracle.unit(u.name)
    if o is None:
        c.cov.setdefault("units without reference data", []).append(u.name)
        return
    c.ob(u.exps == o["dim"], "%s:dimension" % u.name, "%s: exponents %s, definition %s" % (where, u.exps, o["dim"]))
    got = scale_val(u.scale) * Fraction(u.cf)
    rel = abs(got / o["value"] - 1)
    c.ob(rel <= Fraction(o["tol"]), "%s:amount" % u.name, "%s: one %s is %.15g in SI units, definition %.15g" % (where, u.name, float(got), float(o["value"])))
    c.ob(abs(Fraction(u.af) - o["off"]) <= Fraction(1, 10 ** 9), "%s:zero" % u.name, "%s: zero point %r, definition %s" % (where, u.af, float(o["off"])))
    c.sample({"unit": u.name, "scale 2,3,5,pi": u.scale, "conversion_factor": u.cf, "si": float(got), "definition": float(o["value"])})


def main():
    c = Check("W07", "other", "compile-time evaluation of the unit tables against an independent reference")
    c.rules.append("for each unit constant the compiler evaluates: dimension exponents, scale * conversion factor and zero offset equal the definition in wv/oracle.py "
                   "(SI brochure, NIST SP 811, IAU); well-known symbols name the unit they stand for; a converted unit is stored at the nearest power of ten")
    names = all_unit_consts()
    src = SRC + "".join("pub const C_U_%s: Unit = Unit::%s.erase();\n" % (n, n) for n in names)

    def go(cge):
        return analyse("wit_w07", src, cge=cge)

    for cge, a in zip((False, True), both_configs(go)):
        if not c.compile_errors(a, "cge" if cge else "std"):
            continue
        ds = dims(a.consts["C_DIMS"])
        n = 0
        listed = set()
        for d in ds:
            for u in d.units:
                n += 1
                listed.add(u.name)
                judge(c, u, "dimension " + d.name)
                for s in u.symbols:
                    o = oracle.SYMBOLS.get(s)
                    if o:
                        c.ob(o == u.name, "symbol:%s" % s, "symbol %s is listed for %s, stands for %s" % (s, u.name, o))
                if u.cf != 1.0 and u.scale[0] == u.scale[2] and u.scale[1] == 0 and u.scale[3] == 0:
                    v = log10(float(scale_val(u.scale)) * u.cf)
                    c.ob(round(v) == u.scale[0], "%s:nearest" % u.name, "stored at 10^%d, its value is 10^%.3f" % (u.scale[0], v))
                c.ob(u.cf > 0, "%s:positive" % u.name, "conversion factor %r" % u.cf)
        have = {u.name for d in ds for u in d.units}
        for s, name in oracle.SYMBOLS.items():
            if name in have:
                where = [u.name for d in ds for u in d.units if s in u.symbols]
                c.ob(where == [name] or not where, "symbol:%s" % s, "symbol %s is listed for %s" % (s, where))
        for k, v in a.consts.items():
            if k.startswith("C_U_"):
                u = unit(plain(v))
                if u.name not in listed:
                    judge(c, u, "constant Unit::" + k[4:])
        for u in [unit(x) for x in plain(a.consts["C_BASES"])]:
            judge(c, u, "Unit::BASES")
        c.floor("catalogue units (%s)" % ("cge" if cge else "std"), n, 76)
        c.floor("units with reference data (%s)" % ("cge" if cge else "std"), sum(1 for x in have if x in oracle.UNITS), 76)
    c.assumptions.append("reference tolerances: 1e-12 relative, 1e-9 for the parsec, 1e-7 for the (tropical) year; the month is 30 days by definition here")
    c.finish()
