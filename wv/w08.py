"""W08: the dimension table is consistent and means what its names say."""
import re

from . import oracle
from .cat import SRC, dims, plain, unit
from .core import Check, analyse, both_configs

SUP = {"⁰": "0", "¹": "1", "²": "2", "³": "3", "⁴": "4", "⁵": "5", "⁶": "6", "⁷": "7", "⁸": "8", "⁹": "9", "⁻": "-"}
LET = {"M": 0, "L": 1, "T": 2, "I": 3, "θ": 4, "Θ": 4, "N": 5, "Cd": 6, "J": 6, "A": 7}


def parse_symbol(s):
    """'ML²T⁻²' -> exponents"""
    out = [0] * 8
    if s in ("", "1"):
        return tuple(out)
    pos = 0
    for m in re.finditer(r"(Cd|[MLTIθΘNJA])([⁰¹²³⁴⁵⁶⁷⁸⁹⁻]*)", s):
        if m.start() != pos:
            return None
        pos = m.end()
        out[LET[m.group(1)]] += int("".join(SUP[x] for x in m.group(2)) or "1")
    return tuple(out) if pos == len(s) else None


def table(c, ds, what, full=True):
    seen, names = {}, {}
    for d in ds:
        o = oracle.DIMENSIONS.get(d.name)
        if o is not None:
            c.ob(d.exps == o, "%s:exponents" % d.name, "%s: exponents %s, the quantity is %s" % (what, d.exps, o))
        else:
            c.cov.setdefault("dimensions without reference data", []).append(d.name)
        p = parse_symbol(d.symbol)
        c.ob(p == d.exps, "%s:symbol" % d.name, "%s: symbol %s reads as %s, exponents are %s" % (what, d.symbol, p, d.exps))
        c.ob(d.exps not in seen, "%s:unique" % d.name, "%s: same exponents as %s" % (what, seen.get(d.exps)))
        seen[d.exps] = d.name
        c.ob(d.name not in names, "%s:name" % d.name, "name listed twice")
        names[d.name] = 1
        c.ob(list(d.units) == list(d.erased), "%s:erased" % d.name, "units and units_erased differ")
        for u in d.units:
            c.ob(u.exps == d.exps, "%s:unit:%s" % (d.name, u.name), "unit has exponents %s" % (u.exps,))
        if d.units:
            b = d.units[0]
            c.ob(b.cf == 1.0 and b.af == 0.0 and b.system == "Metric", "%s:base" % d.name, "first unit %s is not a plain metric storage unit" % b.name)
            if d.name in oracle.BASE:
                c.ob(b.name == oracle.BASE[d.name], "%s:base" % d.name, "first unit is %s, the prefixable SI unit is %s" % (b.name, oracle.BASE[d.name]))
        c.sample({"dimension": d.name, "symbol": d.symbol, "exponents": d.exps, "units": [u.name for u in d.units]})


def main():
    c = Check("W08", "other", "compile-time evaluation of the dimension tables against an independent reference")
    c.rules.append("each dimension's exponents equal those of the physical quantity it names and those its symbol spells; exponents and names are unique; every unit in it has its exponents; "
                   "its first unit is the plain metric SI unit that takes prefixes; the basis tables list the eight base dimensions and units in exponent order")
    src = SRC + "pub const C_DBASIS: [Dimension; 8] = Dimension::BASIS;\n"

    def go(cge):
        return analyse("wit_w08", src, cge=cge)

    for cge, a in zip((False, True), both_configs(go)):
        cfg = "cge" if cge else "std"
        if not c.compile_errors(a, cfg):
            continue
        ds = dims(a.consts["C_DIMS"])
        table(c, ds, "Dimension::ALL")
        bs = dims(a.consts["C_DBASIS"])
        names = ["Mass", "Length", "Time", "Current", "Temperature", "Amount", "Luminosity", "Angle"]
        for i, n in enumerate(names):
            e = tuple(1 if j == i else 0 for j in range(8))
            c.ob(bs[i].exps == e and bs[i].name == n, "basis:%d" % i, "Dimension::BASIS[%d] is %s %s" % (i, bs[i].name, bs[i].exps))
        for i, u in enumerate(unit(x) for x in plain(a.consts["C_BASES"])):
            e = tuple(1 if j == i else 0 for j in range(8))
            c.ob(u.exps == e and u.name == oracle.BASE[names[i]], "bases:%d" % i, "Unit::BASES[%d] is %s %s" % (i, u.name, u.exps))
        miss = sorted(set(oracle.DIMENSIONS) - {"dimensionless"} - {d.name for d in ds})
        c.ob(not miss, "missing", "dimensions not listed in Dimension::ALL: %s" % miss)
        c.floor("dimensions (%s)" % cfg, len(ds), 28)
    c.finish()
