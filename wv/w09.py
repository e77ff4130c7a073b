"""W09: the prefix table is the SI prefix table."""
from . import oracle
from .cat import SRC, plain, prefixes
from .core import Check, analyse, both_configs


def main():
    c = Check("W09", "other", "compile-time evaluation of the prefix table and accessors against the SI table")
    c.rules.append("SiPrefix::ALL lists each of the 24 SI prefixes exactly once with its name, symbol and power of ten; the const accessors return the same; alternative symbols denote only the SI ones (u for micro) and never another prefix")
    src = SRC + """
pub const C_LOG: [i16; 24] = { let mut o = [0; 24]; let mut i = 0; while i < 24 { o[i] = SiPrefix::ALL[i].factor_log10(); i += 1; } o };
pub const C_NAME: [&str; 24] = { let mut o = [""; 24]; let mut i = 0; while i < 24 { o[i] = SiPrefix::ALL[i].name(); i += 1; } o };
pub const C_SYM: [&str; 24] = { let mut o = [""; 24]; let mut i = 0; while i < 24 { o[i] = SiPrefix::ALL[i].symbol(); i += 1; } o };
pub const C_ALT: [&[&str]; 24] = { let mut o: [&[&str]; 24] = [&[]; 24]; let mut i = 0; while i < 24 { o[i] = SiPrefix::ALL[i].alternative_symbols(); i += 1; } o };
"""
    for n in oracle.PREFIXES:
        src += "pub const C_P_%s: SiPrefix = SiPrefix::%s;\n" % (n, n.upper())

    def go(cge):
        return analyse("wit_w09", src, cge=cge)

    for cge, a in zip((False, True), both_configs(go)):
        cfg = "cge" if cge else "std"
        if not c.compile_errors(a, cfg):
            continue
        ps = prefixes(a.consts["C_PREFIX"])
        names = [p.name for p in ps]
        c.ob(sorted(names) == sorted(oracle.PREFIXES), "complete", "listed: %s" % names)
        syms = {}
        alts = plain(a.consts["C_ALT"])
        for i, p in enumerate(ps):
            o = oracle.PREFIXES.get(p.name)
            if o:
                c.ob(p.log10 == o[0], p.name + ":factor", "10^%d, SI says 10^%d" % (p.log10, o[0]))
                c.ob(p.symbol == o[1], p.name + ":symbol", "%r, SI says %r" % (p.symbol, o[1]))
            c.ob(plain(a.consts["C_LOG"])[i] == p.log10, p.name + ":factor_log10()", "accessor differs from the table")
            c.ob(plain(a.consts["C_NAME"])[i] == p.name, p.name + ":name()", "accessor differs from the table")
            c.ob(plain(a.consts["C_SYM"])[i] == p.symbol, p.name + ":symbol()", "accessor differs from the table")
            c.ob(p.symbol not in syms, p.name + ":unique", "symbol also used by %s" % syms.get(p.symbol))
            syms[p.symbol] = p.name
            c.sample({"prefix": p.name, "symbol": p.symbol, "log10": p.log10, "alternatives": alts[i]})
        for i, p in enumerate(ps):
            for s in alts[i]:
                c.ob(s not in syms, p.name + ":alternative", "alternative %r is the symbol of %s" % (s, syms.get(s)))
                syms[s] = p.name
            want = ["u"] if p.name == "micro" else []
            c.ob([s for s in alts[i] if s not in ("μ",)] == want, p.name + ":alternatives", "alternatives %s" % alts[i])
        for n, (e, s) in oracle.PREFIXES.items():
            p = plain(a.consts["C_P_" + n])
            c.ob((p["factor_log10"], p["name"], p["symbol"]) == (e, n, s), "const:" + n, "SiPrefix::%s is %s" % (n.upper(), p))
        c.floor("prefixes (%s)" % cfg, len(ps), 24)
    c.finish()
