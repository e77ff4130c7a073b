"""All spellings of the catalogue's units and what each one means."""
import re
from collections import namedtuple

from .cat import SRC, dims, plain, prefixes
from .core import analyse

Cat = namedtuple("Cat", "dims prefixes spellings exact prefixed clashes declared")
PLURAL = {x: x for x in "stone lux candela fahrenheit rankine psi horsepower torr bar celsius kelvin".split()}
PLURAL.update({"inch": "inches", "foot": "feet", "henry": "henries"})
# keywords Rust does not accept even as raw identifiers
NEVER = {"self", "Self", "super", "crate"}
KEYWORDS = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn".split())


def ident_ok(s):
    return bool(re.fullmatch(r"[^\W\d]\w*", s)) and s not in NEVER


def plural(name):
    return PLURAL.get(name, name + "s")


class Meaning:
    def __init__(self, u, p=None):
        self.u, self.p = u, p
        e = p.log10 if p else 0
        self.scale = (u.scale[0] + e, u.scale[1], u.scale[2] + e, u.scale[3])
        self.dim = u.exps
        self.cf, self.af = u.cf, u.af

    def key(self):
        return (self.scale, self.dim, self.cf, self.af)


def spellings(ds, ps, alts):
    """spelling -> meaning; exact symbols and names take precedence over prefixed readings."""
    out, clash = {}, []
    exact = {}
    for d in ds:
        for u in d.units:
            for s in list(u.symbols) + [u.name]:
                m = Meaning(u)
                if s in exact and exact[s].key() != m.key():
                    clash.append((s, exact[s].u.name, u.name))
                exact.setdefault(s, m)
    pre = {}
    for d in ds:
        for i, u in enumerate(d.units):
            if i == 0 and u.system == "Metric":
                for p, al in zip(ps, alts):
                    sp = [a + s for a in [p.symbol] + al for s in u.symbols] + [p.name + u.name]
                    for s in sp:
                        m = Meaning(u, p)
                        if s in pre and pre[s].key() != m.key():
                            clash.append((s, pre[s].p.name + pre[s].u.name, p.name + u.name))
                        pre.setdefault(s, m)
    out.update(pre)
    out.update(exact)
    return out, exact, pre, clash


def declared(ds, ps):
    """(singular name, method name, meaning) of every unit with a declarator method."""
    out = []
    for d in ds:
        for u in d.units:
            if not ident_ok(u.name):
                continue
            out.append((u.name, plural(u.name), Meaning(u)))
            if u.system == "Metric" and u.cf == 1.0 and u.af == 0.0:
                for p in ps:
                    out.append((p.name + u.name, p.name + plural(u.name), Meaning(u, p)))
    return out


def lit_symbols(cat):
    """Symbols the literal macros exist for."""
    out = []
    bases = {"gram", "meter", "second", "ampere", "kelvin", "mole", "candela", "radian"}
    for d in cat.dims:
        for i, u in enumerate(d.units):
            out += list(u.symbols)
            if u.cf != 1.0 or u.af != 0.0:
                out.append(u.name)
            elif i == 0 and u.system == "Metric":
                out += [p.symbol + s for p in cat.prefixes for s in u.symbols]
    return [s for s in dict.fromkeys(out) if ident_ok(s) and s not in KEYWORDS]


_cat = None


def catalogue():
    global _cat
    if _cat is None:
        a = analyse("wit_cat", SRC + "pub const C_ALT: [&[&str]; 24] = { let mut o: [&[&str]; 24] = [&[]; 24]; let mut i = 0; "
                    "while i < 24 { o[i] = SiPrefix::ALL[i].alternative_symbols(); i += 1; } o };")
        ds, ps, alts = dims(a.consts["C_DIMS"]), prefixes(a.consts["C_PREFIX"]), plain(a.consts["C_ALT"])
        sp, exact, pre, clash = spellings(ds, ps, alts)
        _cat = Cat(ds, ps, sp, exact, pre, clash, declared(ds, ps))
    return _cat
