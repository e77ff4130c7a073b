"""The unit catalogue as the compiler sees it: rustc's constant evaluation of whippyunits_core's tables."""
from collections import namedtuple
from fractions import Fraction

from .core import analyse
from .terms import PI

Unit = namedtuple("Unit", "name symbols scale cf af exps system")
Dim = namedtuple("Dim", "name symbol exps units erased")
Prefix = namedtuple("Prefix", "name symbol log10")

SRC = """#![allow(warnings)]
use whippyunits_core::{Dimension, SiPrefix, Unit};
pub const C_DIMS: &[Dimension] = Dimension::ALL;
pub const C_BASIS: [&Dimension; 8] = [&Dimension::ALL[0]; 8];
pub const C_PREFIX: &[SiPrefix] = SiPrefix::ALL;
pub const C_BASES: [Unit; 8] = Unit::BASES;
"""


def plain(v):
    """Driver constant -> python value."""
    k = v["k"]
    if k == "ref":
        return plain(v["v"])
    if k == "arr":
        return [plain(x) for x in v["v"]]
    if k == "str":
        return v["v"]
    if k == "c":
        t = v["t"]
        if t in ("f32", "f64"):
            return float(v["v"])
        if t == "bool":
            return v["v"] in ("true", "1", True)
        return int(v["v"])
    if k == "agg":
        if not v["f"]:
            return v["var"] or ()
        return {f: plain(x) for f, x in v["f"].items()}
    return v


def unit(u):
    return Unit(u["name"], tuple(u["symbols"]), tuple(u["scale"]["0"]), u["conversion_factor"], u["affine_offset"],
                tuple(u["exponents"]["0"]), u["system"])


def dims(v):
    out = []
    for d in plain(v):
        out.append(Dim(d["name"], d["symbol"], tuple(d["exponents"]["0"]), [unit(u) for u in d["units"]], [unit(u) for u in d["units_erased"]]))
    return out


def prefixes(v):
    return [Prefix(p["name"], p["symbol"], p["factor_log10"]) for p in plain(v)]


def scale_val(s):
    return Fraction(2) ** s[0] * Fraction(3) ** s[1] * Fraction(5) ** s[2] * PI ** s[3]
