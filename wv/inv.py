"""Inventory of the trait impls and public functions that mention Quantity."""
from . import core, terms as T

SRC = T.PRELUDE + "pub fn w_anchor(a: Quantity<Scale, Dimension>) -> impl Sized { a }\n"


def inventory(name, cge, src=SRC):
    return core.analyse(name, src, cge=cge, env_extra={"WFLOW_INVENTORY": "1"})


def peel(s):
    s = s.strip()
    while s.startswith("&"):
        s = s[1:].strip()
        if s.startswith("'"):
            s = s.split(" ", 1)[1]
        if s.startswith("mut "):
            s = s[4:]
    return s


def is_q(s):
    return T.last(T.parse_ty(peel(s))[0]) == "Quantity"


def mentions_q(s):
    return "Quantity<" in s or s.endswith("Quantity")


def trait(r):
    return r["trait"].rsplit("::", 1)[-1]
