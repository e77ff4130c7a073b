"""W01: additive operators and comparisons exist only between quantities of the identical type."""
from . import core, inv, terms as T

STRICT = ("Add", "Sub", "AddAssign", "SubAssign", "Rem", "RemAssign", "PartialEq", "PartialOrd", "Sum")
# traits that would let a quantity be used as some other type without being asked for
IMPLICIT = ("Deref", "DerefMut", "CoerceUnsized", "DispatchFromDyn")
WITH_OUTPUT = ("Add", "Sub", "Rem")
SCALAR_OK = ("Rem", "RemAssign")  # remainder by a plain number is scaling, not addition


def one(cge):
    a = inv.inventory("wit_w01", cge)
    return cge, a


def main():
    c = core.Check("W01", "other", "trait-impl inventory of the type-checked crate")
    c.rules.append("for every impl of Add/Sub/Rem/*Assign/PartialEq/PartialOrd/Sum in the library that mentions a quantity, the right operand type is "
                   "syntactically the left operand type (all scale, dimension, storage and brand parameters identical) and so is Output; no Deref-like impl exists")
    for cge, a in core.both_configs(one):
        cfg = "cge" if cge else "stable"
        if not c.compile_errors(a, cfg):
            continue
        n = {t: set() for t in STRICT}
        for r in a.by_kind("impl"):
            t = inv.trait(r)
            args = r["args"]
            if r["negative"]:
                continue
            if t in IMPLICIT:
                c.fail("%s:implicit:%s:%s" % (cfg, t, T.short(args[0])[:120]), "a quantity converts implicitly through %s" % t)
                continue
            if t not in STRICT:
                continue
            l, rr = inv.peel(args[0]), inv.peel(args[1] if len(args) > 1 else args[0])
            ql, qr = T.qty(l), T.qty(rr)
            if t in SCALAR_OK and ql and not qr and rr == ql.t and rr in T.STORAGE:
                ok = True
                if t == "Rem":
                    ok = inv.peel(r["assoc"].get("Output", "")) == l
                c.ob(ok, "%s:%s:scalar:%s" % (cfg, t, rr), "output of remainder by a number is %s" % T.short(r["assoc"].get("Output", "")))
                continue
            who = "%s:%s:%s" % (cfg, t, (ql or qr).t if (ql or qr) else "?")
            same = ql is not None and l == rr
            c.ob(same, who + ":operands", "impl %s<%s> for %s: operand types differ" % (t, T.short(rr), T.short(l)))
            if t in WITH_OUTPUT:
                o = inv.peel(r["assoc"].get("Output", ""))
                c.ob(o == l, who + ":output", "Output is %s" % T.short(o))
            if t == "Sum":
                continue
            if same:
                n[t].add(ql.t)
                full = len(set(r["generics"])) == len(r["generics"])
                c.ob(full, who + ":generics")
        for t in STRICT:
            if t == "Sum":
                continue
            # a derived PartialEq is one impl generic over the storage type
            if t == "PartialEq":
                c.floor("%s impls of %s" % (cfg, t), len(n[t]), 1)
            else:
                missing = [s for s in T.STORAGE if s not in n[t]]
                c.ob(not missing, "%s:%s:missing" % (cfg, t), "no impl for storage %s" % missing)
        for s in a.by_kind("struct"):
            if s["path"].endswith("Quantity"):
                ph = [f for f in s["fields"] if "PhantomData" in f["ty"]]
                c.ob(len(ph) == 1 and all(p in ph[0]["ty"] for p in ("Scale", "Dimension", "Brand")) and not ph[0]["pub"], "%s:struct" % cfg,
                     "the quantity type no longer carries scale, dimension and brand in its type")
        c.cov["impls inspected (%s)" % cfg] = len(a.by_kind("impl"))
        c.sample({"config": cfg, "storage types with Add": sorted(n["Add"])})
    c.finish()
