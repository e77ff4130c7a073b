"""W13: quantities of different brands never mix and no operation changes a brand."""
import re

from . import inv, terms as T
from .core import Check, both_configs, analyse
from .spell import catalogue, ident_ok

FREE = ("::new",)  # a quantity made from a bare number: the caller's context names the brand
OPS = {
    "a + b": "%s + %s", "a - b": "%s - %s", "a * b": "%s * %s", "a / b": "%s / %s", "a % b": "%s %% %s", "a == b": "%s == %s", "a != b": "%s != %s", "a < b": "%s < %s", "a >= b": "%s >= %s", "partial_cmp": "%s.partial_cmp(&%s)",
}
ASG = ("+=", "-=", "*=", "/=", "%=")


def brands(s):
    out = []

    def walk(n):
        if T.last(n[0].lstrip("&")) == "Quantity":
            q = T.qty_node((T.last(n[0].lstrip("&")), n[1]))
            out.append(q.brand if q else "?")
            for x in n[1][:2] + n[1][3:]:
                walk(x)
            if len(n[1]) > 2:
                walk(n[1][2])
            return
        for x in n[1]:
            walk(x)
    walk(T.parse_ty(inv.peel(s)))
    return out


def witnesses():
    """(name, source, must compile)"""
    src = [T.PRELUDE, "use whippyunits::api::*;\n#[derive(Debug, Clone, Copy, PartialEq, PartialOrd)] pub struct B1;\n#[derive(Debug, Clone, Copy, PartialEq, PartialOrd)] pub struct B2;\n"]
    rows = []

    def w(key, sig, body, ok=False):
        n = "w_%d" % len(rows)
        rows.append((n, key, ok))
        src.append("pub fn %s(%s) { %s }\n" % (n, sig, body))
    Z = (0,) * 4
    L = (0, 1, 0, 0, 0, 0, 0, 0)
    D0 = (0,) * 8
    for t in ("f64", "f32", "i32", "u8", "i128"):
        for x, y in (("B1", "B2"), ("B1", "()"), ("()", "B2"), ("B1", "B1")):
            ok = x == y
            a, b = T.ty_src(Z, L, t, x), T.ty_src(Z, L, t, y)
            for k, f in OPS.items():
                w("%s of %s, brands %s and %s" % (k, t, x, y), "a: %s, b: %s" % (a, b), "let _ = %s;" % (f % ("a", "b")), ok)
            for k in ASG:
                if k in ("*=", "/=", "%="):
                    if ok:
                        continue
                w("a %s b of %s, brands %s and %s" % (k, t, x, y), "mut a: %s, b: %s" % (a, b), "a %s b;" % k, ok)
            w("assignment of %s, brands %s and %s" % (t, x, y), "mut a: %s, b: %s" % (a, b), "a = b;", ok)
            w("into of %s, brands %s and %s" % (t, x, y), "a: %s" % a, "let _: %s = a.into();" % b, ok)
            if not ok:
                w("from of dimensionless %s, brands %s and %s" % (t, x, y), "a: %s" % T.ty_src(Z, D0, t, x), "let _: %s = a.into();" % T.ty_src(Z, D0, t, y))
            r = "rescale" if t == "f64" else "rescale_" + t
            w("%s, brands %s and %s" % (r, x, y), "a: %s" % T.ty_src((1, 0, 0, 0), L, t, x), "let _: %s = %s(a);" % (b, r), ok)
            for u, d in (("mm", L), ("ft", L), ("mm / s", (0, 1, -1, 0, 0, 0, 0, 0)), ("degF", (0, 0, 0, 0, 1, 0, 0, 0)), ("rad", (0,) * 7 + (1,)), ("m / m", D0)):
                if t[0] == "u" and u in ("ft", "degF"):
                    continue
                w("value!(_, %s, %s, %s) of brand %s" % (u, t, y, x), "a: %s" % T.ty_src(Z, d, t, x), "let _: %s = value!(a, %s, %s, %s);" % (t, u, t, y), ok)
                if y == "()":
                    w("value!(_, %s, %s) of brand %s" % (u, t, x), "a: %s" % T.ty_src(Z, d, t, x), "let _: %s = value!(a, %s, %s);" % (t, u, t))
    for x in ("B1", "B2"):
        w("dimensionless f64 of brand %s into a number" % x, "a: %s" % T.ty_src(Z, D0, "f64", x), "let _: f64 = a.into();")
    return "".join(src), rows


def main():
    c = Check("W13", "other", "trait-impl and signature inventory of the type-checked library; type witnesses")
    c.rules.append("every impl and every public function of the library that mentions quantities names one and the same brand for all of them (arguments, operands, associated types, results): a type parameter or (); "
                   "only Quantity::new and deserialization make a quantity of a brand the caller names; the macros' brand argument, and () without it, is the brand of the type; mixing brands is a compile error at its own line")
    cat = catalogue()
    names = [(s, m) for s, m in cat.exact.items() if ident_ok(s)]
    src, rows = witnesses()
    mac = [T.PRELUDE, "pub struct B1;\n"]
    plan = []
    class plain: cf = 1.0
    for i, (s, m) in enumerate(names + [(e, plain) for e in ("m / m", "1", "rad / s", "m^2", "kg * m / s^2", "1 / s", "m2", "J / (mol * K)", "10^3", "mm / km", "deg", "rad^2 / rad^2", "ft / ft", "lb * ft^2")]):
        if s.startswith(("ft", "lb")):
            m = type("conv", (), {"cf": 2.0})  # no unit! type: needs a conversion
        for k, (t, b, args) in enumerate((("f64", "()", ""), ("f64", "B1", ", f64, B1"), ("i32", "B1", ", i32, B1"), ("f32", "()", ", f32"))):
            if m.cf == 1.0:
                mac.append("pub type Ty_%d_%d = unit!(%s%s);\n" % (i, k, s, args))
                plan.append(("Ty_%d_%d" % (i, k), "unit!(%s%s)" % (s, args), t, b))
            if t == "f64" or m.cf == 1.0:
                mac.append("pub fn w_%d_%d(v: %s) -> impl Sized { quantity!(v, %s%s) }\n" % (i, k, t, s, args))
                plan.append(("w_%d_%d" % (i, k), "quantity!(v, %s%s)" % (s, args), t, b))
    macsrc = "".join(mac)

    def go(cge):
        return cge, inv.inventory("wit_w13", cge), analyse("wit_w13w", src, cge=cge), analyse("wit_w13m", macsrc, cge=cge, opaque="f64|f32|i32")

    for cge, a, b, d in both_configs(go):
        cfg = "cge" if cge else "stable"
        if c.compile_errors(a, cfg):
            n = 0
            for r in a.by_kind("impl"):
                if r["negative"]:
                    continue
                bs = [x for s in list(r["args"]) + list(r["assoc"].values()) for x in brands(s)]
                if not bs:
                    continue
                n += 1
                key = "%s:impl:%s:%s" % (cfg, inv.trait(r), T.short(r["args"][0])[:160])
                num = not all(inv.is_q(x) for x in r["args"])
                if num and inv.trait(r) in ("From", "Into", "TryFrom", "TryInto", "AsRef", "AsMut", "Borrow", "BorrowMut", "Deref", "DerefMut"):
                    c.ob(set(bs) == {"()"}, key + ":number", "impl %s<%s> turns a quantity of brand %s into or from something without a brand" % (r["trait"], ", ".join(T.short(x) for x in r["args"]), bs[0]))
                c.ob(len(set(bs)) == 1 and (bs[0] == "()" or bs[0] in r["generics"]), key, "impl %s<%s>: brands %s" % (r["trait"], ", ".join(T.short(x) for x in r["args"]), sorted(set(bs))))
            c.floor("%s impls" % cfg, n, 800)
            n = 0
            for r in a.by_kind("sig"):
                i = [x for s in r["in"] for x in brands(s)]
                o = brands(r["out"])
                n += 1
                key = "%s:fn:%s" % (cfg, T.short(r["path"])[:160])
                c.ob(len(set(i + o)) <= 1, key, "takes brands %s, returns %s" % (sorted(set(i)), sorted(set(o))))
                if o and not i and not r["path"].endswith(FREE):
                    c.ob(set(o) == {"()"}, key + ":made", "makes a quantity of brand %s out of none" % sorted(set(o)))
            c.floor("%s functions" % cfg, n, 15)
        at = {}
        for i, l in enumerate(b.lines, 1):
            m = re.match(r"pub fn (w_\d+)\(", l)
            if m:
                at[m.group(1)] = i
        hit = {e["line"] for e in b.errors if e["line"]}
        for w, key, ok in rows:
            c.ob((at[w] in hit) != ok, "%s:%s:%s" % (cfg, "refused" if ok else "accepted", key), key + (" does not compile" if ok else " compiles"))
        if c.compile_errors(d, cfg):
            for w, key, t, br in plan:
                s = d.types.get(w) if w.startswith("Ty") else d.flows.get(w, {}).get("output")
                q = T.qty(s or "")
                c.ob(q is not None and (q.t, T.last(q.brand)) == (t, br), "%s:brand:%s" % (cfg, key), "%s has type %s" % (key, T.short(s or "?")))
        c.sample({"config": cfg, "witness": rows[0][1]})
        c.cov["brand-mixing programs refused (%s)" % cfg] = sum(1 for r in rows if not r[2])
    c.finish()
