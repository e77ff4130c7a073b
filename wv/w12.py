"""W12: a declarator module with its own base units stores every quantity in those units, without changing the amount."""
import os
import re
import sys
from fractions import Fraction

from .core import Check, analyse, pmap
from .spell import KEYWORDS, catalogue, ident_ok, lit_symbols
from .terms import INTS, NotAffine, affine, close, const_val, pretty, qty, raw, scale_factor, single_return, strip, PRELUDE
from .w10 import through_float
from .w14 import expressions

THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
SETS = {
    "mmks": "Kilogram Millimeter Second Ampere Kelvin Mole Candela Radian",
    "cgs": "Gram Centimeter Second Ampere Kelvin Mole Candela Radian",
    "big": "Megagram Kilometer Hour Milliampere Microkelvin Kilomole Millicandela Degree",
    "odd": "Carat Nanometer Day Kiloampere Rankine Micromole Decicandela Turn",
    "ends": "Quettagram Quectometer Yoctosecond Ronnaampere Quettakelvin Rontomole Yottacandela Gradian",
}
DIMS = 8
BAD = ("Xyz", "Meters", "kilogram", "Kilofoot", "Newton", "Kilonewton", "Km", "Millikilogram", "Joule")


def bases(cat, names):
    out = []
    by = {}
    for name, _plural, m in cat.declared:
        by.setdefault(name[0].upper() + name[1:], m)
    for i, n in enumerate(names.split()):
        m = by[n]
        assert m.dim == tuple(int(k == i) for k in range(DIMS)) and m.cf == 1.0, n
        out.append(m.scale)
    return out


def local_scale(bs, dim):
    return tuple(sum(e * b[k] for e, b in zip(dim, bs)) for k in range(4))


def same_type(c, key, got, scale, dim, t, brand):
    q = qty(got)
    c.ob(q is not None and (tuple(q.scale), tuple(q.dim), q.t, q.brand.split("::")[-1]) == (tuple(scale), tuple(dim), t, brand), key + ":type",
         "type %s, expected scale %s dimension %s of %s, brand %s" % (got[-220:], scale, dim, t, brand))


def stored(c, key, rec, m_scale, cf, af, to, dim, t, brand):
    """The stored number is the declared amount, expressed in the local scale `to`."""
    same_type(c, key, rec["output"], to, dim, t, brand)
    p, why = single_return(rec)
    if p is None:
        return c.fail(key, why)
    ratio = scale_factor(tuple(x - y for x, y in zip(m_scale, to)))
    if t in INTS:
        v = strip(raw(p["ret"]))
        calls = []

        def find(x):
            if x.get("k") == "call" and "::rescale" in x["n"]:
                calls.append(x)
                return
            for y in x.values():
                if isinstance(y, dict):
                    find(y)
        find(v)
        if len(calls) != 1:
            return c.fail(key, "stored number is %s, expected one integer rescale" % pretty(v))
        k = calls[0]
        inner = v
        while inner.get("k") == "field":
            inner = inner["a"]
        c.ob(inner is k or inner == k, key + ":read", "stored number is %s, expected the rescaled number itself" % pretty(v))
        got = qty(k["rt"])
        src = k["args"][0]
        same_type(c, key + ":target", k["rt"], to, dim, t, got.brand.split("::")[-1] if got else "?")
        try:
            a = affine(through_float(raw(src), t))
        except NotAffine as e:
            return c.fail(key, "rescales %s (%s)" % (pretty(src), e))
        ratio = Fraction(1)  # the integer rescale itself is judged by W05; the declared amount is judged here
    else:
        try:
            a = affine(strip(raw(p["ret"])))
        except NotAffine as e:
            return c.fail(key, "stored number is %s (%s)" % (pretty(raw(p["ret"])), e))
    rel = 1e-6 if t == "f32" else 1e-12
    ok = set(a) <= {"v", None} and close(a.get("v", 0), Fraction(cf) * ratio, rel) and close(a.get(None, Fraction(0)), Fraction(af) * ratio, rel)
    c.ob(ok, key, "stored number is %s, expected (v * %.12g + %.12g) * %.12g" % ({str(k): float(x) for k, x in a.items()}, cf, af, float(ratio)))


def fits32(m_scale, to):
    """Leave out f32 constants that no f32 holds."""
    r = scale_factor(tuple(x - y for x, y in zip(m_scale, to)))
    return Fraction(1, 10 ** 30) < r < 10 ** 30


def main():
    c = Check("W12", "other", "type-level witnesses and MIR value flow over declarator modules with own base units")
    c.rules.append("for every choice of base units in %s: local_unit!(U) has the dimension of U and the product of the base units' scales; <module>::quantity!(v, U), the Local* declarator methods and the module's "
                   "literals have that type, brand included, and store v's declared amount expressed in it" % sorted(SETS))
    c.rules.append("a module with a brand and no base units stores every quantity at its declared scale under the brand")
    c.rules.append("a base-unit name that is no unit of a base dimension is rejected")
    cat = catalogue()
    sp = [(s, m) for s, m in cat.spellings.items() if ident_ok(s)]
    tt = [(s, m) for s, m in sp if s not in KEYWORDS]  # the modules' macro_rules take an expression, which no keyword is
    exact = [(s, m) for s, m in tt if m.p is None]
    exprs = [e for e in expressions(cat, 600 if THOROUGH else 0)]
    exprs = [e for e in exprs if e.text.isascii() and not any(w in KEYWORDS for w in re.findall(r"[a-z]+", e.text))][:: 1 if THOROUGH else 3]
    qexprs = [e for e in exprs if not re.search(r"\.\s*\(", e.text)]  # `a.(b)` is no Rust expression
    lits = [(s, cat.spellings[s]) for s in lit_symbols(cat) if s in cat.spellings]

    def go(job):
        kind, sname, cge = job
        cfg = "cge" if cge else "std"
        src = [PRELUDE, "use whippyunits::{define_unit_declarators, local_unit};\n"]
        plan = []
        names = SETS.get(sname)
        bs = bases(cat, names) if names else None
        opaque = ""
        args = ", ".join(names.split()) if names else ""

        def w(how, key, scale, dim, cf, af, t, brand, sig, body):
            n = "w_%d" % len(plan)
            to = local_scale(bs, dim) if bs else scale
            plan.append((n, how, "%s:%s:%s" % (cfg, sname, key), scale, dim, cf, af, to, t, brand))
            src.append("pub fn %s(%s) -> impl Sized { %s }\n" % (n, sig, body))

        def ty(key, text, dim, t="f64", brand="()"):
            n = "Ty_%d" % len(plan)
            plan.append((n, "ty", "%s:%s:%s" % (cfg, sname, key), None, dim, 1, 0, local_scale(bs, dim), t, brand))
            src.append("pub type %s = %s;\n" % (n, text))

        if kind == "ty":
            for s, m in (sp if sname in ("mmks", "odd") or THOROUGH else exact):
                ty("local_unit!(%s)" % s, "local_unit!(%s, %s)" % (s, args), m.dim)
            for s, m in exact[::5]:
                ty("local_unit!(%s, u8, Br)" % s, "local_unit!(%s, %s, u8, Br)" % (s, args), m.dim, "u8", "Br")
            src.append("pub struct Br;\n")
            for e in exprs:
                ty("local_unit!(%s)" % e.text, "local_unit!(%s, %s)" % (e.text, args), e.dim)
        elif kind in ("q", "int"):
            src.append("define_unit_declarators!(loc, %s);\ndefine_unit_declarators!(locb, Brd, %s);\n" % (args, args))
            if kind == "int":
                opaque = "rescale_i32|rescale_i64|rescale_isize|rescale_usize"
                for t in ("i32", "i64", "isize", "usize"):
                    for s, m in exact:
                        w("q", "quantity!(_, %s, %s)" % (s, t), m.scale, m.dim, m.cf, m.af, t, "()", "v: %s" % t, "loc_quantity!(v, %s, %s)" % (s, t))
                for e in qexprs[::7]:
                    w("q", "quantity!(_, %s, i64)" % e.text, e.scale, e.dim, e.cf, 0, "i64", "()", "v: i64", "loc_quantity!(v, %s, i64)" % e.text)
                for s, m in exact[::3]:
                    w("q", "branded quantity!(_, %s, i32)" % s, m.scale, m.dim, m.cf, m.af, "i32", "Brd", "v: i32", "locb_quantity!(v, %s, i32)" % s)
            else:
                for s, m in (tt if sname in ("mmks", "odd") or THOROUGH else exact):
                    w("q", "quantity!(_, %s)" % s, m.scale, m.dim, m.cf, m.af, "f64", "()", "v: f64", "loc_quantity!(v, %s)" % s)
                for s, m in exact:
                    w("q", "branded quantity!(_, %s)" % s, m.scale, m.dim, m.cf, m.af, "f64", "Brd", "v: f64", "locb_quantity!(v, %s)" % s)
                    w("q", "quantity!(_, %s, f64)" % s, m.scale, m.dim, m.cf, m.af, "f64", "()", "v: f64", "loc_quantity!(v, %s, f64)" % s)
                    if fits32(m.scale, local_scale(bs, m.dim)):
                        w("q", "quantity!(_, %s, f32)" % s, m.scale, m.dim, m.cf, m.af, "f32", "()", "v: f32", "loc_quantity!(v, %s, f32)" % s)
                for e in qexprs:
                    if all(abs(x - y) <= 250 for x, y in zip(local_scale(bs, e.dim), e.scale)):
                        w("q", "quantity!(_, %s)" % e.text, e.scale, e.dim, e.cf, 0, "f64", "()", "v: f64", "loc_quantity!(v, %s)" % e.text)
        elif kind in ("tr", "trint"):
            src.append("define_unit_declarators!(loc, %s);\ndefine_unit_declarators!(locb, Brd, %s);\n" % (args, args))
            if kind == "trint":
                opaque = "rescale_i32|rescale_i64"
            for name, plural, m in cat.declared:
                u = m.u
                d = next(d for d in cat.dims if u in d.units)
                if sum(map(abs, d.exps)) != 1 or sum(d.exps) != 1 or d.units[0] is not u:
                    continue
                tn = "Local" + d.name.replace(" ", "")
                for t in (("f64",) if kind == "tr" else ("i32", "i64")):
                    w("tr", "%s.%s()" % (t, plural), m.scale, m.dim, 1.0, 0.0, t, "()", "v: %s" % t, "loc::%s::%s(v)" % (tn, plural))
                    w("tr", "branded %s.%s()" % (t, plural), m.scale, m.dim, 1.0, 0.0, t, "Brd", "v: %s" % t, "locb::%s::%s(v)" % (tn, plural))
        elif kind == "lit":
            src.append("define_unit_declarators!(loc, %s);\ndefine_unit_declarators!(locb, Brd, %s);\n" % (args, args))
            for s, m in lits:
                if m.p is not None and not (THOROUGH and sname == "mmks"):
                    continue
                w("lit", "2.5%s" % s, m.scale, m.dim, m.cf, m.af, "f64", "()", "", "loc::literals::float::%s!(2.5)" % s)
                w("lit", "2.5%s_f64 branded" % s, m.scale, m.dim, m.cf, m.af, "f64", "Brd", "", "locb::literals::float::%s_f64!(2.5)" % s)
                if fits32(m.scale, local_scale(bs, m.dim)):
                    w("lit", "2.5%s_f32" % s, m.scale, m.dim, m.cf, m.af, "f32", "()", "", "loc::literals::float::%s_f32!(2.5)" % s)
        elif kind == "brand":
            src.append("define_unit_declarators!(locb, Brd);\n")
            for s, m in tt:
                if m.cf == 1.0 and m.af == 0.0:
                    w("q", "quantity!(_, %s)" % s, m.scale, m.dim, 1.0, 0.0, "f64", "Brd", "v: f64", "locb_quantity!(v, %s)" % s)
                    if m.p is None:
                        w("qi", "quantity!(_, %s, i16)" % s, m.scale, m.dim, 1.0, 0.0, "i16", "Brd", "v: i16", "locb_quantity!(v, %s, i16)" % s)
            for name, plural, m in cat.declared:
                d = next(d for d in cat.dims if m.u in d.units)
                if m.p is not None or m.u.system != "Metric" or m.cf != 1.0 or m.af != 0.0 or " " in d.name:
                    continue
                if not ident_ok(m.u.symbols[0]):
                    continue
                for t in ("f64", "i32", "i64"):
                    w("qi", "%s.%s()" % (t, plural), m.scale, m.dim, 1.0, 0.0, t, "Brd", "v: %s" % t, "locb::Local%s::%s(v)" % (d.name, plural))
        else:  # rej: one witness per line, every one an error
            part = int(sname)
            good = SETS["mmks"].split()
            k = 0
            for i in range(DIMS):
                for bad in BAD if THOROUGH and i == part else BAD[(i + part) % 8::8][:1] if not THOROUGH else []:
                    s = list(good)
                    s[i] = bad
                    plan.append((k, "rej", "%s:base unit %d named %s" % (cfg, i, bad)))
                    src.append("pub mod m_%d { use whippyunits::define_unit_declarators; define_unit_declarators!(loc%d, %s); }\n" % (k, k, ", ".join(s)))
                    k += 1
            plan.append((k, "ctl", "%s:valid base units" % cfg))
            src.append("pub mod m_%d { use whippyunits::define_unit_declarators; define_unit_declarators!(loc%d, %s); }\n" % (k, k, ", ".join(good)))
        a = analyse("wit_w12_" + kind, "".join(src), cge=cge, opaque=opaque)
        if os.environ.get("WV_T"): print(job, len(plan), round(a.wall, 1), file=sys.stderr)
        return job, plan, a

    jobs = []
    for g in (False, True):
        for s in SETS:
            for k in ("ty", "q", "int", "tr", "trint", "lit"):
                if not THOROUGH and g and (k != "q" or s not in ("odd", "mmks")):
                    continue
                if not THOROUGH and (k, s) in (("lit", "cgs"), ("lit", "ends"), ("lit", "big"), ("int", "cgs"), ("int", "ends"), ("trint", "cgs"), ("trint", "ends")):
                    continue
                jobs.append((k, s, g))
        jobs.append(("brand", "declared", g))
        if THOROUGH or not g:
            jobs = [("rej", str(i), g) for i in range(8 if THOROUGH else 2)] + jobs
    n = r = 0
    for (kind, sname, cge), plan, a in pmap(go, jobs):
        cfg = "cge" if cge else "std"
        if kind == "rej":
            hit = {e["line"] for e in a.errors if e["line"]}
            for k, how, key in plan:
                line = next(i for i, l in enumerate(a.lines, 1) if l.startswith("pub mod m_%d " % k))
                r += 1
                c.ob((line in hit) == (how == "rej"), ("accepted:" if how == "rej" else "rejected:") + key, "compiles" if how == "rej" else "does not compile")
            continue
        if not c.compile_errors(a, "%s-%s-%s" % (cfg, kind, sname)):
            continue
        for fn, how, key, scale, dim, cf, af, to, t, brand in plan:
            n += 1
            if how == "ty":
                same_type(c, key, a.types[fn], to, dim, t, brand)
                continue
            rec = a.flows[fn]
            if how == "lit":
                same_type(c, key, rec["output"], to, dim, t, brand)
                p, why = single_return(rec)
                got = p and const_val(strip(raw(p["ret"])))
                want = (Fraction("2.5") * Fraction(cf) + Fraction(af)) * scale_factor(tuple(x - y for x, y in zip(scale, to)))
                c.ob(got is not None and close(got, want, 1e-6 if t == "f32" else 1e-12), key, "stored number is %s, expected %r" % (why or got, float(want)))
            elif how == "qi":
                same_type(c, key, rec["output"], to, dim, t, brand)
                p, why = single_return(rec)
                c.ob(p is not None and strip(raw(p["ret"])).get("k") == "in", key, "stored number is %s" % (why or pretty(raw(p["ret"]))))
            else:
                stored(c, key, rec, scale, cf, af, to, dim, t, brand)
        if plan and len(c.samples) < 6:
            c.sample({"construct": plan[0][2], "type": (a.flows.get(plan[0][0]) or {}).get("output", a.types.get(plan[0][0], ""))[-160:]})
    c.floor("declarations judged", n, 8000)
    c.floor("base-unit names rejected", r, 14)
    c.assumptions.append("base units are exact powers (2, 3, 5, pi) of the coherent unit; integer storage is judged up to the W05 integer rescale")
    c.finish()
