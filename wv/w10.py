"""W10: every spelling of a unit means the same amount through every entry point."""
import os
from fractions import Fraction

from .core import Check, both_configs, pmap
from .spell import catalogue, ident_ok, lit_symbols
from .terms import INTS, NotAffine, affine, close, const_val, pretty, qty, raw, single_return, strip, ty_src, PRELUDE

THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
LIT = (("float", "f64", ("", "_f64")), ("float", "f32", ("_f32",)), ("integer", "i32", ("", "_i32")), ("integer", "i64", ("_i64",)), ("integer", "u32", ("_u32",)), ("integer", "u64", ("_u64",)))
VAL = {"f64": "2.5", "f32": "2.5", "i32": "700", "i64": "700", "u32": "700", "u64": "700"}


def judge_type(c, key, got, m, t, brand="()"):
    q = qty(got)
    ok = q is not None and (tuple(q.scale), tuple(q.dim), q.t, q.brand) == (m.scale, m.dim, t, brand)
    c.ob(ok, key + ":type", "type %s, expected scale %s dimension %s of %s" % (got[-220:], m.scale, m.dim, t))


def through_float(v, t):
    """The term under an integer witness's final float-to-integer cast."""
    v = strip(v)
    if t in INTS and v.get("k") == "cast" and v["from"] in ("f64", "f32") and v["t"] == t:
        return v["a"]
    return v


def forward(c, key, rec, m, t, arg="v"):
    """The stored number is arg * cf + af (through f64 and a final cast for integers)."""
    p, why = single_return(rec)
    if p is None:
        return c.fail(key, why)
    v = raw(p["ret"])
    if m.cf == 1.0 and m.af == 0.0:
        try:
            a = affine(strip(v), casts := [])
        except NotAffine as e:
            return c.fail(key, "stored number is %s (%s)" % (pretty(v), e))
        c.ob(a == {arg: Fraction(1)} and all(x == y for x, y in casts), key, "stored number is %s" % pretty(v))
        return
    try:
        a = affine(through_float(v, t))
    except NotAffine as e:
        return c.fail(key, "stored number is %s (%s)" % (pretty(v), e))
    rel = 1e-6 if t == "f32" else 1e-12
    ok = set(a) <= {arg, None} and close(a.get(arg, 0), Fraction(m.cf), rel) and close(a.get(None, Fraction(0)), Fraction(m.af), rel)
    c.ob(ok, key, "stored number is %s, expected v * %r + %r" % (pretty(v), m.cf, m.af))


def literal(c, key, rec, m, t):
    p, why = single_return(rec)
    if p is None:
        return c.fail(key, why)
    got = const_val(strip(raw(p["ret"])))
    if got is None:
        return c.fail(key, "stored number is %s, not a constant" % pretty(raw(p["ret"])))
    want = Fraction(VAL[t]) * Fraction(m.cf) + Fraction(m.af)
    if t in INTS:
        want = int(want) if abs(want - round(want)) > Fraction(1, 10 ** 9) else want
        c.ob(abs(got - want) <= (1 if m.cf != 1.0 and Fraction(want).denominator != 1 else 0), key, "stored number is %s, expected %s" % (got, want))
    else:
        c.ob(close(got, want, 1e-6 if t == "f32" else 1e-12), key, "stored number is %r, expected %r" % (float(got), float(want)))


def chunks(xs, n):
    return [xs[i::n] for i in range(n)]


def main():
    c = Check("W10", "other", "type-level witnesses and MIR value flow over the whole catalogue")
    c.rules.append("for every symbol, alternative symbol and name of every catalogue unit, alone and with every prefix it takes: quantity!, unit!, the declarator methods, the type aliases and the literal macros "
                   "yield the type (dimension, scale, storage) of that unit and a stored number of exactly value * conversion factor + zero offset")
    units = catalogue()
    jobs = []
    for cge in (False, True):
        sp = [(s, m) for s, m in units.spellings.items() if ident_ok(s)]
        jobs.append(("q", cge, sp))
        jobs.append(("d", cge, units.declared))
        lits = [(s, units.spellings[s]) for s in lit_symbols(units) if s in units.spellings]
        if cge and not THOROUGH:
            lits = [x for x in lits if x[1].p is None]
        for ch in chunks(lits, 2):
            jobs.append(("l", cge, ch))

    def go(job):
        kind, cge, items = job
        src = [PRELUDE, "use whippyunits::{quantity, unit};\nuse whippyunits::default_declarators::*;\npub struct Br;\n"]
        plan = []  # (fn, how, key, meaning, storage, brand)
        cfg = "cge" if cge else "std"

        def w(how, key, m, t, sig, body, brand="()"):
            n = "w_%d" % len(plan)
            plan.append((n, how, "%s:%s" % (cfg, key), m, t, brand))
            src.append("pub fn %s(%s) -> impl Sized { %s }\n" % (n, sig, body))

        if kind == "q":
            for s, m in items:
                conv = m.cf != 1.0 or m.af != 0.0
                w("fwd", "quantity!(_, %s)" % s, m, "f64", "v: f64", "quantity!(v, %s)" % s)
                if conv or m.p is None:
                    for t in ("f32", "i32", "i64", "u8"):
                        w("fwd", "quantity!(_, %s, %s)" % (s, t), m, t, "v: %s" % t, "quantity!(v, %s, %s)" % (s, t))
                    w("fwd", "quantity!(_, %s, f64, Brand)" % s, m, "f64", "v: f64", "quantity!(v, %s, f64, Br)" % s, "Br")
                if m.cf == 1.0:
                    plan.append(("Ty_%d" % len(plan), "ty", "%s:unit!(%s)" % (cfg, s), m, "f64", "()"))
                    src.append("pub type %s = unit!(%s);\n" % (plan[-1][0], s))
                    if m.p is None:
                        plan.append(("Ty_%d" % len(plan), "ty", "%s:unit!(%s, i16, Brand)" % (cfg, s), m, "i16", "Br"))
                        src.append("pub type %s = unit!(%s, i16, Br);\n" % (plan[-1][0], s))
        elif kind == "d":
            for name, plural, m in items:
                aff, conv = m.af != 0.0, m.cf != 1.0
                for t in ("f64", "i32") + (("i64",) if conv else ()):
                    out = "f64" if aff and not conv else t
                    w("aff" if out != t else "fwd", "%s.%s()" % (t, plural), m, out, "v: %s" % t, "v.%s()" % plural)
                if not conv:
                    alias = name[0].upper() + name[1:]
                    plan.append(("Ty_%d" % len(plan), "ty", "%s:%s" % (cfg, alias), m, "f64", "()"))
                    src.append("pub type %s = %s;\n" % (plan[-1][0], alias))
                    if not aff:
                        plan.append(("Ty_%d" % len(plan), "ty", "%s:%s<u16>" % (cfg, alias), m, "u16", "()"))
                        src.append("pub type %s = %s<u16>;\n" % (plan[-1][0], alias))
        else:
            for s, m in items:
                for mod, t, sufs in LIT:
                    for suf in sufs:
                        if not THOROUGH and m.p is not None and suf not in ("", "_f32"):
                            continue
                        w("lit", "%s%s%s" % (VAL[t], s, suf), m, t, "", "whippyunits::default_declarators::literals::%s::%s%s!(%s)" % (mod, s, suf, VAL[t]))
        from .core import analyse
        a = analyse("wit_w10_%s" % kind, "".join(src), cge=cge)
        return job, plan, a

    n = 0
    for (kind, cge, _items), plan, a in pmap(go, jobs):
        if not c.compile_errors(a, "%s-%s" % (kind, "cge" if cge else "std")):
            continue
        for fn, how, key, m, t, brand in plan:
            n += 1
            if how == "ty":
                judge_type(c, key, a.types[fn], m, t, brand)
                continue
            rec = a.flows[fn]
            judge_type(c, key, rec["output"], m, t, brand)
            if how == "lit":
                literal(c, key, rec, m, t)
            else:
                forward(c, key, rec, m, t)
        if plan:
            c.sample({"construct": plan[0][2], "type": (a.flows.get(plan[0][0]) or {}).get("output", "")[-160:]})
    for s, u1, u2 in units.clashes:
        c.fail("clash:" + s, "spelling %s names both %s and %s" % (s, u1, u2))
    c.cov["spellings"] = len(units.spellings)
    c.floor("entry points judged", n, 9000)
    c.assumptions.append("a spelling is an exact symbol or name, or prefix + symbol/name of the first metric unit of a dimension; spellings that are clashes would be reported")
    c.finish()
