"""W11: value! reads back exactly what quantity! stored, in any unit of the same dimension and no other."""
from fractions import Fraction

from .core import Check, analyse, pmap
from .spell import catalogue, ident_ok
from .terms import INTS, NotAffine, affine, base_input, close, pretty, qty, raw, scale_factor, single_return, strip, ty_src, PRELUDE

SHIFTS = ((3, 0, 3, 0), (-2, 1, -1, 0), (-2, -2, -1, 1))


def judge(c, key, rec, m, src_scale, t, brand):
    p, why = single_return(rec)
    if p is None:
        return c.fail(key, why)
    if rec["output"] != t:
        return c.fail(key + ":type", "returns %s, expected %s" % (rec["output"], t))
    calls = []

    def cut(v):
        """Replace a read of rescale_*(q) by the input r."""
        if v.get("k") == "field" and v["a"].get("k") == "call":
            calls.append(v["a"])
            return {"k": "in", "n": "r", "t": v.get("t")}
        return {k: cut(x) if isinstance(x, dict) else x for k, x in v.items()}

    v = cut(strip(p["ret"]))
    ratio = scale_factor(tuple(x - y for x, y in zip(src_scale, m.scale)))
    arg = "q"
    if t in INTS:
        # the integer rescale itself is judged by W05; here: of q, to the unit's own type
        if len(calls) != 1 or "::rescale" not in calls[0]["n"]:
            return c.fail(key, "value is %s, expected one rescale of q" % pretty(p["ret"]))
        got, src = qty(calls[0]["rt"]), raw(calls[0]["args"][0])
        c.ob(got is not None and (tuple(got.scale), tuple(got.dim), got.t, got.brand) == (m.scale, m.dim, t, brand), key + ":target", "rescales to %s" % calls[0]["rt"][-200:])
        c.ob(base_input(src) == "q", key + ":source", "rescales %s" % pretty(src))
        arg, ratio = "r", Fraction(1)
        if v.get("k") == "cast" and v["from"] == "f64":
            v = v["a"]
    try:
        a = affine(v)
    except NotAffine as e:
        return c.fail(key, "value is %s (%s)" % (pretty(p["ret"]), e))
    rel = 1e-6 if t == "f32" else 1e-12
    want = {arg: ratio / Fraction(m.cf), None: -Fraction(m.af) / Fraction(m.cf)}
    ok = set(a) <= {arg, None} and close(a.get(arg, 0), want[arg], rel) and close(a.get(None, Fraction(0)), want[None], rel)
    c.ob(ok, key, "value is %s, expected (q * %.12g - %r) / %r" % (pretty(v), float(ratio), m.af, m.cf))


def main():
    c = Check("W11", "other", "type-level witnesses and MIR value flow over the whole catalogue")
    c.rules.append("for every spelling S of every unit: value!(q, S) of a quantity stored at S's own scale, and at other scales, is (q * scale ratio - zero offset) / conversion factor, the inverse of quantity!; "
                   "for every ordered pair of dimensions, value! of one in a unit of the other is rejected by the compiler; a branded quantity is readable only when its brand is named")
    cat = catalogue()
    sp = [(s, m) for s, m in cat.spellings.items() if ident_ok(s)]

    def go(job):
        kind, cge = job
        cfg = "cge" if cge else "std"
        src = [PRELUDE, "use whippyunits::value;\npub struct Br; pub struct Br2;\nimpl Clone for Br { fn clone(&self) -> Br { Br } } impl Copy for Br {}\n"]
        plan = []
        if kind == "rej":
            # one unit per dimension, both ways
            reps = [(d.name, u) for d in cat.dims for u in d.units[:1] if u.cf == 1.0]
            for dn, u in reps:
                for d2, u2 in reps:
                    if dn == d2:
                        continue
                    n = "w_%d" % len(plan)
                    plan.append((n, "%s:value!(%s, %s)" % (cfg, dn, u2.symbols[0])))
                    src.append("pub fn %s(q: %s) -> f64 { value!(q, %s) }\n" % (n, ty_src(u.scale, u.exps), u2.symbols[0]))
            km = cat.spellings["km"]
            for t, args in (("f64", "m, f64"), ("f64", "m"), ("f64", "m, f64, Br2"), ("f64", "ft"), ("f64", "ft, f64, Br2")):
                n = "w_%d" % len(plan)
                plan.append((n, "%s:value!(branded, %s)" % (cfg, args)))
                src.append("pub fn %s(q: %s) -> %s { value!(q, %s) }\n" % (n, ty_src(km.scale, km.dim, t, "Br"), t, args))
            for t in ("i32", "f32", "u64"):
                n = "w_%d" % len(plan)
                plan.append((n, "%s:value!(%s quantity, m)" % (cfg, t)))
                src.append("pub fn %s(q: %s) -> f64 { value!(q, m) }\n" % (n, ty_src(km.scale, km.dim, t)))
            return job, plan, analyse("wit_w11_rej", "".join(src), cge=cge)

        def w(s, m, scale, t="f64", brand="()"):
            n = "w_%d" % len(plan)
            args = s if (t, brand) == ("f64", "()") else "%s, %s" % (s, t) if brand == "()" else "%s, %s, %s" % (s, t, brand)
            plan.append((n, "%s:value!(%s of scale %s, %s)" % (cfg, t, scale, args), m, scale, t, brand))
            src.append("pub fn %s(q: %s) -> %s { value!(q, %s) }\n" % (n, ty_src(scale, m.dim, t, brand), t, args))

        for s, m in sp:
            if kind == "int":
                if m.p is None:
                    for t in INTS:
                        w(s, m, (3, 0, 3, 0), t, "()" if t != "i32" else "Br")
                continue
            w(s, m, m.scale)
            if m.p is None:
                for d in SHIFTS:
                    w(s, m, tuple(x + y for x, y in zip(m.scale, d)))
                w(s, m, m.scale, "f32")
                w(s, m, (2, 0, 2, 0), "f32", "Br")
                w(s, m, m.scale, "f64", "Br")
        return job, plan, analyse("wit_w11_" + kind, "".join(src), cge=cge, opaque="|".join("rescale_" + t for t in INTS) if kind == "int" else "")

    n = r = 0
    for (kind, cge), plan, a in pmap(go, [(k, g) for k in ("val", "int", "rej") for g in (False, True)]):
        if kind == "rej":
            # errors inside macro expansions are reported at the invocation's line
            hit = set()
            for e in a.errors:
                if e["line"]:
                    hit.add(e["line"])
            for fn, key in plan:
                r += 1
                line = next(i for i, l in enumerate(a.lines, 1) if "fn %s(" % fn in l)
                c.ob(line in hit, "accepted:" + key, "the compiler accepts " + key)
            continue
        if not c.compile_errors(a, "cge" if cge else "std"):
            continue
        for fn, key, m, scale, t, brand in plan:
            n += 1
            judge(c, key, a.flows[fn], m, scale, t, brand)
        c.sample({"construct": plan[0][1], "value": pretty(a.flows[plan[0][0]]["paths"][0]["ret"])})
    c.floor("value! reads", n, 5000)
    c.floor("rejected reads", r, 1200)
    c.assumptions.append("integer reads are judged as truncation of the same real number after the (W05) integer rescale")
    c.finish()
