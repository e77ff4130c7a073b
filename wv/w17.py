"""W17: the number and the unit a quantity is serialized with name the same amount."""
import random

from . import ser
from .core import Check, REPO, analyse, pmap
from .ser import ONE, Facts, norm, ratfun, same
from .spell import catalogue
from .terms import PRELUDE, pretty, qty, ty_src
from .w16 import EXTRA, _has


def cases(cat):
    r = random.Random(17)
    dims = [(0,) * 8]
    for i in range(8):
        for e in (1, -1, 2, -2, 3, -4):
            dims.append(tuple(e if j == i else 0 for j in range(8)))
    dims += [tuple(d.units[0].exps) for d in cat.dims if d.units]
    for _ in range(120):
        dims.append(tuple(r.choice((0, 0, 0, 1, -1, 2, -2, 3, -3, 12, -11)) for _ in range(8)))
    seen, out = set(), []
    scales = [(0, 0, 0, 0), (3, 0, 3, 0), (-2, 1, -1, 0), (-2, -2, -1, 1), (-3, 0, -3, 0), (1, -2, 3, 1)]
    for k, d in enumerate(dims):
        if d not in seen:
            seen.add(d)
            out.append((d, scales[k % len(scales)]))
    for s in scales:
        out.append(((0, 1, 0, 0, 0, 0, 0, 0), s))
        out.append(((0,) * 8, s))
        out.append(((1, 2, -2, 0, 0, 0, 0, 0), s))
    return list(dict.fromkeys(out))


def entries(p, json):
    """The (key, value term) pairs written on this path, in order; None when something else is written."""
    out = []
    for x in p["calls"]:
        n = x["n"]
        if json:
            if n.endswith("::insert") and "serde_json::" in n:
                v = ser.strip(x["args"][2])
                if v.get("k") == "field" and v["n"] == "0":
                    v = ser.strip(v["a"])
                if v.get("k") == "call" and "to_value" in v["n"]:
                    v = v["args"][0]
                out.append((ser.text(x["args"][1]), v))
        elif "SerializeMap" in n or "SerializeStruct" in n:
            if "::serialize_entry" in n or "::serialize_field" in n:
                out.append((ser.text(x["args"][1]), x["args"][2]))
            elif not n.endswith("::end") and "serialize_map" not in n and "serialize_struct" not in n:
                return None
    return out


def main():
    c = Check("W17", "other", "MIR value flow of the serializers; the unit text written is read back by the type checker")
    c.rules.append("every successful path writes exactly one `value` and one `unit`; unit!(<that text>) has the quantity's dimension, and value = stored * (quantity's scale -> that unit's scale)")
    cat = catalogue()
    cs = cases(cat)

    def go(job):
        cge, json = job
        src = [PRELUDE, "use whippyunits::serialization::*;\npub struct Br;\n"]
        plan = []
        for k, (d, s) in enumerate(cs):
            for t, b in (("f64", "()"),) + ((("f32", "()"), ("i32", "()")) if k % 9 == 0 else ()) + ((("f64", "Br"),) if k % 9 == 1 and not json else ()):
                n = "w_%d_%s_%s" % (k, t, b.strip("()"))
                if json:
                    src.append("pub fn %s(q: %s) -> Result<String, serde_json::Error> { serialize_to_json(&q) }\n" % (n, ty_src(s, d, t, b)))
                else:
                    src.append("pub fn %s(q: %s) -> Result<serde_json::Value, serde_json::Error> { serde::Serialize::serialize(&q, serde_json::value::Serializer) }\n" % (n, ty_src(s, d, t, b)))
                plan.append((n, "%s of %s%s %s %s" % ("serialize_to_json" if json else "Serialize", t, "" if b == "()" else " branded", d, s), d, s))
        return job, plan, analyse("wit_w17_%s" % ("json" if json else "ser"), "".join(src), cge=cge, opaque="|".join(ser.OPAQUE), deps_serde=True, extra_deps=EXTRA % REPO)

    got = []
    texts = {}
    n = 0
    for (cge, json), plan, a in pmap(go, [(g, j) for g in (False, True) for j in (False, True)]):
        cfg = "cge" if cge else "std"
        if not c.compile_errors(a, cfg):
            continue
        for fn, what, d, s in plan:
            n += 1
            key = cfg + ":" + what
            rec = a.flows[fn]
            good = 0
            for p in rec["paths"]:
                f = Facts(p)
                if not f.ok:
                    continue
                if p["end"] != "return":
                    # json!: turning a finite number or a text into a Value does not fail
                    if p["end"] == "panic" and any(g[0] == "discr" and _has(g[1], "to_value") and v == 1 for g, v in f.m.items()):
                        continue
                    c.fail(key + ":end", "%s: a path ends in %s %s" % (key, p["end"], str(p.get("detail"))[:160]))
                    continue
                ret = p["ret"]
                if ret.get("k") == "agg" and ret.get("var") == "Err":
                    continue
                es = entries(p, json)
                if es is None or sorted(k or "?" for k, _ in es) != ["unit", "value"]:
                    c.fail(key + ":shape", "writes %s" % ([(k, pretty(v)[:80]) for k, v in es] if es else p["end"]))
                    continue
                good += 1
                m = dict(es)
                t = ser.text(m["unit"])
                if t is None:
                    c.fail(key + ":unit", "the unit text cannot be read: %s" % pretty(m["unit"])[:200])
                    continue
                texts.setdefault(t, None)
                got.append((key, d, s, t, m["value"]))
            c.ob(good > 0, key + ":none", "no path writes anything")
    # what the texts mean, according to the compiler
    order = [t for t in texts if t != "1"]
    src = [PRELUDE] + ["pub type Ty_%d = unit!(%s);\n" % (i, t) for i, t in enumerate(order)]
    a = analyse("wit_w17_texts", "".join(src))
    bad = {}
    for e in a.errors:
        if e["line"]:
            bad[e["line"]] = e["message"]
    meaning = {"1": ((0, 0, 0, 0), (0,) * 8)}
    if bad:
        # find the offending texts, then look at the rest
        for i, t in enumerate(order):
            line = next(k for k, l in enumerate(a.lines, 1) if "Ty_%d =" % i in l)
            if line in bad:
                texts[t] = bad[line]
        rest = [t for t in order if texts[t] is None]
        a = analyse("wit_w17_texts", "".join([PRELUDE] + ["pub type Ty_%d = unit!(%s);\n" % (i, t) for i, t in enumerate(rest)]))
        order = rest
    for i, t in enumerate(order):
        if "Ty_%d" % i in a.types:
            q = qty(a.types["Ty_%d" % i])
            meaning[t] = (tuple(q.scale), tuple(q.dim))
    for key, d, s, t, v in got:
        if t not in meaning:
            c.fail(key + ":unreadable", "writes the unit `%s`, which is no unit: %s" % (t, str(texts.get(t))[:160]))
            continue
        sc, dm = meaning[t]
        c.ob(dm == d, key + ":dimension", "writes the unit `%s` of dimension %s" % (t, dm))

        def sub(z):
            if z[0] in ("field", "cast") and _has(z, ("in", "q")):
                return ("x",)
            return z
        g = ratfun(v, sub)
        r = ser.atom(("ratio",) + tuple(("c", x) for x in s + sc))[0] if s != sc else ONE
        alts = [(ser._mul(ser.atom(("x",))[0], r), ONE)]
        if s == sc:
            alts.append((ser._mul(ser.atom(("x",))[0], ser.atom(("ratio",) + tuple(("c", x) for x in s + sc))[0]), ONE))
        c.ob(any(same(g, x) for x in alts), key + ":amount", "writes %s `%s`, expected %s" % (ser.frac(g)[:200], t, ser.frac(alts[0])))
    c.sample({"unit texts": sorted(meaning)[:40]})
    c.floor("serializers", n, 800)
    c.floor("unit texts", len(meaning), 150)
    c.assumptions.append("the float rescale is judged by W04, unit texts are read by the same UnitExpr parser as unit!; serde_json's output of a number and of a text is taken as given; NaN and infinities, which JSON cannot carry, are outside")
    c.finish()
