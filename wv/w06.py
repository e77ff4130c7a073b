"""W06: only dimensionless and angular quantities turn into numbers, and they are rescaled to unity first."""
from fractions import Fraction

from . import core, inv, terms as T, w05

SCALES = [(0, 0, 0, 0), (3, 0, 3, 0), (-3, 0, -3, 0), (-2, -2, -1, 1), (1, 0, 0, 1), (2, -1, 1, -1), (0, 1, 0, 0), (0, 0, -1, 0)]
CONV = ("From", "Into", "TryFrom", "TryInto", "AsRef", "AsMut", "Borrow", "BorrowMut", "FromStr")
CDIMS = [(1, -2, 3, 0, 1, 0, -1), (0, -1, 0, 0, 0, 0, 0), (0, 0, -1, 0, 0, 0, 0), (1, 2, -2, 0, 0, 0, 0)]


def one(cge):
    a = inv.inventory("wit_w06", cge)
    pairs = []  # (source q string, target string)
    for r in a.by_kind("impl"):
        if inv.trait(r) == "From" and len(r["args"]) == 2:
            src = inv.peel(r["args"][1])
            if T.qty(src):
                pairs.append((src, inv.peel(r["args"][0])))
    src = [T.PRELUDE]
    exp = {}
    for s, t in pairs:
        qs, qt = T.qty(s), T.qty(t)
        if not isinstance(qs.dim[7], int):
            continue
        if qt is None:
            scs = SCALES if qs.dim[7] == 0 else (SCALES[:5] if abs(qs.dim[7]) < 3 else SCALES[3:5])
            for sc in scs:
                w = "w_%d" % len(exp)
                ty = T.ty_src(sc, (0,) * 7 + (qs.dim[7],), qs.t)
                src.append("pub fn %s(a: %s) -> %s { a.into() }" % (w, ty, t))
                exp[w] = ("scalar", qs.t, t, qs.dim[7], sc)
        else:
            for d in CDIMS:
                for sc in SCALES[2:4]:
                    w = "w_%d" % len(exp)
                    src.append("pub fn %s(a: %s) -> %s { a.into() }" % (w, T.ty_src(sc, d + (qs.dim[7],), qs.t), T.ty_src(sc, d + (0,), qs.t)))
                    exp[w] = ("angle", qs.t, qs.t, qs.dim[7], sc)
    f = core.analyse("wit_w06f", "\n".join(src) + "\n", cge=cge)
    return cge, a, exp, f


def shape(c, cfg, r):
    """Which quantities an impl of a conversion trait converts, read off its type parameters."""
    t = inv.trait(r)
    args = [inv.peel(x) for x in r["args"]]
    if not any(inv.mentions_q(x) for x in args):
        return
    key = "%s:%s:%s" % (cfg, t, T.short(args[0])[:40])
    if t != "From" or len(args) != 2:
        if t in CONV:
            c.fail(key, "conversion through %s<%s>" % (t, ", ".join(T.short(x) for x in args)))
        return
    qs, qt = T.qty(args[1]), T.qty(args[0])
    key = "%s:From:%s:A%s->%s" % (cfg, qs.t if qs else args[1], qs.dim[7] if qs else "", qt.t + "-quantity" if qt else args[0])
    if qs is None:
        c.fail(key, "a %s becomes a quantity without a unit" % args[1])
        return
    if qs.brand != "()":
        c.fail(key, "branded quantities convert")
    if qt is None:
        ok = args[0] in T.STORAGE and qs.t in T.STORAGE and qs.dim[:7] == (0,) * 7 and isinstance(qs.dim[7], int)
        c.ob(ok, key, "%s becomes a bare %s" % (T.short(args[1]), args[0]))
    else:
        ok = qt.scale == qs.scale and qt.dim[:7] == qs.dim[:7] and qt.dim[7] == 0 and qt.t == qs.t and qt.brand == qs.brand and isinstance(qs.dim[7], int) and len(set(qs.scale)) == 4
        c.ob(ok, key, "%s converts to %s" % (T.short(args[1]), T.short(args[0])))


def judge_float(rec, src, tgt, factor):
    vals, why = T.value_returns(rec)
    if vals is None:
        return why
    for v in vals:
        v = T.strip(T.raw(v))
        casts = []
        if tgt in T.INTS and v.get("k") == "cast":
            casts.append((v["from"], v["t"]))
            v = v["a"]
        try:
            aff = T.affine(v, casts)
        except T.NotAffine as e:
            return "%s is not linear in the input (%s)" % (T.pretty(v)[:160], e)
        allowed = {(src, "f64"), ("f64", tgt), (src, src), (tgt, tgt), ("f64", "f64")}
        if src != tgt and not set(casts) <= allowed | {(src, tgt)}:
            return "passes through %s" % sorted(set(casts) - allowed)
        if src == tgt and any(a != b and not {a, b} <= {"f64", src} for a, b in casts):
            return "passes through %s" % casts
        aff = {k: x for k, x in aff.items() if x != 0}
        rel = 1e-6 if "f32" == src == tgt else 1e-12
        if set(aff) != {"a"} or not T.close(aff["a"], factor, rel):
            return "gives %s, expected the stored number times %.17g" % (T.pretty(v)[:160], float(factor))
    return None


def main():
    c = core.Check("W06", "other", "trait-impl inventory plus MIR value flow of every erasure impl")
    c.rules.append("every impl of From/Into/TryFrom/AsRef/Borrow that mentions a quantity either erases an unbranded quantity whose only non-zero dimension is a constant power of angle to a "
                   "number type, or removes only the angle exponent and keeps scale, other dimensions and storage; for each such impl and sampled scales the body is the stored number times "
                   "the scale's value (integers: exact truncated rational)")
    for cge, a, exp, f in core.both_configs(one):
        cfg = "cge" if cge else "stable"
        if not c.compile_errors(a, cfg) or not c.compile_errors(f, cfg):
            continue
        n = 0
        for r in a.by_kind("impl"):
            before = c.obligations
            shape(c, cfg, r)
            n += c.obligations - before
        have = set()
        for w, (kind, s, t, e, sc) in exp.items():
            have.add((kind, s, t, e))
            key = "%s:%s:%s->%s:A%d:%s" % (cfg, kind, s, t, e, ",".join(map(str, sc)))
            if kind == "angle":
                p, why = T.single_return(f.flows[w])
                v = T.strip(T.raw(p["ret"])) if p else None
                c.ob(p is not None and T.leaf_name(v) is not None and T.leaf_name(v).split(".")[0] == "a", key, why or T.pretty(v))
            elif s == t and s in T.INTS:
                why = w05.judge(f.flows[w], s, Fraction(1) * T.scale_factor(sc, T.PI_RAT))
                c.ob(why is None, key, why or "")
            else:
                why = judge_float(f.flows[w], s, t, T.scale_factor(sc))
                c.ob(why is None, key, why or "")
        c.floor("%s conversion impls" % cfg, n, 628)
        c.floor("%s erasure bodies" % cfg, len(exp), 3392)
        for s in T.STORAGE:
            for t in T.STORAGE:
                c.ob(("scalar", s, t, 0) in have, "%s:missing:%s->%s" % (cfg, s, t))
        c.sample({"config": cfg, "fn": "w_1", "what": exp["w_1"], "value": [T.pretty(p.get("ret") or {}) for p in f.flows["w_1"]["paths"]][:2]})
    c.finish()
