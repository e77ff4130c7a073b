"""W04: floating-point rescaling multiplies by exactly the ratio of the two scales."""
from . import core, inv, terms as T

DIM = (1, -2, 3, 0, 1, 0, -1, 2)
R = 100  # quick sweep; thorough goes to 200
RPI = 8
COMBOS = [
    ((3, -1, 4, 1), (-5, 9, -2, -6)), ((31, 17, -23, 2), (-29, -19, 11, -3)), ((0, 0, 0, 0), (7, 3, -5, 1)), ((7, 3, -5, 1), (0, 0, 0, 0)),
    ((48, 0, 48, 0), (-48, 0, -48, 0)), ((-90, 2, -90, 0), (30, 1, 30, 2)), ((60, 0, 60, 0), (-60, 0, -60, 0)), ((5, 5, 5, 5), (5, 5, 5, 5)), ((1, 2, 3, 4), (4, 3, 2, 1)),
    ((-3, 0, 0, 1), (0, 0, 0, 0)), ((-4, -2, -1, 1), (0, 0, 0, 0)),
]
UNITS = [("m", "mm", 1000), ("mm", "km", "1/1000000"), ("hour", "s", 3600), ("s", "day", "1/86400"), ("kg", "g", 1000), ("J", "kJ", "1/1000"), ("N", "mN", 1000), ("m / s", "km / hour", "36/10")]


def rows(tier):
    out = []
    r = 200 if tier == "thorough" else R
    for i, lim in ((0, r), (1, r), (2, r), (3, 20 if tier == "thorough" else RPI)):
        for d in range(-lim, lim + 1):
            f = [0, 0, 0, 0]
            t = [0, 0, 0, 0]
            # split the difference over both sides
            f[i] = d // 2
            t[i] = d // 2 - d
            out.append((tuple(f), tuple(t)))
    # beyond the lookup range: silent wrong answers are the failure mode
    for i, ds in ((0, (101, -101, 150, -180, 199, -200)), (1, (101, -101, 150, -180)), (2, (101, -120, 130)), (3, (9, -9, 12, -16))):
        for d in ds:
            f = [0, 0, 0, 0]
            f[i] = d
            out.append((tuple(f), (0, 0, 0, 0)))
    return list(dict.fromkeys(out + COMBOS))


def name(f, t):
    return ("_".join(map(str, f)) + "__" + "_".join(map(str, t))).replace("-", "m")


def build(rs, cge, all_fns):
    src = [T.PRELUDE, "use whippyunits::api::{rescale, rescale_f32, rescale_f64};", "pub struct B;"]
    exp = {}
    for f, t in rs:
        diff = tuple(x - y for x, y in zip(f, t))
        many = (f, t) in COMBOS
        for fn, ty in (("rescale_f64", "f64"), ("rescale", "f64"), ("rescale_f32", "f32")):
            if not many and not all_fns and fn == "rescale":
                continue
            if ty == "f32" and not T.f32_ok(T.scale_factor(diff)):
                continue  # the ratio itself is not a normal f32
            for br in ("()", "B") if many else ("()",):
                w = "w_%s_%s_%s" % (fn, name(f, t), "B" if br == "B" else "u")
                src.append("pub fn %s(a: %s) -> %s { %s(a) }" % (w, T.ty_src(f, DIM, ty, br), T.ty_src(t, DIM, ty, br), fn))
                exp[w] = (fn, f, t, T.scale_factor(diff), ty, diff)
    for x, y, k in UNITS:
        for sfx, ty in (("", "f64"), (", f64", "f64"), (", f32", "f32")):
            w = "w_macro_%s_%s_%s" % (len(exp), ty, "e" if sfx else "d")
            src.append("pub fn %s(a: unit!(%s, %s)) -> unit!(%s, %s) { rescale!(a, %s%s) }" % (w, x, ty, y, ty, y, sfx))
            exp[w] = ("rescale!" + sfx, x, y, T.Fraction(k), ty, None)
    return "\n".join(src) + "\n", exp


def sig_rule(c, cfg, a):
    n = 0
    for s in a.by_kind("sig"):
        ins = [x for x in s["in"] if inv.mentions_q(x)]
        if not inv.is_q(s["out"]) or len(ins) != 1:
            continue
        qi, qo = T.qty(inv.peel(ins[0])), T.qty(s["out"])
        n += 1
        ok = qi and qi.dim == qo.dim and qi.t == qo.t and qi.brand == qo.brand
        c.ob(ok, "%s:signature:%s" % (cfg, s["path"].split("<")[0]), "%s -> %s: dimension, storage or brand is not carried over" % (T.short(ins[0]), T.short(s["out"])))
    c.floor("%s conversion signatures" % cfg, n, 15)


def one(args):
    cge, tier = args
    src, exp = build(rows(tier) if not cge else list(dict.fromkeys(COMBOS + rows("quick")[::7])), cge, tier == "thorough")
    return cge, exp, core.analyse("wit_w04", src, cge=cge, env_extra={"WFLOW_INVENTORY": "1"})


def check_factor(c, key, rec, factor, ty):
    vals, why = T.value_returns(rec)
    if vals is None:
        c.fail(key, why)
        return
    for v in vals:
        try:
            aff = T.affine(T.strip(T.raw(v)))
        except T.NotAffine as e:
            c.fail(key, "stored number %s is not linear in the input (%s)" % (T.pretty(T.raw(v)), e))
            return
        aff = {k: x for k, x in aff.items() if x != 0}
        rel = 1e-12 if ty == "f64" else 1e-6
        ok = set(aff) == {"a"} and T.close(aff["a"], factor, rel)
        c.ob(ok, key, "stored number is %s; expected input times %.17g" % (T.pretty(T.raw(v)), float(factor)))


def main():
    import os
    tier = os.environ.get("VERIF_TIER", "quick")
    c = core.Check("W04", "other", "MIR constant propagation and value flow through rescale")
    c.rules.append("for every exponent difference in range (per base) and mixed combinations: constant propagation reduces the body of rescale to `input * c` with c equal to "
                   "2^a 3^b 5^c pi^d of (from - to) within 1e-12 (f64) / 1e-6 (f32); every public conversion function's signature carries dimension, storage and brand over parametrically")
    for cge, exp, a in core.pmap(one, [(False, tier), (True, tier)]):
        cfg = "cge" if cge else "stable"
        if not c.compile_errors(a, cfg):
            continue
        for w, (fn, f, t, factor, ty, diff) in exp.items():
            show = lambda z: z if isinstance(z, str) else ",".join(map(str, z))
            check_factor(c, "%s:%s:%s:%s" % (cfg, fn, show(f), show(t)), a.flows[w], factor, ty)
        c.floor("%s rescale bodies" % cfg, len(exp), 1184 if not cge else 200)
        sig_rule(c, cfg, a)
        k = next(iter(exp))
        c.sample({"config": cfg, "fn": k, "value": T.pretty(T.raw(a.flows[k]["paths"][0]["ret"]))})
    c.finish()
