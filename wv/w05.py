"""W05: integer rescaling is exact rational scaling truncated toward zero, for every stored number."""
import os
from fractions import Fraction

from . import core, inv, iv, terms as T

DIM = (1, -2, 3, 0, 1, 0, -1, 2)
COMBOS = [
    ((3, 0, 3, 0), (0, 0, 0, 0)), ((0, 0, 0, 0), (3, 0, 3, 0)), ((0, 0, 0, 1), (0, 0, 0, 0)), ((0, 0, 0, 0), (0, 0, 0, 1)), ((-3, 0, 0, 1), (0, 0, 0, 0)),
    ((-2, -2, -1, 1), (1, 0, 0, 1)), ((4, 2, 2, 0), (0, 0, 0, 0)), ((0, 0, 0, 0), (4, 2, 2, 0)), ((7, 3, 2, 0), (6, 0, 6, 0)), ((8, 0, 0, 0), (0, 0, 0, 0)), ((0, 0, 0, 0), (8, 0, 0, 0)),
    ((7, 0, 0, 0), (0, 0, 0, 0)), ((16, 0, 0, 0), (0, 0, 0, 0)), ((0, 0, 0, 0), (32, 0, 0, 0)), ((64, 0, 0, 0), (0, 0, 0, 0)), ((5, 5, 5, 5), (5, 5, 5, 5)), ((9, -9, 9, -3), (0, 0, 0, 0)),
    ((-3, 7, 2, 1), (4, -3, 5, -1)), ((12, 0, 12, 0), (-12, 0, -12, 0)), ((-9, 0, -9, 0), (9, 0, 9, 0)), ((0, 1, 0, 0), (0, 0, 0, 0)), ((0, 0, 0, 0), (0, 1, 0, 0)), ((0, 0, 1, 0), (0, 0, 0, 0)), ((0, 0, 0, 0), (0, 0, 1, 0)),
    ((1, 0, 0, 0), (0, 0, 0, 0)), ((0, 0, 0, 0), (1, 0, 0, 0)), ((2, -3, 0, 0), (0, 0, 0, 0)), ((-4, -3, -2, 1), (0, 0, 0, 0)),
]
LIMS = (100, 79, 54, 8)
I127 = (1 << 127) - 1


def fits(d):
    """Numerator and denominator products of the unreduced ratio fit the library's 128-bit arithmetic."""
    n = m = 1
    for b, e in ((2, d[0]), (3, d[1]), (5, d[2])):
        if e >= 0:
            n *= b ** e
        else:
            m *= b ** -e
    p = abs(d[3])
    x, y = 355 ** p, 113 ** p
    if d[3] < 0:
        x, y = y, x
    return n * x <= I127 and m * y <= I127


def rows(tier, cge):
    out = [(f, t, ty) for f, t in COMBOS for ty in T.INTS]
    if not cge:
        step = 1
        i = 0
        for b, lim in enumerate(LIMS):
            for d in range(-lim, lim + 1, step):
                f, t = [0] * 4, [0] * 4
                f[b] = d // 2
                t[b] = d // 2 - d
                tys = T.INTS if tier == "thorough" else (T.INTS[i % len(T.INTS)], "i64")
                i += 1
                out += [(tuple(f), tuple(t), ty) for ty in tys]
    return [r for r in dict.fromkeys(out) if fits(tuple(x - y for x, y in zip(r[0], r[1])))]


def nm(f, t):
    return ("_".join(map(str, f)) + "__" + "_".join(map(str, t))).replace("-", "m")


MACRO = [("km", "m"), ("m", "km"), ("s", "hour"), ("hour", "s"), ("ms", "s")]


def build(rs):
    src = [T.PRELUDE, "use whippyunits::api::*;", "pub struct B;"]
    exp = {}
    for f, t, ty in rs:
        for br in ("()", "B") if (f, t) in COMBOS[:4] else ("()",):
            w = "w_%s_%s_%s" % (ty, nm(f, t), "B" if br == "B" else "u")
            src.append("pub fn %s(a: %s) -> %s { rescale_%s(a) }" % (w, T.ty_src(f, DIM, ty, br), T.ty_src(t, DIM, ty, br), ty))
            exp[w] = (ty, Fraction(1) * T.scale_factor(tuple(x - y for x, y in zip(f, t)), T.PI_RAT), "rescale_%s:%s:%s" % (ty, ",".join(map(str, f)), ",".join(map(str, t))))
    for x, y in MACRO:
        for ty in T.INTS:
            w = "w_macro_%s_%s_%s" % (ty, x, y)
            src.append("pub fn %s(a: unit!(%s, %s)) -> unit!(%s, %s) { rescale!(a, %s, %s) }" % (w, x, ty, y, ty, y, ty))
            r = {("km", "m"): 1000, ("m", "km"): Fraction(1, 1000), ("s", "hour"): Fraction(1, 3600), ("hour", "s"): 3600, ("ms", "s"): Fraction(1, 1000)}[(x, y)]
            exp[w] = (ty, Fraction(r), "rescale!:%s:%s:%s" % (ty, x, y))
    return "\n".join(src) + "\n", exp


def resval(a, n, d):
    return iv.tdiv(a * n, d)


def judge(rec, ty, ratio):
    """None if the body computes trunc(a * N / D) for every input, else the reason."""
    n, d = ratio.numerator, ratio.denominator
    lo, hi = iv.rng(ty)

    def out_of_range(s):
        """No input of the region has a representable result."""
        if s.lo <= 0 <= s.hi:
            return False
        m = s.lo if s.lo > 0 else s.hi
        r = resval(m, n, d)
        return r < lo or r > hi

    for p in rec["paths"]:
        if p["end"] in ("unsupported", "budget"):
            return "a path is not analysable: %s" % p.get("detail")
        st = iv.Iv(ty)
        asserts = [(k, T.key(t)) for k, t in p["asserts"]]
        keys = [k for _, k in asserts]
        for t, f in p["facts"]:
            if T.key(t) in keys:
                neg = st.copy()
                want = f.get("eq") != "0"
                neg.fact(t, not want)
                if not neg.empty() and not out_of_range(neg):
                    kind = [k for k, kk in asserts if kk == T.key(t)][0]
                    return "panics (%s) for stored numbers in [%d, %d] although the result is representable" % (kind, neg.lo, neg.hi)
            iv.apply_fact(st, t, f)
            if st.empty():
                break
        if st.empty():
            continue
        if p["end"] == "panic":
            if not out_of_range(st):
                return "panics (%s) for stored numbers in [%d, %d] although results there are representable" % (p.get("detail"), st.lo, st.hi)
            continue
        try:
            v = T.strip(T.raw(p["ret"]))
            s, ops = iv.chain(v, st)
        except iv.Unknown as e:
            return "cannot derive the stored number on inputs [%d, %d]: %s" % (st.lo, st.hi, e)
        if st.lo == st.hi == 0:
            continue
        mul = Fraction(1)
        for k, c in ops:
            mul = mul * c if k == "mul" else mul / c
        if s != 1 or mul != ratio:
            return "for stored numbers in [%d, %d] the factor is %s%s, expected %s" % (st.lo, st.hi, "-" if s < 0 else "", mul, ratio)
        if [k for k, _ in ops] not in ([], ["mul"], ["div"], ["mul", "div"]):
            m = 0 if st.lo <= 0 <= st.hi else min(abs(st.lo), abs(st.hi))
            if m * n <= I127:
                return "divides before multiplying (%s) for stored numbers in [%d, %d] although the product fits" % (T.pretty(v)[:120], st.lo, st.hi)
    return None


def one(args):
    cge, tier = args
    src, exp = build(rows(tier, cge))
    return cge, exp, core.analyse("wit_w05", src, cge=cge)


def main():
    tier = os.environ.get("VERIF_TIER", "quick")
    c = core.Check("W05", "other", "interval analysis with backward refinement over MIR value flow of integer rescaling")
    c.rules.append("for every integer storage type and exponent difference in range: on every path through the rescale function the stored number is trunc(a * N / D) with N/D exactly "
                   "2^a 3^b 5^c (355/113)^d, no intermediate operation or cast wraps on the path's input interval, dividing first only where a * N exceeds 127 bits, and every panicking path or "
                   "overflow assertion covers only inputs whose result does not fit the storage type; the rescale! macro likewise for every storage type")
    c.assumptions.append("scale ratios whose unreduced numerator or denominator exceeds 127 bits are out of scope (const evaluation or a debug assertion stops on them)")
    for cge, exp, a in core.pmap(one, [(False, tier), (True, tier)]):
        cfg = "cge" if cge else "stable"
        if not c.compile_errors(a, cfg):
            continue
        for w, (ty, ratio, key) in exp.items():
            why = judge(a.flows[w], ty, ratio)
            c.ob(why is None, "%s:%s" % (cfg, key), why or "")
        c.floor("%s integer rescale bodies" % cfg, len(exp), 444 if cge else 1371)
        k = "w_i8_3_0_3_0__0_0_0_0_u"
        c.sample({"config": cfg, "fn": k, "paths": [[T.pretty(T.raw(p["ret"])) if p["end"] == "return" else p["end"], [[T.pretty(t), f] for t, f in p["facts"]]] for p in a.flows[k]["paths"]][:4]})
    c.finish()
