"""W02: multiplication/division add/subtract every exponent; a number over a quantity negates them."""
from . import core, terms as T

E1 = ((3, -5, 7, -2), (11, -13, 17, -19, 23, -29, 31, -37))
E2 = ((41, 43, -47, 53), (-59, 61, -67, 71, -73, 79, 83, -89))
LIM = 200


def vec(f, a, b):
    return tuple(f(x, y) for x, y in zip(a[0], b[0])), tuple(f(x, y) for x, y in zip(a[1], b[1]))


def neg(a):
    return tuple(-x for x in a[0]), tuple(-x for x in a[1])


def build(cge):
    src = [T.PRELUDE, "pub struct B;"]
    exp = {}
    for t in T.STORAGE:
        for br in ("()", "B"):
            q1, q2 = T.ty_src(E1[0], E1[1], t, br), T.ty_src(E2[0], E2[1], t, br)
            s = "%s_%s" % (t, "B" if br == "B" else "u")
            rows = {
                "mul": ("a: %s, b: %s" % (q1, q2), "a * b", vec(lambda x, y: x + y, E1, E2)),
                "div": ("a: %s, b: %s" % (q1, q2), "a / b", vec(lambda x, y: x - y, E1, E2)),
                "muls": ("a: %s, s: %s" % (q1, t), "a * s", E1),
                "smul": ("a: %s, s: %s" % (q1, t), "s * a", E1),
                "divs": ("a: %s, s: %s" % (q1, t), "a / s", E1),
                "sdiv": ("a: %s, s: %s" % (q1, t), "s / a", neg(E1)),
            }
            for n, (args, e, w) in rows.items():
                f = "w_%s_%s" % (n, s)
                src.append("pub fn %s(%s) -> impl Sized { %s }" % (f, args, e))
                exp[f] = (n, t, br, w)
    ty = {}
    rng = range(-LIM, LIM + 1) if not cge else [-1000, -200, -128, -101, -100, -99, -1, 0, 1, 2, 63, 64, 99, 100, 101, 127, 128, 200, 1000]
    for x in rng:
        n = ("m%d" % -x) if x < 0 else str(x)
        q = "Quantity<Scale<_2<%d>>, Dimension<_M, _L<%d>>, f64>" % (x, x)
        z = "Quantity<Scale, Dimension, f64>"
        m = 1 if x < LIM else -1
        one = "Quantity<Scale<_2<%d>>, Dimension<_M, _L<%d>>, f64>" % (m, m)
        src.append("pub type Ty_add0_%s = <%s as core::ops::Mul<%s>>::Output;" % (n, q, z))
        src.append("pub type Ty_neg_%s = <f64 as core::ops::Div<%s>>::Output;" % (n, q))
        src.append("pub type Ty_step_%s = <%s as core::ops::Mul<%s>>::Output;" % (n, q, one))
        src.append("pub type Ty_self_%s = <%s as core::ops::Div<%s>>::Output;" % (n, q, q))
        ty["Ty_add0_" + n], ty["Ty_neg_" + n], ty["Ty_step_" + n], ty["Ty_self_" + n] = x, -x, x + m, 0
    return "\n".join(src) + "\n", exp, ty


def one(cge):
    src, exp, ty = build(cge)
    return cge, exp, ty, core.analyse("wit_w02", src, cge=cge)


def main():
    c = core.Check("W02", "other", "type-level witnesses: the types the compiler computes for every operator")
    c.rules.append("for 14 storage types x 2 brands x {q*q, q/q, q*n, n*q, q/n, n/q}: the type rustc computes for the result has every one of the 12 exponents equal to the "
                   "sum/difference/unchanged/negated operand exponent, same storage, same brand (operands have pairwise distinct exponents in all 12 positions); "
                   "stable arithmetic tables swept over every exponent -200..200")
    for cge, exp, ty, a in core.both_configs(one):
        cfg = "cge" if cge else "stable"
        if not c.compile_errors(a, cfg):
            continue
        for f, (n, t, br, w) in exp.items():
            q = T.qty(a.flows[f]["output"]) if f in a.flows else None
            b = T.last(q.brand) if q else None
            ok = q is not None and q.scale == w[0] and q.dim == w[1] and q.t == t and b == br
            c.ob(ok, "%s:%s:%s:%s" % (cfg, n, t, br), "result type %s, expected scale %s dimension %s %s %s" % (q, w[0], w[1], t, br))
        for k, x in ty.items():
            q = T.qty(a.types.get(k, ""))
            ok = q is not None and q.scale == (x, 0, 0, 0) and q.dim == (0, x) + (0,) * 6
            c.ob(ok, "%s:table:%s" % (cfg, k), "computed type %s, expected exponent %d" % (a.types.get(k), x))
        c.floor("%s operator result types" % cfg, len(exp), 168)
        c.floor("%s exponent table entries" % cfg, len(ty), 1604 if not cge else 76)
        c.sample({"config": cfg, "fn": "w_div_f64_u", "type": T.short(a.flows["w_div_f64_u"]["output"])})
    c.assumptions.append("in the generic-const-exprs configuration exponents are computed by one const expression per position, so distinct-valued samples stand for all values")
    c.finish()
