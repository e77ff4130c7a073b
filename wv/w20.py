"""W20: exponent vectors are added, subtracted, negated and scaled axis by axis, as types and as values."""
import itertools
import os
import random

from .core import Check, analyse, both_configs
from .ser import text
from .terms import last, parse_ty, pretty
from .w18 import Unreadable, flatten

THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
DM = ("_M", "_L", "_T", "_I", "_Θ", "_N", "_J", "_A")
SYM = ("M", "L", "T", "I", "Θ", "N", "J", "A")
LIM = 200


class Unknown(Exception):
    pass



def ev(v, env):
    """Value of an extracted term for given inputs; integers are unbounded (overflow is a panic of its own)."""
    k = v.get("k")
    if k == "in":
        n = v["n"].lstrip("*&")
        if n in env:
            return env[n]
        raise Unknown(n)
    if k == "c":
        try:
            return {"true": 1, "false": 0}[v["v"]] if v["v"] in ("true", "false") else int(v["v"])
        except ValueError:
            raise Unknown(str(v))
    if k in ("ref", "deref"):
        return ev(v["v"] if "v" in v else v["a"], env)
    if k == "field":
        a = ev(v["a"], env)
        if isinstance(a, dict):
            return a[v["n"]]
        raise Unknown(pretty(v))
    if k == "index":
        a = ev(v["a"], env)
        i = ev(v["i"], env) if "i" in v else ev(v["b"], env)
        return a[str(i)]
    if k == "arr":
        return {str(i): ev(x, env) for i, x in enumerate(v["v"])}
    if k == "agg":
        d = {n: ev(x, env) for n, x in v["f"].items()}
        if v.get("var") is not None:
            d["$"] = v["var"]
        return d
    if k == "un":
        a = ev(v["a"], env)
        if v["op"] == "Neg":
            return -a
        return 1 - a
    if k == "ovf":
        return 0
    if k == "cast":
        return ev(v["a"], env)
    if k == "bin":
        a, b = ev(v["a"], env), ev(v["b"], env)
        op = v["op"]
        f = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "Eq": lambda: int(a == b), "Ne": lambda: int(a != b), "Lt": lambda: int(a < b), "Le": lambda: int(a <= b),
             "Gt": lambda: int(a > b), "Ge": lambda: int(a >= b), "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b}.get(op)
        if f is None:
            raise Unknown(op)
        return f()
    if k == "call":
        n = v["n"]
        if (n.endswith("::spec_eq") or n.endswith("::eq")) and len(v["args"]) == 2:
            return int(ev(v["args"][0], env) == ev(v["args"][1], env))
        if (n.endswith("::spec_ne") or n.endswith("::ne")) and len(v["args"]) == 2:
            return int(ev(v["args"][0], env) != ev(v["args"][1], env))
    raise Unknown(pretty(v)[:200])


def holds(fact, env):
    t, w = fact[0], fact[1]
    x = ev(t, env)
    if isinstance(x, dict):
        raise Unknown(str(fact)[:200])
    if "eq" in w:
        return x == int(w["eq"])
    return x not in [int(y) for y in w["notin"]]


def run(flow, env, total=False):
    """The value returned for these inputs."""
    got = []
    for p in flow["paths"]:
        if all(holds(f, env) for f in p["facts"]):
            if p["end"] != "return":
                raise Unknown("%s %s" % (p["end"], p.get("detail")))
            if any(total or not a[0].startswith("overflow") for a in p["asserts"]):
                raise Unknown("can panic: %s" % p["asserts"][0][0])
            got.append(ev(p["ret"], env))
    if len(got) != 1:
        raise Unknown("%d paths apply" % len(got))
    return got[0]


def shown(p):
    """The text written on this path (a path that stops at a failed write has written a beginning of it)."""
    out = ""
    for x in p["calls"]:
        if x["n"].endswith(("::write_fmt", "::write_str", "::pad")) and "Formatter" in x["n"]:
            for y in flatten(x["args"][1]):
                out += str(ev(y[1], {})) if isinstance(y, tuple) else y
    return out


def V(xs):
    return {str(i): x for i, x in enumerate(xs)}


def W(xs):
    return {"0": V(xs)}


def ty(v):
    return "TypeDimensionExponents<%s>" % ", ".join("%s<%d>" % (k, x) for k, x in zip(DM, v))


def vec(s):
    n, a = parse_ty(s)
    if last(n) != "TypeDimensionExponents":
        return None
    d = {last(x[0]): (int(x[1][0][0]) if x[1] else 0) for x in a}
    return tuple(d.get(k, 0) for k in DM)


def num(s):
    n, a = parse_ty(s)
    return int(a[0][0]) if last(n) == "N" and a else None


def main():
    c = Check("W20", "other", "types computed by the trait solver and MIR value flow of the exponent operations")
    c.rules.append("<A op B>::Output of type-level exponents has every axis equal to the sum/difference; N<a> op N<b> is N<a op b> for every a in -200..200; each value-level operation returns, for arbitrary inputs, the "
                   "axis-wise result and can panic only by overflow; a type's value() is its parameters; basis, constants and the text form agree with the axis order M L T I Θ N J A")
    r = random.Random(20)
    pairs = [((1, -2, 3, -4, 5, -6, 7, -8), (11, 13, -17, 19, 23, -29, 31, 37)), ((0,) * 8, (1, 2, 3, 4, 5, 6, 7, 8))]
    pairs += [((0, 1, -1, 0, 0, 0, 0, 0), (1, 0, 0, 0, 0, 0, 0, -1)), ((1, -2, 1, 0, 0, 0, 0, 0), (0, 0, 0, 4, 0, -4, 0, 0))]
    for i in range(8):
        pairs.append((tuple(5 if k == i else 0 for k in range(8)), tuple(2 if k == i else 0 for k in range(8))))
    for _ in range(200 if THOROUGH else 40):
        pairs.append(tuple(tuple(r.randint(-90, 90) for _ in range(8)) for _ in range(2)))
    src = ["#![allow(warnings)]\nuse whippyunits_core::{dimension_exponents::*, scale_exponents::*, num::*, dimension_exponents};\n"]
    types, consts = {}, {}
    for k, (a, b) in enumerate(pairs):
        for op, s in (("Add", 1), ("Sub", -1)):
            n = "Ty_%s_%d" % (op, k)
            src.append("pub type %s = <%s as core::ops::%s<%s>>::Output;\n" % (n, ty(a), op, ty(b)))
            types[n] = ("v", tuple(x + s * y for x, y in zip(a, b)), "%s %s %s" % (a, op, b))
        src.append("pub const C_v%d: DynDimensionExponents = <%s>::new().value_const();\n" % (k, ty(a)))
        src.append("pub fn w_v%d(t: %s) -> DynDimensionExponents { t.value() }\n" % (k, ty(a)))
        src.append("pub fn w_zt%d(t: %s) -> bool { t.is_zero() }\n" % (k, ty(a)))
        src.append("pub fn w_at%d(a: DynDimensionExponents, t: %s) -> DynDimensionExponents { a + t }\n" % (k, ty(b)))
        consts["C_v%d" % k] = a
        if k < 30:
            src.append("pub type Ty_mac_%d = dimension_exponents!([%s]);\n" % (k, ", ".join(map(str, a))))
            types["Ty_mac_%d" % k] = ("v", a, "dimension_exponents!(%s)" % (a,))
    for i, n in enumerate(("Mass", "Length", "Time", "Current", "Temperature", "Amount", "Luminosity", "Angle")):
        e = tuple(int(i == k) for k in range(8))
        src.append("pub type Ty_basis%d = %s;\npub const C_b%d: DynDimensionExponents = DimensionBasis::%s.exponents();\npub const C_n%d: DynDimensionExponents = DynDimensionExponents::%s;\n"
                   "pub const C_all%d: DynDimensionExponents = DimensionBasis::ALL[%d].exponents();\npub fn w_sym%d() -> &'static str { DimensionBasis::ALL[%d].symbol() }\n" % (i, n, i, n, i, n.upper(), i, i, i, i))
        types["Ty_basis%d" % i] = ("v", e, n)
        consts.update({"C_b%d" % i: e, "C_n%d" % i: e, "C_all%d" % i: e})
    src.append("pub type Ty_zero = Zero;\npub const C_zero: DynDimensionExponents = DynDimensionExponents::ZERO;\n")
    types["Ty_zero"] = ("v", (0,) * 8, "Zero")
    consts["C_zero"] = (0,) * 8
    src.append("pub fn w_add(a: DynDimensionExponents, b: DynDimensionExponents) -> DynDimensionExponents { a + b }\n"
               "pub fn w_mul(a: DynDimensionExponents, k: i16) -> DynDimensionExponents { a * k }\n"
               "pub fn w_neg(a: DynDimensionExponents) -> DynDimensionExponents { -a }\n"
               "pub fn w_val(a: DynDimensionExponents) -> DynDimensionExponents { a.value() }\n"
               "pub fn w_zero(a: DynDimensionExponents) -> bool { a.is_zero() }\n"
               "pub fn w_smul(a: ScaleExponents, b: ScaleExponents) -> ScaleExponents { a.mul(b) }\n"
               "pub fn w_sexp(a: ScaleExponents, k: i16) -> ScaleExponents { a.scalar_exp(k) }\n"
               "pub fn w_sneg(a: ScaleExponents) -> ScaleExponents { a.neg() }\n"
               "pub fn w_slog(a: ScaleExponents) -> Option<i16> { a.log10() }\n"
               "pub fn w_sid() -> ScaleExponents { ScaleExponents::IDENTITY }\n")
    mk = {"_2": (1, 0, 0, 0), "_3": (0, 1, 0, 0), "_5": (0, 0, 1, 0), "_Pi": (0, 0, 0, 1), "_6": (1, 1, 0, 0), "_10": (1, 0, 1, 0)}
    for n in mk:
        src.append("pub fn w_mk%s(k: i16) -> ScaleExponents { ScaleExponents::%s(k) }\n" % (n, n))
    # the type-level integers: each operand's table entry, in both operand positions
    for x in range(-LIM, LIM + 1):
        y = 17 if x <= 0 else -23
        t = ("m%d" % -x) if x < 0 else str(x)
        for n, e, w in (("a", "<N<%d> as core::ops::Add<N<%d>>>::Output" % (x, y), x + y), ("s", "<N<%d> as core::ops::Sub<N<%d>>>::Output" % (x, y if abs(x - y) <= LIM else -y), x - (y if abs(x - y) <= LIM else -y)),
                        ("r", "<N<%d> as core::ops::Sub<N<%d>>>::Output" % (-y if abs(-y - x) <= LIM else y, x), (-y if abs(-y - x) <= LIM else y) - x), ("n", "<N<%d> as core::ops::Neg>::Output" % x, -x)):
            k = "Ty_N%s_%s" % (n, t)
            src.append("pub type %s = %s;\n" % (k, e))
            types[k] = ("n", w, e)
        src.append("pub const C_N%s: i16 = <N<%d> as Num>::N;\n" % (t, x))
        consts["C_N" + t] = x
    disp = [(0,) * 8, (1, -2, 3, -4, 5, -6, 7, -8), (0, 1, 0, 0, 0, 0, 0, 0)] + [tuple(e if k == i else 0 for k in range(8)) for i in range(8) for e in (1, -3, 12)] + [p[0] for p in pairs[10:20]]
    for k, d in enumerate(disp):
        src.append("pub fn w_disp%d(f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(&DynDimensionExponents([%s]), f) }\n" % (k, ", ".join(map(str, d))))

    def go(cge):
        return cge, analyse("wit_w20", "".join(src), cge=cge, opaque="<texts>", env_extra={"WFLOW_CALLS": "Formatter"})

    def law(key, f, names, want, grid=None, total=False):
        """f applied to arbitrary inputs equals want: random wide integers decide polynomial identities, the grid the case distinctions."""
        bad = None
        envs = []
        for _ in range(12):
            envs.append({n: (r.randint(-10 ** 9, 10 ** 9) if w == 0 else W([r.randint(-10 ** 9, 10 ** 9) for _ in range(w)])) for n, w in names.items()})
        for e in grid or []:
            envs.append(e)
        try:
            for e in envs:
                g, x = run(f, e, total), want(e)
                if g != x:
                    bad = "for %s it returns %s, expected %s" % ({k: (list(v["0"].values()) if isinstance(v, dict) else v) for k, v in e.items()}, g, x)
                    break
        except (Unknown, KeyError) as e:
            bad = "cannot be shown: %s" % e
        c.ob(bad is None, key, bad)

    for cge, a in both_configs(go):
        cfg = "cge" if cge else "stable"
        if not c.compile_errors(a, cfg):
            continue
        for k, (kind, w, what) in types.items():
            s = a.types.get(k, "")
            g = None
            try:
                g = vec(s) if kind == "v" else num(s)
            except (ValueError, IndexError):
                pass
            c.ob(g == w, "%s:type:%s" % (cfg, k), "%s is %s, expected %s" % (what, s[:300], w))
        for k, w in consts.items():
            v = a.consts.get(k)
            try:
                g = ev(v["v"] if isinstance(v, dict) and "k" not in v else v, {})
            except (Unknown, KeyError, TypeError, AttributeError) as e:
                g = str(e)
            c.ob(g == (W(w) if isinstance(w, tuple) else w), "%s:const:%s" % (cfg, k), "evaluates to %s, expected %s" % (g, w))
        F = a.flows
        arr = lambda e, n: list(e[n]["0"].values())
        grid8 = [{"a": W([1 if k == i else 0 for k in range(8)])} for i in range(8)] + [{"a": W([0] * 8)}, {"a": W([1] * 8)}, {"a": W([-1] + [0] * 7)}]
        grid8 += [{"a": W([x if k == i else y if k == j else 0 for k in range(8)])} for i in range(8) for j in range(8) if i != j for x, y in ((1, -1), (7, -7), (-32768, -32768), (2, 3))]
        grid8 += [{"a": W(x)} for x in ((1, -2, 1, 0, 0, 0, 0, 0), (1, 1, -2, 0, 0, 0, 0, 0), (1, -1, 1, -1, 1, -1, 1, -1), (0, 0, 3, 4, -7, 0, 0, 0))]
        law(cfg + ":DynDimensionExponents + DynDimensionExponents", F["w_add"], {"a": 8, "b": 8}, lambda e: W([x + y for x, y in zip(arr(e, "a"), arr(e, "b"))]))
        law(cfg + ":DynDimensionExponents * i16", F["w_mul"], {"a": 8, "k": 0}, lambda e: W([x * e["k"] for x in arr(e, "a")]))
        law(cfg + ":-DynDimensionExponents", F["w_neg"], {"a": 8}, lambda e: W([-x for x in arr(e, "a")]))
        law(cfg + ":DynDimensionExponents::value", F["w_val"], {"a": 8}, lambda e: e["a"])
        law(cfg + ":is_zero", F["w_zero"], {"a": 8}, lambda e: int(not any(arr(e, "a"))), grid8, total=True)
        law(cfg + ":ScaleExponents::mul", F["w_smul"], {"a": 4, "b": 4}, lambda e: W([x + y for x, y in zip(arr(e, "a"), arr(e, "b"))]))
        law(cfg + ":ScaleExponents::scalar_exp", F["w_sexp"], {"a": 4, "k": 0}, lambda e: W([x * e["k"] for x in arr(e, "a")]))
        law(cfg + ":ScaleExponents::neg", F["w_sneg"], {"a": 4}, lambda e: W([-x for x in arr(e, "a")]))
        grid4 = [{"a": W(x)} for x in itertools.product((-3, -1, 0, 1, 2, 5), repeat=4)]

        def log(e):
            x = arr(e, "a")
            return {"$": "Some", "0": x[0]} if x[0] == x[2] and x[1] == x[3] == 0 else {"$": "None"}
        law(cfg + ":ScaleExponents::log10", F["w_slog"], {"a": 4}, log, grid4, total=True)
        law(cfg + ":ScaleExponents::IDENTITY", F["w_sid"], {}, lambda e: W([0] * 4))
        for n, m in mk.items():
            law(cfg + ":ScaleExponents::" + n, F["w_mk" + n], {"k": 0}, lambda e, m=m: W([x * e["k"] for x in m]))
        for k, (x, y) in enumerate(pairs):
            law("%s:value:%s" % (cfg, x), F["w_v%d" % k], {}, lambda e: W(x))
            law("%s:is_zero:%s" % (cfg, x), F["w_zt%d" % k], {}, lambda e: int(not any(x)), total=True)
            law("%s:+ %s" % (cfg, y), F["w_at%d" % k], {"a": 8}, lambda e: W([p + q for p, q in zip(arr(e, "a"), y)]))
        for i in range(8):
            ps = F["w_sym%d" % i]["paths"]
            t = text(ps[0]["ret"]) if len(ps) == 1 else None
            c.ob(t == SYM[i], "%s:symbol:%d" % (cfg, i), "the symbol of axis %d is %s, expected %s" % (i, t, SYM[i]))
        for k, d in enumerate(disp):
            try:
                ts = sorted((shown(p) for p in F["w_disp%d" % k]["paths"] if p["end"] == "return"), key=len)
                t = ts[-1] if ts and all(ts[-1].startswith(x) for x in ts) else str(ts)
            except (Unreadable, Unknown, KeyError, TypeError, IndexError, AttributeError) as e:
                t = "unreadable: %s" % e
            w = " * ".join("%s^%d" % (s, x) for s, x in zip(SYM, d) if x) or "1"
            c.ob(t == w, "%s:text:%s" % (cfg, d), "shown as %r, expected %r" % (t, w))
        c.floor("%s type-level results" % cfg, len(types), 1600)
        c.sample({"config": cfg, "type": types["Ty_Sub_0"][2], "computed": a.types.get("Ty_Sub_0")})
    c.finish()
