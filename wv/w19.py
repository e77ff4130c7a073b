"""W19: fmt(unit) shows the same amount in the unit asked for, or an error."""
from . import ser
from .core import Check, REPO, analyse, pmap
from .ser import ONE, Facts, norm, ratfun, same
from .terms import PRELUDE, pretty, ty_src
from .w16 import EXTRA, _each, _facts, _has, _some_differ, atoms, targets

# plain `{} {}` and `{:.p$} {}`: the literal pieces between the arguments of a compiled format template
PIECES = [None, " ", None]


def template(arr):
    """Compiled format template (bytes) -> [None for an argument | literal text]; None if unreadable."""
    out, i = [], 0
    b = [int(x[1]) for x in arr[1:]]
    while i < len(b):
        n = b[i]
        if n == 0:
            return out if i == len(b) - 1 else None
        if n < 0x80:
            try:
                out.append(bytes(b[i + 1:i + 1 + n]).decode())
            except UnicodeDecodeError:
                return None
            i += 1 + n
        elif n >= 0xc0:
            i += 1 + (4 if n & 1 else 0) + (2 if n & 2 else 0) + (2 if n & 4 else 0) + (2 if n & 8 else 0)
            out.append(None)
        else:
            return None
    return None


def reason(f, dim, dims, one):
    return any(g[0] == "discr" and (g[1][0] == "parse" or g[1][0] == "unknown") and v == 1 for g, v in f.m.items()) \
        or any(v == 0 for _, v in dims) or _some_differ(f, dim) or (one and any(dim))


def judge(c, key, rec, dim, scale):
    shown = 0
    for p in rec["paths"]:
        f = Facts(p)
        if not f.ok:
            continue
        if p["end"] != "return":
            c.fail(key + ":end", "%s: a path ends in %s %s" % (key, p["end"], str(p.get("detail"))[:160]))
            continue
        ret = ser.strip(p["ret"])
        writes = [x for x in p["calls"] if x["n"].endswith("::write_fmt")]
        others = [x["n"] for x in p["calls"] if "Formatter" in x["n"] and x["n"].split("::")[-1] not in ("write_fmt", "precision")]
        if len(writes) != 1 or others:
            c.fail(key + ":shape", "writes %s" % ([pretty(x)[:120] for x in writes] + others))
            continue
        args = ser.strip(writes[0]["args"][1])
        disp = []

        def find(v):
            if isinstance(v, dict):
                if v.get("k") == "call" and "rt::Argument" in v["n"]:
                    disp.append(v)
                    return
                for x in v.values():
                    find(x)
            elif isinstance(v, list):
                for x in v:
                    find(x)
        find(args)
        dims = [(g, v) for g, v in f.m.items() if g[0] == "eq" and any(isinstance(z, tuple) and z[0] == "dims" for z in g[1])]
        one = any(g[0] == "eq" and g[1] == frozenset((("in", "u"), ("text", "1"))) and v == 1 for g, v in f.m.items())
        nums = [d for d in disp if d["n"].endswith("::<f64>") and not d["n"].split("::<")[-2].endswith("from_usize")]
        if not nums:
            c.ob(reason(f, dim, dims, one), key + ":refused", "shows no number for a well-formed unit of the right dimension: %s" % _facts(p))
            continue
        shown += 1
        if len(nums) != 1:
            c.fail(key + ":shape", "shows %d numbers" % len(nums))
            continue
        seen = set()
        for fact in f.m:
            atoms(fact, seen)
        v = ser.strip(nums[0]["args"][0])
        atoms(norm(v), seen)
        units = {a[1] for a in seen if a[0] in ("dims", "scales", "dim", "scale", "cf", "af", "unknown", "eval") and isinstance(a[1], tuple) and a[1][0] == "unit"}
        c.ob(units <= {("unit", ("in", "u"))}, key + ":text", "reads the unit from %s" % (units,))
        want = ("arr",) + tuple(("c", d) for d in dim)
        match = any(x == 1 and want in g[1] for g, x in dims) or _each(f, dim) or (one and not any(dim))
        c.ob(bool(match), key + ":dimension", "shows a number without comparing the unit's dimension: %s" % _facts(p))
        known = one or any(g[0] == "discr" and g[1][0] == "unknown" and x == 0 for g, x in f.m.items())
        c.ob(bool(known), key + ":unknown", "shows a number for a text that may name an unknown unit: %s" % _facts(p))
        u = ("unit", ("in", "u"))
        fixed = {}
        for nm, val in (("cf", 1), ("af", 0)):
            if one or f.get(("eq", frozenset(((nm, u), ("c", val))))) == 1:
                fixed[(nm, u)] = ("c", val)

        def sub(n):
            if n in fixed:
                return fixed[n]
            if one and n[0] == "scale":
                return ("c", 0)
            if n[0] == "ratio":
                return ("ratio",) + tuple(sub(z) for z in n[1:])
            if _has(n, ("in", "q")) and n[0] in ("field", "cast"):
                return ("x",)
            return n
        got = ratfun(v, sub)
        to = [("c", 0)] * 4 if one else [("scale", u, k) for k in range(4)]
        ratio = ser.atom(("ratio",) + tuple(("c", s) for s in scale) + tuple(to))[0]

        def at(nm):
            t = fixed.get((nm, u))
            return ser.atom((nm, u))[0] if t is None else ({(): 1} if t[1] else {})
        exp = ser._add(ser._mul(ser.atom(("x",))[0], ratio), at("af"), -1), at("cf")
        c.ob(same(got, exp), key + ":amount", "shows %s, expected %s" % (ser.frac(got)[:300], ser.frac(exp)))
        strs = [d for d in disp if d is not nums[0] and not d["n"].endswith("::from_usize")]
        unit_last = len(strs) == 1 and ser.strip(strs[0]["args"][0]) == {"k": "in", "n": "u", "t": "&str"} and disp.index(strs[0]) > disp.index(nums[0])
        tpl = None
        for x in args.get("args", []):
            n = norm(x)
            if n[0] == "arr" and len(n) > 2 and all(z[0] == "c" for z in n[1:]):
                tpl = template(n)
        c.ob(unit_last and (tpl is None or tpl == PIECES), key + ":text shown", "writes %s with arguments %s" % (tpl, [pretty(d)[:80] for d in disp]))
    c.ob(shown > 0, key + ":none", "shows no number on any path")


def main():
    c = Check("W19", "other", "MIR value flow of fmt() and its Display, with the unit parser and evaluator as uninterpreted functions")
    c.rules.append("on every feasible path of Display::fmt(q.fmt(u)): a number is written only after u was found to name known units of q's dimension; it is (stored * (q's scale -> u's scale) - zero offset) / conversion factor, "
                   "followed by u itself; any other text gives an error message and no number; no path panics")
    tg = targets()

    def go(cge):
        src = [PRELUDE, "pub struct Br;\nimpl Clone for Br { fn clone(&self) -> Br { Br } } impl Copy for Br {}\n"]
        plan = []
        for k, (d, s) in enumerate(tg):
            for t, b in (("f64", "()"),) + ((("f32", "()"), ("i32", "()")) if k < 5 else ()):
                n = "w_%d_%s_%s" % (k, t, b.strip("()"))
                src.append("pub fn %s(q: &%s, u: &str, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { core::fmt::Display::fmt(&q.fmt(u), f) }\n" % (n, ty_src(s, d, t, b)))
                plan.append((n, "fmt of %s %s %s" % (t, d, s), d, s))
        return "cge" if cge else "std", plan, analyse("wit_w19", "".join(src), cge=cge, opaque="|".join(ser.OPAQUE), deps_serde=True, extra_deps=EXTRA % REPO)

    n = 0
    for cfg, plan, a in pmap(go, [False, True]):
        if not c.compile_errors(a, cfg):
            continue
        for fn, what, d, s in plan:
            n += 1
            judge(c, cfg + ":" + what, a.flows[fn], d, s)
        c.sample({"construct": plan[3][1], "paths": len(a.flows[plan[3][0]]["paths"])})
    c.floor("formatters", n, 60)
    c.assumptions.append("the unit evaluator and conversion factors are judged by W14/W15, the float rescale by W04; core's float and text formatting is taken as given")
    c.finish()
