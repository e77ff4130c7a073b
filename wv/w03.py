"""W03: every operator's stored number is exactly the corresponding operation on the stored numbers."""
from . import core, terms as T

SC, DM = (3, -1, 2, 1), (1, 2, -3, 0, 0, 0, 0, 1)
BINS = {  # name -> (args, expr, op, left, right)
    "add": ("a + b", "Add", "a", "b"), "sub": ("a - b", "Sub", "a", "b"), "rem": ("a % b", "Rem", "a", "b"),
    "mul": ("a * b", "Mul", "a", "b"), "div": ("a / b", "Div", "a", "b"),
    "muls": ("a * s", "Mul", "a", "s"), "smul": ("s * a", "Mul", "s", "a"), "divs": ("a / s", "Div", "a", "s"), "sdiv": ("s / a", "Div", "s", "a"),
    "rems": ("a % s", "Rem", "a", "s"),
}
ASSIGN = {"adda": ("+=", "Add", "b"), "suba": ("-=", "Sub", "b"), "rema": ("%=", "Rem", "b"), "mula": ("*=", "Mul", "s"), "diva": ("/=", "Div", "s"), "remsa": ("%=", "Rem", "s")}
CMPS = {
    "eq": ("a == b", lambda o: o == "eq"), "ne": ("a != b", lambda o: o != "eq"), "lt": ("a < b", lambda o: o == "lt"),
    "le": ("a <= b", lambda o: o in ("lt", "eq")), "gt": ("a > b", lambda o: o == "gt"), "ge": ("a >= b", lambda o: o in ("gt", "eq")),
    "pcmp": ("a.partial_cmp(&b)", lambda o: {"lt": ("Some", -1), "eq": ("Some", 0), "gt": ("Some", 1), "un": "None"}[o]),
}
COMM = ("Add", "Mul")
BRANDS = ("()", "B")


def build(cge):
    src = [T.PRELUDE, "#[derive(Clone, Copy, PartialEq)] pub struct B;"]
    for t in T.STORAGE:
        for br in BRANDS:
            q = T.ty_src(SC, DM, t, br)
            s = "%s_%s" % (t, "B" if br == "B" else "u")
            sig = "a: %s, b: %s, s: %s" % (q, q, t)
            for n, (e, *_r) in BINS.items():
                src.append("pub fn w_%s_%s(%s) -> impl Sized { %s }" % (n, s, sig, e))
            for n, (o, _op, r) in ASSIGN.items():
                src.append("pub fn w_%s_%s(mut %s) -> %s { a %s %s; a }" % (n, s, sig, q, o, r))
            for n, (e, _f) in CMPS.items():
                if n in ("eq", "ne") and br == "()" or n not in ("eq", "ne"):
                    src.append("pub fn w_%s_%s(%s) -> impl Sized { %s }" % (n, s, sig, e))
            if t in T.FLOATS + T.SIGNED:
                src.append("pub fn w_neg_%s(%s) -> %s { -a }" % (s, sig, q))
            src.append("pub fn w_clone_%s(%s) -> %s { a.clone() }" % (s, sig, q))
            src.append("pub fn w_new_%s(s: %s) -> %s { %s::new(s) }" % (s, t, q, q.replace("Quantity<", "Quantity::<", 1)))
            src.append("pub fn w_copy_%s(%s) -> %s { let x = a; let _y = a; x }" % (s, sig, q))
    return "\n".join(src) + "\n"


def one(cge):
    return cge, core.analyse("wit_w03", build(cge), cge=cge)


def operand(v):
    n = T.leaf_name(T.strip(v))
    return n.split(".")[0].lstrip("*") if n else None


OVF_OK = {"Add": ("overflow:Add",), "Sub": ("overflow:Sub",), "Mul": ("overflow:Mul",), "Div": ("div0", "overflow:Div"), "Rem": ("rem0", "overflow:Rem"), "Neg": ("overflow:Neg",)}


def main():
    c = core.Check("W03", "other", "interprocedural MIR value flow of every operator")
    c.rules.append("value flow through the inlined MIR of each operator: on every path the stored number of the result is the one primitive operation (same operation, operand order "
                   "preserved where it matters) on the stored numbers of the operands, with no other check than that primitive's own; comparisons are decided over the four outcomes "
                   "less/equal/greater/unordered of comparing the stored numbers")
    for cge, a in core.both_configs(one):
        cfg = "cge" if cge else "stable"
        if not c.compile_errors(a, cfg):
            continue
        nf = 0
        for t in T.STORAGE:
            for br in BRANDS:
                s = "%s_%s" % (t, "B" if br == "B" else "u")
                rows = {n: (op, (l, r)) for n, (_e, op, l, r) in BINS.items()}
                rows.update({n: (op, ("a", r)) for n, (_o, op, r) in ASSIGN.items()})
                if t in T.FLOATS + T.SIGNED:
                    rows["neg"] = ("Neg", ("a",))
                for n, (op, ops) in rows.items():
                    nf += 1
                    rec = a.flows["w_%s_%s" % (n, s)]
                    key = "%s:%s:%s:%s" % (cfg, n, t, br)
                    vals, why = T.value_returns(rec)
                    if vals is None:
                        c.fail(key, why)
                        continue
                    good = True
                    for v in vals:
                        v = T.strip(T.raw(v))
                        if op == "Neg":
                            got = (operand(v["a"]),) if v.get("k") == "un" and v["op"] == "Neg" else None
                        else:
                            got = (operand(v["a"]), operand(v["b"])) if v.get("k") == "bin" and v["op"] == op else None
                        ok = got == ops or (got is not None and op in COMM and tuple(reversed(got)) == ops)
                        if op == "Neg" and v.get("k") == "bin" and v["op"] == "Sub" and t in T.SIGNED and T.const_val(v["a"]) == 0 and operand(v["b"]) == "a":
                            ok = True
                        good &= ok
                        if not ok:
                            c.fail(key, "stored number is %s, expected %s of %s" % (T.pretty(v), op, ops))
                    if good:
                        c.ob(True, key)
                    extra = [k for p in rec["paths"] for k, _v in p["asserts"] if k not in OVF_OK[op] and not (op == "Neg" and k == "overflow:Sub")]
                    c.ob(not extra, key + ":checks", "additional runtime checks %s" % extra)
                outcomes = ("lt", "eq", "gt") + (("un",) if t in T.FLOATS else ())
                for n, (_e, f) in CMPS.items():
                    fn = "w_%s_%s" % (n, s)
                    if fn not in a.flows:
                        continue
                    nf += 1
                    for o in outcomes:
                        key = "%s:%s:%s:%s:%s" % (cfg, n, t, br, o)
                        try:
                            got = T.decide(a.flows[fn], o)
                        except T.Undecided as e:
                            c.fail(key, "undecided: %s" % e)
                            continue
                        c.ob(got == f(o), key, "returns %s when the stored numbers compare %s, expected %s" % (got, o, f(o)))
                for n, src in (("clone", "a"), ("new", "s"), ("copy", "a")):
                    nf += 1
                    vals, why = T.value_returns(a.flows["w_%s_%s" % (n, s)])
                    key = "%s:%s:%s:%s" % (cfg, n, t, br)
                    if vals is None:
                        c.fail(key, why)
                        continue
                    for v in vals:
                        w = operand(T.raw(v)) if v.get("k") == "agg" else operand(v)
                        c.ob(w == src, key, "stored number is %s, expected that of %s" % (T.pretty(v), src))
        c.floor("%s operator bodies" % cfg, nf, 716)
        c.cov["functions inlined (%s)" % cfg] = len(a.summary["inlined"])
        c.sample({"config": cfg, "w_sub_f32_u": T.pretty(a.flows["w_sub_f32_u"]["paths"][0]["ret"])})
    c.finish()
