"""W22: a quantity costs what its number costs: same layout, no heap, no std; text and serialization only with their features."""
import itertools
import re

from . import inv, terms as T
from .core import Check, analyse, pmap
from .spell import KEYWORDS, catalogue, ident_ok

L = (0, 1, 0, 0, 0, 0, 0, 0)
Z = (0, 0, 0, 0)
MIL = (-3, 0, -3, 0)
HEAP = re.compile(r"(?<![\w:])(std|alloc|alloc_crate|libc)::")
SIZE = {"f64": 8, "f32": 4, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "i128": 16, "isize": 8, "u8": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16, "usize": 8}
SETS = [[], ["alloc"], ["std"], ["serde"], ["alloc", "serde"], ["std", "serde"]]


def core_ops(cat, cge):
    """A no_std program that uses everything that is not text; (source, plan)."""
    src = ["#![no_std]\n", T.PRELUDE, "use whippyunits::api::*;\nuse whippyunits::default_declarators::*;\nuse whippyunits::dimension_traits::{self, define_generic_dimension};\n"
           "#[derive(Clone, Copy, PartialEq, PartialOrd)] pub struct Br;\npub struct Odd(*const u8);\ndefine_generic_dimension!(Speed, L / T, A / T);\n"
           "define_unit_declarators!(loc, Kilogram, Millimeter, Second, Ampere, Kelvin, Mole, Candela, Radian);\n"]
    plan = []

    def w(key, sig, ret, body):
        n = "w_%d" % len(plan)
        plan.append((n, key))
        src.append("pub fn %s(%s) -> %s { %s }\n" % (n, sig, ret, body))

    for t in T.STORAGE:
        for b in ("()", "Br"):
            q, m = T.ty_src(Z, L, t, b), T.ty_src(MIL, L, t, b)
            for op in "+-*/%":
                w("%s %s %s" % (t, op, b), "a: %s, b: %s" % (q, q), "impl Sized", "a %s b" % op)
                w("%s %s number %s" % (t, op, b), "a: %s, b: %s" % (q, t), "()", "let mut a = a; a %s= b" % op if op in "*/%" else "let _ = (a, b);")
            for op in ("+=", "-="):
                w("%s %s %s" % (t, op, b), "mut a: %s, b: %s" % (q, q), "()", "a %s b;" % op)
            for op in ("==", "<", ">="):
                w("%s %s %s" % (t, op, b), "a: %s, b: %s" % (q, q), "bool", "a %s b" % op)
            if t[0] in "if":
                w("-%s %s" % (t, b), "a: %s" % q, "impl Sized", "-a")
            w("copy %s %s" % (t, b), "a: &%s" % q, q, "*a")
            r = "rescale" if t == "f64" else "rescale_" + t
            w("%s up %s" % (r, b), "a: %s" % q, m, "%s(a)" % r)
            w("%s down %s" % (r, b), "a: %s" % m, q, "%s(a)" % r)
        w("value! %s" % t, "a: %s" % T.ty_src(Z, L, t), t, "value!(a, mm, %s)" % t if t != "f64" else "value!(a, mm)")
        w("quantity! %s" % t, "v: %s" % t, "impl Sized", "quantity!(v, kg * m / s^2, %s)" % t)
        w("number from dimensionless %s" % t, "a: %s" % T.ty_src(Z, (0,) * 8, t), t, "a.into()")
    w("degrees into radians", "a: unit!(deg)", "f64", "a.into()")
    w("local quantity!", "v: f64", "impl Sized", "loc_quantity!(v, m)")
    src.append("pub fn by_trait(v: impl Speed) -> impl Speed { v }\npub fn by_atom(v: impl dimension_traits::Mass) -> impl dimension_traits::Mass { v }\n")
    w("dimension trait", "v: unit!(m / s)", "impl Sized", "by_trait(v)")
    w("atomic trait", "v: unit!(kg)", "impl Sized", "by_atom(v)")
    for s, m in cat.exact.items():
        if ident_ok(s) and s not in KEYWORDS:
            w("quantity!(v, %s)" % s, "v: f64", "impl Sized", "quantity!(v, %s)" % s)
    seen = set()
    for name, plural, m in cat.declared:
        if m.p is None and ident_ok(plural) and plural not in seen:
            seen.add(plural)
            w("v.%s()" % plural, "v: f64", "impl Sized", "v.%s()" % plural)
    for t in T.STORAGE:
        for b in ("()", "Br", "Odd"):
            q = T.ty_src(MIL, (3, -2, 1, 0, 0, 0, 1, -5), t, b)
            k = "%s_%s" % (t, b.strip("()"))
            src.append("pub const C_s%s: usize = core::mem::size_of::<%s>();\npub const C_a%s: usize = core::mem::align_of::<%s>();\npub const C_b%s: usize = core::mem::align_of::<%s>();\npub const C_d%s: bool = core::mem::needs_drop::<%s>();\n" % (k, q, k, q, k, t, k, q))
    src.append("pub fn shared<T: Send + Sync + Unpin>() {}\npub fn copy<T: Copy>() {}\npub fn use_bounds() { shared::<%s>(); copy::<%s>(); copy::<%s>(); }\n" % (T.ty_src(Z, L, "f64", "Odd"), T.ty_src(Z, L, "u8"), T.ty_src(Z, L, "i64", "Br")))
    # the detector's own control: a function of the library that does allocate
    src.append("pub fn w_control(s: &str) -> impl Sized { whippyunits_core::make_plural(s) }\n")
    return "".join(src), plan


def names(x, out):
    if isinstance(x, dict):
        if x.get("k") == "call":
            out.add(x["n"])
        for v in x.values():
            names(v, out)
    elif isinstance(x, list):
        for v in x:
            names(v, out)
    return out


def effects(f):
    out = set()
    for p in f["paths"]:
        for c in p.get("calls") or []:
            out.add(c["n"])
        names([p.get("ret"), p.get("outs"), p.get("facts"), p.get("detail")], out)
    return {n for n in out if HEAP.search(n)}


def main():
    c = Check("W22", "other", "effect analysis of the reachable MIR under no_std, layout constants, impl inventory per feature set")
    c.rules.append("the quantity struct has one stored field, the number, beside its PhantomData; size, alignment and drop glue are the number's for all storage types and brands")
    c.rules.append("with default features off, a no_std program using every core operation type-checks, and no function reachable from it through the library belongs to std or alloc; std and alloc are not linked")
    c.rules.append("for every feature set the library type-checks; Display and Debug exist exactly with alloc, Serialize, Deserialize and fmt exactly with serde")
    cat = catalogue()

    def go(job):
        feats, cge = job
        if not feats:
            src, plan = core_ops(cat, cge)
        else:
            src, plan = T.PRELUDE + "pub fn w_a(a: unit!(m)) -> impl Sized { a + a }\n", []
        return job, plan, analyse("wit_w22_%s" % "_".join(feats or ["none"]), src, cge=cge, features=feats, default_features=False, env_extra={"WFLOW_INVENTORY": "1"})

    for (feats, cge), plan, a in pmap(go, [(f, g) for f in SETS for g in (False, True)]):
        cfg = "%s+%s" % ("cge" if cge else "stable", "+".join(feats) or "none")
        if not c.compile_errors(a, cfg):
            continue
        tr = {inv.trait(r) for r in a.by_kind("impl") if not r["negative"] and inv.is_q(r["args"][0])}
        heap, ser = bool(feats), "serde" in feats
        for t, want in (("Display", heap), ("Debug", heap), ("Serialize", ser), ("Deserialize", ser), ("Add", True), ("Copy", True)):
            c.ob((t in tr) == want, "%s:impl:%s" % (cfg, t), "%s is %simplemented for quantities" % (t, "" if t in tr else "not "))
        fmt = any(r["path"].endswith("::fmt") for r in a.by_kind("sig"))
        c.ob(fmt == ser, "%s:fmt" % cfg, "the method fmt is %s" % ("there" if fmt else "missing"))
        for s in a.by_kind("struct"):
            if s["path"].endswith("Quantity"):
                val = [f for f in s["fields"] if "PhantomData" not in f["ty"]]
                c.ob(len(val) == 1 and val[0]["ty"] == "T", "%s:fields" % cfg, "stored fields: %s" % [(f["name"], f["ty"]) for f in val])
        if feats:
            continue
        # what is linked
        linked = {n for r in a.by_kind("crates") for n in r["names"]}
        c.ob("std" not in linked, "links:std", "a program without std still links std (through %s)" % ", ".join(sorted(linked & {"syn", "proc_macro2", "quote", "num_traits"})))
        c.ob("alloc" not in linked, "links:alloc", "a program without alloc still links alloc (through whippyunits_core)")
        for n, key in plan:
            f = a.flows.get(n)
            if f is None:
                c.fail("%s:%s" % (cfg, key), "not analysed")
                continue
            e = effects(f)
            c.ob(not e, "%s:%s" % (cfg, key), "reaches %s" % sorted(e)[:3])
        c.floor("%s core operations" % cfg, len(plan), 700)
        ctl = effects(a.flows["w_control"])
        if not ctl:
            c.fail("%s:control" % cfg, "the analysis does not see the allocation of make_plural")
        for t in T.STORAGE:
            for b in ("", "Br", "Odd"):
                k = "%s_%s" % (t, b)
                v = {x: a.consts.get("C_%s%s" % (x, k), {}).get("v") for x in "sabd"}
                c.ob(v["s"] == str(SIZE[t]) and v["a"] == v["b"] is not None and v["d"] in ("false", "0"), "%s:layout:%s" % (cfg, k), "size %s alignment %s (number: %s, %s) drop glue %s" % (v["s"], v["a"], SIZE[t], v["b"], v["d"]))
        c.sample({"config": cfg, "operation": plan[0][1], "crates linked": sorted(linked)[:40]})
    c.finish()
