"""W16: a deserialized quantity has the dimension and the amount its text says, or there is an error."""
import random

from . import ser
from .core import Check, analyse, pmap
from .ser import ONE, Facts, norm, ratfun, same
from .spell import catalogue
from .terms import PRELUDE, pretty, qty, raw, ty_src

EXTRA = 'whippyunits-proc-macros = { path = "%s/proc-macros" }\n'

VISIT = '''
use serde::de::{self, *};
#[derive(Debug)] pub struct E(String);
impl core::fmt::Display for E { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for E {}
impl de::Error for E { fn custom<T: core::fmt::Display>(_: T) -> E { E(String::new()) } }
pub struct A(usize);
#[inline(never)] pub fn oracle_key<K>(n: usize) -> Result<K, E> { loop {} }
#[inline(never)] pub fn oracle_value<K>(n: usize) -> Result<K, E> { loop {} }
impl<'de> MapAccess<'de> for A {
  type Error = E;
  fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, _: K) -> Result<Option<K::Value>, E> { if self.0 == ENTRIES { return Ok(None) } self.0 += 1; match oracle_key::<K::Value>(self.0) { Ok(k) => Ok(Some(k)), Err(e) => Err(e) } }
  fn next_value_seed<K: DeserializeSeed<'de>>(&mut self, _: K) -> Result<K::Value, E> { oracle_value::<K::Value>(self.0) }
  fn next_key<K: Deserialize<'de>>(&mut self) -> Result<Option<K>, E> { if self.0 == ENTRIES { return Ok(None) } self.0 += 1; match oracle_key::<K>(self.0) { Ok(k) => Ok(Some(k)), Err(e) => Err(e) } }
  fn next_value<K: Deserialize<'de>>(&mut self) -> Result<K, E> { oracle_value::<K>(self.0) }
}
pub struct D;
macro_rules! no { ($($f:ident)*) => { $(fn $f<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> { Err(E(String::new())) })* } }
impl<'de> Deserializer<'de> for D {
  type Error = E;
  no!(deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf deserialize_option deserialize_unit deserialize_seq deserialize_identifier deserialize_ignored_any);
  fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_map(A(0)) }
  fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_map(A(0)) }
  fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, E> { Err(E(String::new())) }
  fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, E> { Err(E(String::new())) }
  fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, E> { Err(E(String::new())) }
  fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, _: V) -> Result<V::Value, E> { Err(E(String::new())) }
  fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> { v.visit_map(A(0)) }
  fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, E> { Err(E(String::new())) }
}
'''


def atoms(n, out):
    if isinstance(n, (tuple, frozenset)):
        if isinstance(n, tuple) and n and n[0] in ("dims", "scales", "dim", "scale", "cf", "af", "cfs", "eval", "parse", "unknown"):
            out.add(n)
        for x in n:
            atoms(x, out)
    return out


def base_of(n):
    """The text a parse-derived atom comes from."""
    x = n[1] if n[0] == "parse" else n[1][1] if isinstance(n[1], tuple) and n[1][0] == "unit" else None
    return x


def judge(c, key, rec, dim, scale, x_ok, u_ok, brand="()", scalar=False, extra_reason=None, path_ok=None):
    """Every path of a deserializer: Ok(the amount) of a known unit of this dimension, or Err for a stated reason."""
    if not scalar:
        i = rec["output"].index("<")
        got = qty(rec["output"][i + 1:-1].rsplit(", ", 1)[0])
        if got is None:
            return c.fail(key + ":type", "returns %s" % rec["output"][:200])
        c.ob((tuple(got.scale), tuple(got.dim), got.t, got.brand) == (scale, dim, "f64", brand), key + ":type", "returns %s" % rec["output"][:200])
    n_ok = 0
    for i, p in enumerate(rec["paths"]):
        f = Facts(p)
        if not f.ok:
            continue
        if p["end"] != "return":
            c.fail(key + ":end", "%s: a path ends in %s %s" % (key, p["end"], str(p.get("detail"))[:160]))
            continue
        ret = p["ret"]
        if not (ret.get("k") == "agg" and ret.get("var") in ("Ok", "Err")):
            c.fail(key + ":shape", "a path returns %s" % pretty(ret)[:200])
            continue
        seen = set()
        for fact in f.m:
            atoms(fact, seen)
        atoms(norm(ret), seen)
        units = {a[1] for a in seen if a[0] in ("dims", "scales", "dim", "scale", "cf", "af", "unknown", "eval") and isinstance(a[1], tuple) and a[1][0] == "unit"}
        texts = {u[1] for u in units} | {a[1] for a in seen if a[0] == "parse"}
        if not all(u_ok(t, f) for t in texts):
            c.fail(key + ":text", "reads the unit from %s" % sorted(map(repr, texts))[0][:200])
            continue
        one = [fact for fact, v in f.m.items() if fact[0] == "eq" and ("text", "1") in fact[1] and v == 1 and any(u_ok(t, f) for t in fact[1] if t != ("text", "1"))]
        # equalities of dimension vectors
        dims = [(fact, v) for fact, v in f.m.items() if fact[0] == "eq" and any(isinstance(z, tuple) and z[0] == "dims" for z in fact[1])]
        want = ("arr",) + tuple(("c", d) for d in dim)
        match = any(v == 1 and want in fact[1] for fact, v in dims) or _each(f, dim)
        if one:
            match = match or not any(dim)
        if ret["var"] == "Err":
            reason = any(fact[0] == "discr" and fact[1][0] == "parse" and v == 1 for fact, v in f.m.items()) \
                or any(fact[0] == "discr" and fact[1][0] == "unknown" and v == 1 for fact, v in f.m.items()) \
                or any(v == 0 for _, v in dims) or _some_differ(f, dim) or (one and any(dim)) \
                or (extra_reason is not None and extra_reason(f))
            c.ob(reason, key + ":refused", "refuses a well-formed text of the right dimension: %s" % _facts(p))
            continue
        n_ok += 1
        if path_ok is not None:
            path_ok(key, f, ret)
        c.ob(bool(match), key + ":dimension", "accepts a text without comparing its dimension to %s: %s" % (dim, _facts(p)))
        known = one or any(fact[0] == "discr" and fact[1][0] == "unknown" and v == 0 for fact, v in f.m.items())
        c.ob(bool(known), key + ":unknown", "accepts a text without refusing unknown units: %s" % _facts(p))

        def sub(n):
            if one:
                if n[0] == "cf":
                    return ("c", 1)
                if n[0] in ("af", "scale", "dim"):
                    return ("c", 0)
            if n[0] == "ratio":
                return ("ratio",) + tuple(sub(z) for z in n[1:])
            return ("x",) if x_ok(n, f) else n
        v = ret["f"]["0"] if scalar else raw(ret["f"]["0"])
        got = ratfun(v, sub)
        u = next(iter(units), ("unit", "?"))
        frm = [("c", 0)] * 4 if one else [("scale", u, k) for k in range(4)]
        ratio = ser.atom(("ratio",) + tuple(frm) + tuple(("c", s) for s in scale))[0]
        cf = ONE if one else ser.atom(("cf", u))[0]
        af = {} if one else ser.atom(("af", u))[0]
        x = ser.atom(("x",))[0]
        exp = ser._mul(ser._add(ser._mul(x, cf), af), ratio), ONE
        c.ob(len(units) <= 1 and same(got, exp), key + ":amount", "value is %s, expected %s" % (ser.frac(got)[:300], ser.frac(exp)))
    c.ob(n_ok > 0, key + ":none", "no path accepts any text")


def _each(f, dim):
    return all(any(f.get(("eq", frozenset((a, ("c", d))))) == 1 for a in _dimatoms(f, i)) for i, d in enumerate(dim)) if any(True for _ in f.m) else False


def _some_differ(f, dim):
    return any(f.get(("eq", frozenset((a, ("c", d))))) == 0 for i, d in enumerate(dim) for a in _dimatoms(f, i))


def _dimatoms(f, i):
    out = set()
    for fact in f.m:
        if fact[0] == "eq":
            out |= {z for z in fact[1] if isinstance(z, tuple) and z[0] == "dim" and z[2] == i}
    return out


def _facts(p):
    return "; ".join("%s = %s" % (pretty(a)[-90:], list(b.values())[0]) for a, b in p["facts"])[:500]


def targets():
    r = random.Random(7)
    out = [((0,) * 8, (0, 0, 0, 0)), ((0,) * 8, (3, 0, 3, 0)), ((0, 1, 0, 0, 0, 0, 0, 0), (0, 0, 0, 0)), ((0, 1, -1, 0, 0, 0, 0, 0), (3, 0, 3, 0)),
           ((0, 0, 0, 0, 1, 0, 0, 0), (0, 0, 0, 0)), ((0,) * 7 + (1,), (-2, -2, -1, 1)), ((1, 2, -3, -1, 0, 0, 0, 0), (-3, 1, -4, 0))]
    for _ in range(17):
        out.append((tuple(r.randrange(-4, 5) for _ in range(8)), tuple(r.randrange(-9, 10) for _ in range(4))))
    return out


def main():
    c = Check("W16", "other", "MIR value flow of the deserializers, with the unit parser and evaluator as uninterpreted functions")
    c.rules.append("on every feasible path: Ok is returned only after the parsed unit was found to name no unknown unit and its dimension was found equal to the target's; the value is then "
                   "(number * conversion factor + zero offset) * (parsed scale -> target scale); Err only for a text that does not parse, an unknown unit, another dimension or a malformed document; no path panics")
    cat = catalogue()
    tg = targets()
    macros = [s for s in ("m", "km", "kg", "K", "rad", "mmol", "N", "uW", "km/s", "kg * m / s^2", "1") if s]

    def go(cge):
        cfg = "cge" if cge else "std"
        src = [PRELUDE, "use whippyunits::serialization::*;\npub struct Br;\n", VISIT.replace("ENTRIES", "3")]
        plan = []
        for k, (d, s) in enumerate(tg):
            cg = ", ".join(map(str, d + s))
            src.append("pub fn w_q%d(x: f64, u: &str) -> Result<%s, SerializationError> { deserialize_core_quantity::<%s, f64>(x, u) }\n" % (k, ty_src(s, d), cg.replace("<", "")))
            src.append("pub fn w_c%d(x: f64, u: &str) -> Result<f64, SerializationError> { deserialize_core::<%s>(x, u) }\n" % (k, cg))
            plan += [("w_q%d" % k, "core_quantity", d, s), ("w_c%d" % k, "core", d, s)]
            if k in (3, 4):
                for b in ("()", "Br"):
                    n = "w_d%d_%s" % (k, b.strip("()"))
                    src.append("pub fn %s() -> Result<%s, E> { serde::Deserialize::deserialize(D) }\n" % (n, ty_src(s, d, "f64", b)))
                    plan.append((n, "Deserialize" + b, d, s))
        for k, t in enumerate(macros):
            for m in ("from_json", "from_string"):
                for st in ("", ", f64"):
                    n = "w_m%d_%s%s" % (k, m, "t" if st else "")
                    src.append("pub fn %s(s: &str) -> Result<unit!(%s), SerializationError> { whippyunits::%s!(s, %s%s) }\n" % (n, t, m, t, st))
                    plan.append((n, m + "!(%s%s)" % (t, st), None, None))
        src.append("pub fn w_pj(s: &str) -> Result<(f64, String), SerializationError> { parse_json_input(s) }\n")
        return cfg, plan, analyse("wit_w16", "".join(src), cge=cge, opaque="|".join(ser.OPAQUE + ("oracle_", "parse_string_input")), deps_serde=True, extra_deps=EXTRA % core_repo(), )

    n = 0
    for cfg, plan, a in pmap(go, [False, True]):
        if not c.compile_errors(a, cfg):
            continue
        for fn, what, d, s in plan:
            n += 1
            rec = a.flows[fn]
            key = "%s:%s" % (cfg, what) if d is None else "%s:%s of %s %s" % (cfg, what, d, s)
            if what.startswith("core"):
                judge(c, key, rec, d, s, lambda z, f: z == ("in", "x"), lambda t, f: t == ("in", "u"), scalar=what == "core")
            elif what.startswith("Deserialize"):
                def is_val(z, f):
                    return z[0] == "field" and z[3][0] == "call" and "oracle_value::<f64>" in z[3][1] and _key(f, z[3][2], "value")

                def is_unit(z, f):
                    return z[0] == "field" and z[3][0] == "call" and "oracle_value::<" in z[3][1] and "String" in z[3][1] and _key(f, z[3][2], "unit")

                def bad_doc(f):
                    return any(g[0] == "discr" and g[1][0] == "call" and "oracle_" in g[1][1] and v == 1 for g, v in f.m.items()) or _dup(f)
                judge(c, key, rec, d, s, is_val, is_unit, brand=what[11:] if what[11:] == "()" else what[11:], extra_reason=bad_doc)
            else:
                u = cat_of(rec)
                jf = what.startswith("from_json")

                def src_of(z, i):
                    if jf:
                        return _json(z, ("value", "unit")[i])
                    return z[0] == "field" and z[1] == str(i) and z[3][0] == "field" and z[3][1] == "0" and z[3][3][0] == "call" and "parse_string_input" in z[3][3][1] and z[3][3][2] == ("in", "s")

                def bad(f):
                    return any(g[0] == "discr" and (_has(g[1], "serde_json") or _has(g[1], "parse_string_input")) for g in f.m if f.m[g] == (0 if _has(g[1], "as_f64") or _has(g[1], "as_str") else 1))
                judge(c, key, rec, tuple(u.dim), tuple(u.scale), lambda z, f: src_of(z, 0), lambda t, f: src_of(t, 1), extra_reason=bad)
    judge_unknown(c)
    c.sample({"rule": "value = (x * cf + af) * ratio(parsed scale, target scale)"})
    c.floor("deserializers", n, 180)
    c.rules.append("find_unknown_unit of a product, quotient or power is None exactly when it is None for every operand, and for a single unit when the catalogue lookup finds it (or it is one of the parser's own markers)")
    c.assumptions.append("the unit evaluator and conversion factors are judged by W14/W15, the float rescale by W04; splitting \"5 m\" into number and unit (parse_string_input) and serde_json itself are taken as given; documents of up to 3 entries")
    c.finish()


UNKNOWN = """
use whippyunits_core::*;
pub fn w_mul(a: Box<UnitExpr>, b: Box<UnitExpr>) -> Option<syn::Ident> { let e = UnitExpr::Mul(a, b); let r = e.find_unknown_unit(); core::mem::forget(e); r }
pub fn w_div(a: Box<UnitExpr>, b: Box<UnitExpr>) -> Option<syn::Ident> { let e = UnitExpr::Div(a, b); let r = e.find_unknown_unit(); core::mem::forget(e); r }
pub fn w_pow(a: Box<UnitExpr>, n: syn::LitInt) -> Option<syn::Ident> { let e = UnitExpr::Pow(a, n); let r = e.find_unknown_unit(); core::mem::forget(e); r }
pub fn w_unit(u: UnitExprUnit) -> Option<syn::Ident> { let e = UnitExpr::Unit(u); let r = e.find_unknown_unit(); core::mem::forget(e); r }
"""


def judge_unknown(c):
    """find_unknown_unit: Some for an expression exactly when it is Some for one of its parts; for a single unit, when the lookup fails."""
    a = analyse("wit_w16u", UNKNOWN, opaque="<recursion>|get_unit_info|base10_parse|find_unit", extra_deps='syn = "2.0"')
    if any("find_unknown_unit" in e["message"] for e in a.errors):
        c.cov["unknown units: induction not applicable"] = "no such function"
        return
    if not c.compile_errors(a, "unknown units"):
        return
    for fn, ops in (("w_mul", "ab"), ("w_div", "ab"), ("w_pow", "a"), ("w_unit", "")):
        key = "unknown units:" + fn[2:]
        for p in a.flows[fn]["paths"]:
            f = Facts(p)
            if not f.ok:
                continue
            if p["end"] != "return":
                c.fail(key, "a path ends in %s %s" % (p["end"], str(p.get("detail"))[:160]))
                continue
            known = {}
            look = None
            for g, v in f.m.items():
                if g[0] == "discr" and g[1][0] == "unknown" and g[1][1][0] in ("in", "field"):
                    known[_leafin(g[1][1])] = v
                if _has(g, "get_unit_info"):
                    look = v if g[0] == "discr" else None
            ret = ser.strip(p["ret"])
            n = norm(ret)
            if ret.get("k") == "agg" and ret.get("var") in ("Some", "None"):
                some = ret["var"] == "Some"
            elif n[0] == "unknown":
                some = known.get(_leafin(n[1]))
                if some is None:
                    # this operand's answer is the whole answer: the others must have none
                    known[_leafin(n[1])] = 0
                    some = False
                some = bool(some)
            else:
                c.cov["unknown units: induction not applicable"] = "%s returns %s" % (fn, pretty(ret)[:200])
                continue
            if fn == "w_unit":
                spelled = any(_has(g, "compare_bytes") and v == 1 or g[0] == "eq" and any(z[0] == "text" for z in g[1] if isinstance(z, tuple)) and v == 1 for g, v in f.m.items())
                if look is None and not spelled:
                    c.cov["unknown units: induction not applicable"] = "%s decides by %s" % (fn, _facts(p))
                    continue
                c.ob(some == (look == 0) if look is not None else not some, key, "%s after %s" % (ret["var"], _facts(p)))
            elif some:
                c.ob(1 in known.values(), key, "refuses an expression of known units: %s" % _facts(p))
            else:
                c.ob(all(known.get(o) == 0 for o in ops), key, "accepts an expression without looking at %s" % ", ".join(o for o in ops if known.get(o) != 0))


def _leafin(n):
    while n[0] == "field":
        n = n[-1]
    return n[1] if n[0] == "in" else n


def core_repo():
    from .core import REPO
    return REPO


def cat_of(rec):
    i = rec["output"].index("<")
    return qty(rec["output"][i + 1:-1].rsplit(", ", 1)[0])


def _has(n, s):
    if n == s:
        return True
    if isinstance(n, str):
        return isinstance(s, str) and s in n
    return isinstance(n, (tuple, frozenset)) and any(_has(x, s) for x in n)


def _json(z, name):
    """serde_json's reading of the member `name` of the whole text."""
    return _has(z, ("value" if name == "value" else "unit")) and _has(z, "as_f64" if name == "value" else "as_str") and not _has(z, "unit" if name == "value" else "as_f64") and _has(z, "from_str") and _has(z, ("in", "s"))


def _key(f, idx, name):
    """The path established that the key of entry idx is `name`."""
    for fact, v in f.m.items():
        if v == 1 and fact[0] == "eq" and ("text", name) in fact[1]:
            if any(_has(z, "oracle_key") and idx in z[3] for z in fact[1] if z[0] == "field"):
                return True
    return False


def _dup(f):
    """Entries the path refused: a key seen twice, or one of the two missing."""
    seen = {}
    for fact, v in f.m.items():
        if fact[0] == "eq" and v == 1:
            for nm in ("value", "unit"):
                if ("text", nm) in fact[1]:
                    seen[nm] = seen.get(nm, 0) + 1
    return any(seen.get(nm, 0) != 1 for nm in ("value", "unit"))
