"""W23: the LSP proxy passes every message on, frames what it rewrites, and rewrites only the text of results."""
import re

from . import ser, terms as T
from .core import Check, REPO, analyse, pmap

DEPS = 'whippyunits-lsp-proxy = { path = "%s/lsp-proxy" }\nwhippyunits-pretty = { path = "%s/whippyunits-pretty" }\nanyhow = "1.0"\nserde = "1.0"\nserde_json = "1.0"\n'
USE = "use whippyunits_lsp_proxy::*;\nuse whippyunits_lsp_proxy::lsp_structures::*;\nuse whippyunits_lsp_proxy::hover_processor::*;\n"
RES = "Result<serde_json::Value, serde_json::Error>"
STRUCTS = {"LspMessage": (("jsonrpc",), ("id", "method", "params", "result", "error")),
           "HoverContent": (("contents",), ("range",)),
           "HoverContentItem": (("value",), ("language", "kind"))}
WITNESS = {
    "forward": (USE + "pub fn w_in(p: &LspProxy, m: &str) -> anyhow::Result<String> { p.process_incoming(m) }\n"
                "pub fn w_out(p: &LspProxy, m: &str) -> anyhow::Result<String> { p.process_outgoing(m) }\n",
                "<loops>|<strings>|contains_quantity_types_fast|serde_json::from_str|to_value|from_value|to_string|extract_json_payload|improve_hover_content|process_inlay_hint_result|"
                "process_inlay_hint_response|is_inlay_hint_response|contains_whippyunits|__private_api|must_use|fmt::Arguments|push_str|String as std::convert::From|str as std::convert::Into|to_owned|as std::ops::Add<|as std::ops::AddAssign<|write_fmt|log::|String as std::clone|Value as std::clone"),
    "members": (USE + "".join("pub fn w_%s(m: &%s) -> %s { serde::Serialize::serialize(m, serde_json::value::Serializer) }\n" % (s, s, RES) for s in STRUCTS),
                "<loops>|<strings>|SerializeMap|SerializeStruct|serialize_struct|serialize_map|FlatMapSerialize|collect_seq|to_string"),
    "hover": (USE + "pub fn w_single(h: &HoverProcessor, i: HoverContentItem, c: HoverContent) -> HoverContent { let mut c = c; c.contents = HoverContents::Single(i); h.improve_hover_content(c) }\n",
              "<strings>|transform_add_trait_signature|simplify_|UnitFormatter::|str>::contains|to_string|String as std::clone|String as std::cmp"),
    "hovers": (USE + "pub fn w_multi(h: &HoverProcessor, v: Vec<HoverContentItem>, c: HoverContent) -> HoverContent { let mut c = c; c.contents = HoverContents::Multiple(v); h.improve_hover_content(c) }\n",
               "<strings>|transform_add_trait_signature|simplify_|UnitFormatter::|str>::contains|to_string|String as std::clone|String as std::cmp"),
    "inlay": ("use whippyunits_lsp_proxy::inlay_hint_processor::*;\npub fn w_inlay(h: &InlayHintProcessor, m: &str) -> anyhow::Result<String> { h.process_inlay_hint_response(m) }\n",
              "<strings>|convert_whippyunits_hint|generate_seeded_unit|quantity_detection::|to_string|serde_json::|Map<std::string|String as std::clone"),
    "line": ("use whippyunits_pretty::rustc_pretty::*;\npub fn w_line(p: &mut RustcPrettyPrinter, m: &str) -> anyhow::Result<String> { p.process_line(m) }\n",
             "<loops>|<strings>|UnitFormatter::|str>::contains|to_string|to_owned|String as std::convert::From|str as std::convert::Into|log::|__private_api|fmt::Arguments|PartialEq"),
}


def walk(v):
    """Every term inside v."""
    if isinstance(v, dict):
        if "k" in v:
            yield v
        for x in v.values():
            yield from walk(x)
    elif isinstance(v, list):
        for x in v:
            yield from walk(x)


def peel(v):
    """Without references, casts, copies and the wrappers that hand their argument back."""
    while isinstance(v, dict):
        k = v.get("k")
        if k in ("ref", "deref") or k == "cast":
            v = v.get("v") or v.get("a")
        elif k == "call" and len(v["args"]) == 1 and re.search(r"::clone$|hint::must_use|String::as_str$|::deref$|::as_bytes$|::as_ref$|__private_api", v["n"]):
            v = v["args"][0]
        elif k == "field" and v["n"] in ("ptr", "inner", "buf", "vec", "pointer"):
            v = v["a"]
        else:
            return v
    return v


def is_message(v, m="m"):
    """v is a copy of the whole input text."""
    v = peel(v)
    if v.get("k") == "call" and len(v["args"]) == 1 and re.search(r"::(to_string|to_owned|from|into|into_string)(::<.*>)?$", v["n"]):
        v = peel(v["args"][0])
    return v.get("k") == "in" and v["n"].lstrip("*") == m


def key(v):
    """Two texts are the same when the terms that make them are."""
    v = peel(v)
    if not isinstance(v, dict):
        return str(v)
    k = v.get("k")
    if k == "call":
        return (re.sub(r"::<.*>$", "", v["n"]), v.get("id")) + tuple(key(x) for x in v["args"])
    if k == "field":
        return ("field", v["n"], key(v["a"]))
    if k == "agg":
        return ("agg", v["t"], v.get("var")) + tuple((f, key(x)) for f, x in sorted(v["f"].items()))
    if k == "in":
        return ("in", v["n"].lstrip("*"))
    return (k, str(v.get("v")), str(v.get("n"))) + tuple(key(v[x]) for x in ("a", "b") if isinstance(v.get(x), dict))


def same(a, b):
    """Equal, where a term nested too deep to be reported (`...`, the receiver's settings) equals anything."""
    if "..." in (a, b):
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def pieces(v):
    """The literal parts and the arguments of a format!: [bytes | ("display", term)], or None."""
    v = peel(v)
    if v.get("k") == "call" and v["n"].endswith("fmt::format") and len(v["args"]) == 1:
        v = peel(v["args"][0])
    if not (v.get("k") == "call" and "fmt::Arguments" in v["n"] and len(v["args"]) == 2):
        return None
    t, args = peel(v["args"][0]), peel(v["args"][1])
    if t.get("k") != "arr" or args.get("k") != "arr":
        return None
    b = []
    for x in t["v"]:
        c = T.const_val(x)
        if c is None:
            return None
        b.append(int(c))
    out, i, k = [], 0, 0
    while i < len(b):
        if b[i] == 0:
            break
        if b[i] < 128:
            out.append(bytes(b[i + 1:i + 1 + b[i]]))
            i += 1 + b[i]
        elif b[i] == 128:
            n = b[i + 1] | b[i + 2] << 8
            out.append(bytes(b[i + 3:i + 3 + n]))
            i += 3 + n
        elif b[i] == 192:
            if k >= len(args["v"]):
                return None
            a = peel(args["v"][k])
            k += 1
            if not (a.get("k") == "call" and "new_display" in a["n"]):
                return None
            out.append(("display", peel(a["args"][0])))
            i += 1
        else:
            return None
    return out


def text_of(v, p, depth=0):
    """A text built by format!, to_string, + and push_str as [bytes | ("display", term)]."""
    v = peel(v)
    if depth > 12:
        return [("display", v)]
    lit = ser.text(v)
    if lit is not None:
        return [lit.encode()]
    ps = pieces(v)
    if ps is not None:
        return [y for x in ps for y in ([x] if isinstance(x, bytes) else text_of(x[1], p, depth + 1))]
    if v.get("k") == "call" and re.search(r"as std::ops::Add<.*>>::add$", v["n"]) and len(v["args"]) == 2:
        return text_of(v["args"][0], p, depth + 1) + text_of(v["args"][1], p, depth + 1)
    if v.get("k") == "call" and len(v["args"]) == 1 and re.search(r"(str|String|usize) as std::string::ToString>::to_string$|str>::to_owned$|String as std::convert::From<.*>>::from$|str as std::convert::Into<.*>>::into$", v["n"]):
        return text_of(v["args"][0], p, depth + 1)
    if v.get("k") == "call" and not v["args"] and re.search(r"String::new$", v["n"]) or v.get("k") == "call" and v["n"].endswith("String::with_capacity"):
        return []
    if v.get("k") == "agg" and v["t"].endswith("string::String") and not any(x.get("k") in ("call", "havoc", "in") for x in walk(v)):
        return []
    if v.get("k") == "havoc" and re.search(r"push_str$|AddAssign<.*>>::add_assign$|write_fmt$", v["n"]):
        for x in p["calls"]:
            if x["n"] == v["n"] and x.get("id") in (v.get("id"), v.get("id", 0) + 1) and len(x["args"]) == 2:
                return text_of(x["args"][0], p, depth + 1) + text_of(x["args"][1], p, depth + 1)
    return [("display", v)]


def joined(ps):
    out = []
    for x in ps:
        if isinstance(x, bytes) and out and isinstance(out[-1], bytes):
            out[-1] += x
        elif x != b"":
            out.append(x)
    return out


def parsed_field(v, name):
    """v is member `name` of the parsed message; returns the parse term, or None."""
    v = peel(v)
    if v.get("k") != "field" or v["n"] != name:
        return None
    p = peel(v["a"])
    if p.get("k") == "field" and p["n"] == "0":
        p = peel(p["a"])
    if p.get("k") == "call" and "serde_json" in p["n"] and re.search(r"from_str|from_slice", p["n"]):
        return p
    return None


def true_fact(p, pat):
    for t, want in p["facts"]:
        neg, x = False, peel(t)
        while x.get("k") == "un" and x.get("op") == "Not":
            neg, x = not neg, peel(x["a"])
        if x.get("k") == "call" and re.search(pat, x["n"]):
            val = int(want["eq"]) if "eq" in want else (1 if {int(z) for z in want["notin"]} == {0} else None)
            if val is not None and (val != 0) != neg:
                return x
    return None


def incoming(c, key0, p):
    if p["end"] != "return":
        c.fail(key0 + ":end", "a path of process_incoming ends in %s %s" % (p["end"], str(p.get("detail"))[:160]))
        return None
    ret = p["ret"]
    if not c.ob(ret.get("k") == "agg" and ret.get("var") == "Ok", key0 + ":err", "process_incoming gives up on a message: " + T.pretty(ret)[:200]):
        return None
    body = ret["f"]["0"]
    if is_message(body):
        c.ob(True, key0 + ":same", "")
        return "same"
    ps = joined(text_of(body, p))
    good = len(ps) == 4 and ps[0] == b"Content-Length: " and ps[2] == b"\r\n\r\n" and isinstance(ps[1], tuple) and isinstance(ps[3], tuple)
    if not c.ob(good, key0 + ":frame", "neither the message itself nor `Content-Length: n`, a blank line and a body: " + T.pretty(body)[:240]):
        return None
    n, json = ps[1][1], ps[3][1]
    while n.get("k") == "call" and len(n["args"]) == 1 and n["n"].endswith("ToString>::to_string"):
        n = peel(n["args"][0])
    lens = (n.get("k") == "len" or n.get("k") == "field" and n["n"] in ("len", "1")) and same(key(n["a"]), key(json)) or n.get("k") == "call" and re.search(r"::len$", n["n"]) and same(key(n["args"][0]), key(json))
    c.ob(bool(lens), key0 + ":length", "Content-Length is %s, which is not the number of bytes of the body" % T.pretty(n)[:200])
    j = json
    if j.get("k") == "field" and j["n"] == "0":
        j = peel(j["a"])
    if not c.ob(j.get("k") == "call" and "serde_json" in j["n"] and "to_string" in j["n"], key0 + ":body", "the body is not the serialized message: " + T.pretty(json)[:200]):
        return None
    m = peel(j["args"][0])
    if not c.ob(m.get("k") == "agg" and m["t"].endswith("LspMessage"), key0 + ":message", "what is serialized is not the parsed message: " + T.pretty(m)[:200]):
        return None
    src = None
    for f in ("jsonrpc", "id", "method", "params", "error"):
        q = parsed_field(m["f"].get(f, {}), f)
        c.ob(q is not None, key0 + ":" + f, "member `%s` of a rewritten message is %s" % (f, T.pretty(m["f"].get(f, {}))[:160]))
        src = q or src
    r = m["f"].get("result", {})
    own = [x for x in walk(r) if parsed_field(x, "result") is not None]
    some = peel(r)
    c.ob(some.get("k") == "agg" and some.get("var") == "Some" and bool(own), key0 + ":result", "`result` of a rewritten message does not come from its result: " + T.pretty(r)[:200])
    hov = [x for x in walk(r) if x.get("k") == "call" and "improve_hover_content" in x["n"]]
    inl = [x for x in walk(r) if x.get("k") == "call" and "process_inlay_hint_res" in x["n"]]
    c.ob(bool(hov or inl), key0 + ":processor", "`result` was replaced without going through a processor: " + T.pretty(r)[:200])
    det = true_fact(p, "contains_quantity_types_fast")
    c.ob(det is not None, key0 + ":detected", "a message is rewritten on a path that did not find a quantity type in it")
    if src is not None:
        c.ob(any(x.get("k") == "in" and x["n"].lstrip("*") == "m" for x in walk(src)) or any(x.get("k") == "call" and "extract_json_payload" in x["n"] for x in walk(src)),
             key0 + ":source", "what is parsed is not the message's payload: " + T.pretty(src)[:200])
    return "rewritten"


def line(c, p):
    if p["end"] != "return":
        c.fail("process_line:end", "a path of process_line ends in %s %s" % (p["end"], str(p.get("detail"))[:160]))
        return None
    ret = p["ret"]
    if not c.ob(ret.get("k") == "agg" and ret.get("var") == "Ok", "process_line:err", "process_line gives up on a line: " + T.pretty(ret)[:200]):
        return None
    body = peel(ret["f"]["0"])
    if is_message(body):
        c.ob(True, "process_line:same", "")
        return "same"
    fmt = body.get("k") == "call" and "UnitFormatter::format_types" in body["n"]
    c.ob(fmt and any(is_message(x) for x in body["args"]), "process_line:text", "a line becomes something other than itself or its own text formatted: " + T.pretty(body)[:200])
    det = [x for t, w in p["facts"] for x in [peel(t)] if x.get("k") == "call" and x["n"].split("::<")[-2 if x["n"].endswith(">") else -1].endswith("contains") and (w.get("eq") == "1" or w.get("notin") == ["0"])
           and len(x["args"]) == 2 and is_message(x["args"][0]) and "Quantity" in (ser.text(x["args"][1]) or "")]
    c.ob(bool(det), "process_line:detected", "a line is rewritten on a path that did not find `Quantity` in it")
    return "rewritten"


def optional_fact(p, f):
    """1 when the path found member f present, 0 when absent, None when it did not look."""
    for t, want in p["facts"]:
        flip, x = False, peel(t)
        while True:
            if x.get("k") == "un" and x.get("op") == "Not":
                flip, x = not flip, peel(x["a"])
            elif x.get("k") == "bin" and x["op"] in ("Eq", "Ne") and T.const_val(x["b"]) in (0, 1):
                if (T.const_val(x["b"]) == 0) != (x["op"] == "Ne"):
                    flip = not flip
                x = peel(x["a"])
            else:
                break
        if x.get("k") == "discr":
            y = peel(x["a"])
            if y.get("k") == "field" and y["n"] == f and peel(y["a"]).get("k") == "in":
                v = int(want["eq"]) if "eq" in want else (1 if {int(z) for z in want["notin"]} == {0} else 0 if {int(z) for z in want["notin"]} == {1} else None)
                if v is not None:
                    return v ^ (1 if flip else 0)
    return None


SHRINK = re.compile(r"::(retain|retain_mut|truncate|pop|swap_remove|remove|clear|dedup\w*|drain|split_off|resize\w*|push|insert|append|extend\w*|swap|reverse|sort\w*|rotate_\w+)(::<.*)?$")
THIN = re.compile(r"::(filter|filter_map|skip|skip_while|take|take_while|step_by|rev|map_while|chain|flat_map)(::<.*)?$")


def several(c, p):
    """A hover of any number of items: nothing but the texts of the items is written."""
    if p["end"] != "return":
        return 0
    r = peel(p["ret"])
    fs = r.get("f", {}) if r.get("k") == "agg" else {}
    for f in ("range", "other"):
        v = peel(fs.get(f, {}))
        c.ob(v.get("k") == "field" and v["n"] == f and peel(v["a"]).get("n") == "c", "hovers." + f, "an improved hover has %s = %s" % (f, T.pretty(v)[:120] if v else None))
    it = peel(fs.get("contents", {}))
    if not c.ob(it.get("k") == "agg" and it.get("var") == "Multiple", "hovers.contents", "a hover of several items is no longer one: " + T.pretty(it)[:160] if it else "no contents"):
        return 0
    rebuilt = any(x.get("k") == "call" and re.search(r"::(collect|from_iter)(::<.*)?$", x["n"]) for x in walk(it["f"]["0"]))
    for x in p["calls"]:
        if "HoverContentItem" in x["n"]:
            c.ob(not SHRINK.search(x["n"]), "hovers.items", "the items of a hover are dropped, added or reordered: " + x["n"][:160])
            if rebuilt and "std::mem::" not in x["n"]:
                c.ob(not THIN.search(x["n"]), "hovers.items", "not every item of a hover is kept: " + x["n"][:160])
        if x["n"] != "<write through unknown pointer>" or not any(y.get("k") == "call" and "HoverContentItem" in y["n"] for y in walk(x["args"][0])):
            continue
        d, v = peel(x["args"][0]), peel(x["args"][1])
        if d.get("k") == "field":
            c.ob(d["n"] == "value", "hovers.item." + d["n"], "member `%s` of an item of a hover is written: %s" % (d["n"], T.pretty(v)[:160]))
            continue
        fi = v.get("f", {}) if v.get("k") == "agg" else {}
        for f in ("language", "kind"):
            w = peel(fi.get(f, {}))
            c.ob(not fi or any(y.get("k") == "field" and y["n"] == f for y in walk(w)), "hovers.item." + f, "an improved item of a hover has %s = %s" % (f, T.pretty(w)[:120] if w else None))
    return 1


EDITED = {"label", "textEdits"}
REACH = re.compile(r"::(get_mut|index_mut|entry|pointer_mut|get_key_value_mut|get|index|pointer)(::<.*)?$")
TAKEN = re.compile(r"::(remove|remove_entry|swap_remove|shift_remove|clear|retain|retain_mut|pop|truncate|drain|split_off|dedup\w*|take|replace|swap)(::<.*)?$")
GROWN = re.compile(r"::(push|append|extend\w*|resize\w*|insert|reverse|sort\w*|rotate_\w+)(::<.*)?$")


def reached(v):
    """The member names by which a part of a message was reached."""
    out = set()
    for x in walk(v):
        if x.get("k") == "call" and REACH.search(x["n"]) and len(x["args"]) > 1:
            out |= set((ser.text(x["args"][1]) or "?").strip("/").split("/"))
    return out


def inlay(c, p):
    """An inlay-hint response: nothing but the label and the text edits of hints that name a quantity type is written."""
    if p["end"] != "return":
        return None
    k = "inlay"
    fresh = False
    converted = 0
    edits = False
    for x in p["calls"]:
        n, a = x["n"], x["args"]
        if "convert_whippyunits_hint" in n:
            converted += 1
            continue
        if n == "<write through unknown pointer>":
            if any(y.get("k") == "call" and ("from_str" in y["n"] or "IterMut" in y["n"] or "as_object_mut" in y["n"] or "as_array_mut" in y["n"]) for y in walk(a[0])):
                c.ob(bool(reached(a[0]) & EDITED), k + ":write", "a part of an inlay-hint response other than a label or its text edits is overwritten: " + T.pretty(a[0])[:200])
            continue
        if not a or not re.search(r"serde_json|std::mem::(take|replace|swap)", n):
            continue
        m = re.search(r"::(\w+)(::<[^:]*(::[^:]+)*>)?$", n)
        base = peel(a[0])
        names = [x["n"] for x in walk(a[0]) if x.get("k") in ("call", "havoc")]
        known = ser.text(a[1]) if len(a) > 1 else None
        if any(re.search(r"(Map::<.*>|Vec::<.*>)::(new|with_capacity)$|box_assume_init|new_uninit", y) for y in names):
            own = True
        elif base.get("k") == "havoc" and re.search(r"Map::<.*>::insert$", base["n"]):
            own = fresh
        else:
            own = False
        if re.search(r"Map::<.*>::insert$", n):
            fresh = own
        if own:
            continue
        there = reached(a[0]) & EDITED
        if re.search(r"::(get_mut|index_mut|entry|pointer_mut)(::<.*)?$", n) and known is not None:
            ks = set(known.strip("/").split("/"))
            c.ob(ks <= EDITED | {"result"} or bool(there), k + ":member", "member `%s` of an inlay-hint response is written" % known)
            edits = edits or "textEdits" in ks
        elif re.search(r"Map::<.*>::insert$", n):
            c.ob(known in EDITED or bool(there), k + ":insert", "member `%s` of an inlay-hint response is written" % known)
            edits = edits or known == "textEdits"
        elif TAKEN.search(n):
            c.ob(bool(there) or known in EDITED, k + ":removed", "%s takes something other than a label or text edits out of an inlay-hint response: %s" % (n[:120], T.pretty(a[0])[-160:]))
        elif GROWN.search(n):
            c.ob(bool(there), k + ":added", "%s adds to or reorders something other than a label or text edits of an inlay-hint response: %s" % (n[:120], T.pretty(a[0])[-160:]))
    found = 0
    for t, want in p["facts"]:
        x = peel(t)
        one = want.get("eq") == "1" or want.get("notin") == ["0"]
        if true_fact({"facts": [(t, want)]}, "contains_whippyunits_type") is not None:
            found += 1
        elif one and re.search(r"closure@.*inlay_hint_processor", (peel(x["a"]) if x.get("k") == "discr" else x).get("n", "")):
            found += 1
    c.ob(converted <= found, k + ":guard", "a label is converted that was not found to name a quantity type")
    c.ob(not edits or found > 0, k + ":edits", "text edits are replaced for a hint that was not found to name a quantity type")
    r = p["ret"]
    if r.get("k") == "agg" and r.get("var") == "Ok":
        body = r["f"]["0"]
        if is_message(body):
            return "same"
        c.ob(true_fact(p, "contains_quantity_types_fast") is not None, k + ":detected", "an inlay-hint response is rewritten on a path that did not find a quantity type in it")
        c.ob(any(x.get("k") == "call" and "serde_json" in x["n"] and "to_string" in x["n"] for x in walk(body)), k + ":text", "an inlay-hint response becomes something other than its own serialization: " + T.pretty(body)[:200])
        return "rewritten"
    return "error"


def members(c, s, rec):
    must, opt = STRUCTS[s]
    n = 0
    for p in rec["paths"]:
        if p["end"] != "return":
            c.fail("%s:end" % s, "writing %s ends in %s %s" % (s, p["end"], str(p.get("detail"))[:160]))
            continue
        if p["ret"].get("k") == "agg" and p["ret"].get("var") == "Err":
            continue
        n += 1
        got = {}
        for x in p["calls"]:
            if re.search(r"::serialize_(field|entry)(::<.*)?$", x["n"]):
                got[ser.text(x["args"][1])] = peel(x["args"][2])
        for f, v in got.items():
            c.ob(f in must + opt and v.get("k") == "field" and v["n"] == f and peel(v["a"]).get("k") == "in", "%s.%s:written" % (s, f), "writes member `%s` as %s" % (f, T.pretty(v)[:120]))
        for f in must:
            c.ob(f in got, "%s.%s:kept" % (s, f), "member `%s` is not written" % f)
        for f in opt:
            here = optional_fact(p, f)
            if f in got:
                c.ob(here == 1, "%s.%s:added" % (s, f), "member `%s` is written also when the message has none" % f)
            else:
                c.ob(here == 0, "%s.%s:lost" % (s, f), "member `%s` is left out although the message has one" % f)
        if s == "HoverContent":
            flat = [x for x in p["calls"] if "FlatMapSerializer" in x["n"]]
            c.ob(len(flat) == 1, s + ":rest", "members the proxy does not know (such as `actions`) are not written back")
    return n


def main():
    c = Check("W23", "other", "MIR value flow of the message path of the LSP proxy, over every path, for a message of unknown text")
    c.rules += ["process_outgoing returns the message; process_incoming returns Ok on every path: the message, or `Content-Length: len(json)\\r\\n\\r\\n` + json",
                "json = to_string(the message parsed from the payload) with jsonrpc, id, method, params, error as parsed and result = processor(its result), only where a quantity type was detected",
                "serializing LspMessage, HoverContent and HoverContentItem writes every member present under its own name and adds none",
                "process_line of the pretty printer returns Ok on every path: the line, or, only where `Quantity` was found in it, its own text formatted",
                "processing an inlay-hint response reaches for writing only `result`, `label` and `textEdits`, takes from and adds to nothing but labels and text edits, and only of hints found to name a quantity type",
                "improving a hover changes no member but `value`, of one item or of any number of items (paths of up to three turns of the loop), and neither drops, adds nor reorders items"]

    def go(w):
        src, op = WITNESS[w]
        return w, analyse("wit_w23_" + w, src, opaque=op, extra_deps=DEPS % (REPO, REPO), env_extra={"WFLOW_MAX_PATHS": "1500", **({"WFLOW_TURNS": "3"} if w in ("hovers", "inlay") else {})})
    kinds = {"same": 0, "rewritten": 0}
    npaths = 0
    for w, a in pmap(go, list(WITNESS)):
        if not c.compile_errors(a, w):
            continue
        if w == "forward":
            for i, p in enumerate(a.flows["w_out"]["paths"]):
                ok = p["end"] == "return" and p["ret"].get("k") == "agg" and p["ret"].get("var") == "Ok" and is_message(p["ret"]["f"]["0"])
                c.ob(ok, "process_outgoing:%d" % i, "process_outgoing does not return the message: %s %s" % (p["end"], T.pretty(p["ret"])[:200] if p.get("ret") else p.get("detail")))
            for p in a.flows["w_in"]["paths"]:
                k = incoming(c, "process_incoming", p)
                npaths += 1
                if k:
                    kinds[k] += 1
        elif w == "line":
            ls = [line(c, p) for p in a.flows["w_line"]["paths"]]
            c.floor("paths of process_line that keep the line", ls.count("same"), 1)
            c.floor("paths of process_line that format it", ls.count("rewritten"), 1)
        elif w == "inlay":
            ps = a.flows["w_inlay"]["paths"]
            ls = [inlay(c, p) for p in ps]
            c.sample({"inlay-hint response": "%d of %d paths read to their end" % (len([x for x in ls if x]), len(ps))})
            c.floor("paths through an inlay-hint response", len(ps), 1)
        elif w == "hovers":
            c.sample({"hover of several items": "%d of %d paths read to their end" % (sum(several(c, p) for p in a.flows["w_multi"]["paths"]), len(a.flows["w_multi"]["paths"]))})
            c.floor("paths through a hover of several items", len(a.flows["w_multi"]["paths"]), 1)
        elif w == "members":
            for s in STRUCTS:
                c.floor("ways to write " + s, members(c, s, a.flows["w_" + s]), 2)
        else:
            for p in a.flows["w_single"]["paths"]:
                if p["end"] != "return":
                    c.fail("hover:end", "improving a hover ends in %s %s" % (p["end"], str(p.get("detail"))[:160]))
                    continue
                r = peel(p["ret"])
                fs = r.get("f", {}) if r.get("k") == "agg" else {}
                for f in ("range", "other"):
                    v = peel(fs.get(f, {}))
                    c.ob(v.get("k") == "field" and v["n"] == f and peel(v["a"]).get("n") == "c", "hover." + f, "an improved hover has %s = %s" % (f, T.pretty(v)[:120] if v else None))
                it = peel(fs.get("contents", {}))
                one = it.get("k") == "agg" and it.get("var") == "Single"
                if not c.ob(one, "hover.contents", "an improved single text is no longer one: " + T.pretty(it)[:160] if it else "no contents"):
                    continue
                item = peel(it["f"]["0"])
                fi = item.get("f", {}) if item.get("k") == "agg" else {}
                if item.get("k") == "in":
                    continue
                for f in ("language", "kind"):
                    v = peel(fi.get(f, {}))
                    c.ob(v.get("k") == "field" and v["n"] == f and peel(v["a"]).get("n") == "i", "hover.item." + f, "an improved hover item has %s = %s" % (f, T.pretty(v)[:120] if v else None))
                c.ob(any(x.get("k") == "in" and x["n"].lstrip("*") == "i" for x in walk(fi.get("value", {}))), "hover.item.value", "the improved text does not come from the text: " + T.pretty(fi.get("value", {}))[:160])
    c.floor("paths of process_incoming", npaths, 8)
    c.floor("paths that return the message", kinds["same"], 4)
    c.floor("paths that rewrite it", kinds["rewritten"], 2)
    c.sample({"paths": kinds})
    c.assumptions.append("serde_json reads and writes JSON as specified; what the formatted texts say, the text scanners (which may panic) and the read and write loops of the binary are outside")
    c.finish()
