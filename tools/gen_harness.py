#!/usr/bin/env python3
"""By hand only: generate the typed glue of the harness for one schema version from a dump.
   gen_harness.py <version> <dump.json> <schema.rs> <out.rs>"""
import json, re, sys
ver, dump, schema_rs, outp = sys.argv[1:5]
D = json.load(open(dump))
schema_names = set(re.findall(r"^pub (?:struct|enum|type|trait) (\w+)", open(schema_rs).read(), re.M))
types = {x["n"]: x for x in D if x["k"] in ("struct", "enum")}
aliases = {x["n"]: x["t"] for x in D if x["k"] == "type" and x["t"] != "()"}
traits = {x["n"] for x in D if x["k"] == "trait"}
names = set(types) | set(aliases) | traits
de = set()
for x in D:
    if x["k"] in ("struct", "enum") and "Deserialize" in " ".join(x["a"]): de.add(x["n"])
    if x["k"] == "impl" and x["trait"] and "Deserialize" in x["trait"].split("<")[0]: de.add(x["for"])
CONSTS = {}
for x in D:
    if x["k"] == "macro" and x["n"] == "validate":
        pass

def q(n): return ("m::" if n in schema_names else "u::") + n
def rty(t, slf=None):
    """token string -> rust type text with names resolved"""
    toks = re.findall(r"'\w+|\w+|::|[<>(),&+;\[\]=]|->", t)
    out = []
    for i, x in enumerate(toks):
        prev = toks[i - 1] if i else ""
        if prev == "::": out.append(x)
        elif x == "Self": out.append(slf)
        elif x in names and not (i + 1 < len(toks) and toks[i + 1] == "::"): out.append(q(x))
        elif x == "Map": out.append("serde_json::Map")
        elif x == "Value": out.append("serde_json::Value")
        elif x in ("HashMap", "BTreeMap"): out.append("std::collections::" + x)
        else: out.append(x)
    s = ""
    for x in out:
        if s and re.match(r"\w", x) and re.search(r"[\w]$", s): s += " "
        s += x
    return s

def split_top(s):
    dep, cur, out = 0, "", []
    for ch in s:
        if ch in "<(": dep += 1
        if ch in ">)": dep -= 1
        if ch == "," and dep == 0:
            out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def sig(f):
    s = re.sub(r"\s+", " ", f["sig"]).replace("-> ::", "-> ::").replace("->::", "-> ::")
    m = re.match(r"fn (\w+) ?(<.*?> )?\(", s)
    name, gen = m[1], m[2] or ""
    # generics may contain nested <>
    i = s.index("(", len("fn " + name)); 
    # skip parens inside generics: find matching of first top-level "("
    g = s[len("fn " + name):i]
    dep = 0; j = i
    for j in range(i, len(s)):
        if s[j] == "(": dep += 1
        if s[j] == ")":
            dep -= 1
            if dep == 0: break
    params = split_top(s[i + 1:j])
    rest = s[j + 1:]
    m2 = re.match(r"\s*->\s*(.*?)(?: where (.*))?$", rest)
    ret = m2[1].strip() if m2 else "()"
    where = (m2[2] or "") if m2 else (rest.split("where", 1)[1] if "where" in rest else "")
    bounds = {}
    for src in (re.sub(r"^\s*<|>\s*$", "", g.strip()), where):
        for b in split_top(src or ""):
            if ":" in b and not b.strip().startswith("'"):
                k, v = b.split(":", 1); bounds[k.strip()] = v.strip()
            elif b.strip(): bounds[b.strip()] = bounds.get(b.strip(), "")
    return name, bounds, params, ret

def arg(i, t, slf, bounds):
    """-> (let statement, expression) or None"""
    t = t.strip()
    v = f"a{i}"
    if t in bounds:
        b = bounds[t]
        m = re.search(r"Into < (.*) >", b)
        if m:
            inner = m[1].strip()
            return f"let {v}: {rty(inner, slf)} = arg(a, {i})?;", v
        if "ToString" in b or "AsRef < str >" in b: return f"let {v}: String = arg(a, {i})?;", v
        return None
    m = re.match(r"impl Into < (.*) >$", t)
    if m: return f"let {v}: {rty(m[1], slf)} = arg(a, {i})?;", v
    if t.startswith("impl AsRef < str >"): return f"let {v}: String = arg(a, {i})?;", v
    if t.startswith("impl ") or t.startswith("& mut") or "dyn" in t or "fn (" in t: return None
    if t.startswith("&"):
        t = re.sub(r"^& *('\w+ )?", "", t)
        if t == "str": return f"let {v}: String = arg(a, {i})?;", f"{v}.as_str()"
        return f"let {v}: {rty(t, slf)} = arg(a, {i})?;", f"&{v}"
    if t == "Vec < & str >": return f"let {v}: Vec<String> = arg(a, {i})?;", f"{v}.iter().map(|x| x.as_str()).collect::<Vec<&str>>()"
    return f"let {v}: {rty(t, slf)} = arg(a, {i})?;", v

ident = lambda n: n
arms, keys, ctor = [], [], {}
def add(key, body):
    if key in keys: return
    keys.append(key); arms.append(f'        "{key}" => {{ {body} }}')

SKIP_TRAITS = ("Deserialize", "Serialize", "PartialEq", "Eq", "Hash", "Default", "Error", "Ord", "PartialOrd")
apply_ = {}   # type -> [(method, body)]
for x in D:
    if x["k"] != "impl": continue
    fo, tr = x["for"], x["trait"]
    t0 = (tr or "").split("<")[0].strip().split("::")[-1].strip()
    if tr and t0 in SKIP_TRAITS: continue
    slf = rty(fo)
    if fo not in types and not (tr and t0 in ("From", "TryFrom", "McpMetaEx")): continue
    short = fo if fo in types else {"serde_json :: Map < String , Value >": "Map"}.get(fo, re.sub(r"\W+", "", fo))
    if tr and t0 in ("From", "TryFrom"):
        inner = tr.split("<", 1)[1].rsplit(">", 1)[0].strip()
        gen_bounds = {}
        m = re.match(r"< ?(\w+) : (.*) >$", x["g"] or "")
        if m: gen_bounds[m[1]] = m[2]
        if inner == "fmt :: Error": continue
        a = arg(0, inner, slf, gen_bounds)
        if a is None: print("skip", fo, tr); continue
        nm = re.sub(r"\s+", "", inner)
        nm = re.sub(r"\b(std|serde_json|string|vec|option|collections|result)::", "", nm.replace("::std::", "std::").replace("::serde_json::", "serde_json::"))
        nm = nm.replace("::", "")
        if t0 == "From": add(f"{short}.From<{nm}>", f"{a[0]} let r: {slf} = From::from({a[1]}); Ok(out!(r))")
        else: add(f"{short}.TryFrom<{nm}>", f"{a[0]} let r: Result<{slf}, _> = TryFrom::try_from({a[1]}); Ok(out!(r))")
        continue
    if tr and t0 == "FromStr":
        if fo in de and fo not in ("Role", "StringSchemaFormat"):
            add(f"{short}.FromStr", f"let a0: String = arg(a, 0)?; let r: Result<{slf}, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o))"); continue
        add(f"{short}.FromStr", f"let a0: String = arg(a, 0)?; let r: Result<{slf}, _> = std::str::FromStr::from_str(&a0); Ok(out!(r))"); continue
    if tr and t0 == "Display":
        if fo in de or fo in ("CallToolError", "UnknownTool", "MessageTypes"):
            add(f"{short}.Display", f"let s: {slf} = arg(s, 0)?; Ok(s.to_string().view())")
        continue
    for f in x["fns"]:
        if not tr and not f["pub"]: continue
        name, bounds, params, ret = sig(f)
        if "impl Iterator" in ret: 
            p0 = params[0]
            a = None
            add(f"{short}.{name}", f"let s: {slf} = arg(s, 0)?; Ok(V::Array(vec![\"I\".into(), V::Array(s.{name}().map(|x| x.view()).collect())]))"); continue
        call_args, lets, ok = [], [], True
        has_self = None
        k = 0
        for p in params:
            pp = re.sub(r"\s+", " ", p)
            if pp in ("self", "mut self", "& self", "& mut self"): has_self = pp; continue
            t = pp.split(" : ", 1)[1] if " : " in pp else pp.split(":", 1)[1]
            a = arg(k, t.strip(), slf, bounds)
            if a is None: ok = False; break
            lets.append(a[0]); call_args.append(a[1]); k += 1
        if not ok: print("skip fn", fo, tr, name, params); continue
        L = " ".join(lets); A = ", ".join(call_args)
        tpath = f"<{slf} as {rty(tr)}>::{name}" if tr else None
        key = f"{short}.{name}" if not tr or t0 in ("McpMessage", "RpcMessage", "McpMetaEx") else f"{short}.{t0}<{re.sub(chr(92)+'s+', '', tr.split('<',1)[1].rsplit('>',1)[0])}>"
        fn = tpath or f"{slf.replace('<','::<',1)}::{name}"
        bind = "let s: %s = arg(s, 0)?;" % slf
        if has_self is None: add(key, f"{L} let r = {fn}({A}); Ok(out!(r))")
        elif has_self in ("self", "mut self"):
            add(key, f"{bind} {L} let r = {fn}({', '.join(['s'] + call_args)}); Ok(out!(r))")
            if ret == "Self": apply_.setdefault(short, (slf, []))[1].append((name, L, f"{fn}({', '.join(['s'] + call_args)})"))
        elif has_self == "& self": add(key, f"{bind} {L} let r = {fn}({', '.join(['&s'] + call_args)}); Ok(out!(r))")
        else:
            if "& mut" in ret:
                continue
            add(key, f"let mut s: {slf} = arg(s, 0)?; {L} let r = {fn}({', '.join(['&mut s'] + call_args)}).view(); Ok(V::Array(vec![\"R\".into(), r, out!(s)]))")
            apply_.setdefault(short, (slf, []))[1].append((name, L, "{ let mut s = s; %s(%s); s }" % (fn, ", ".join(["&mut s"] + call_args))))

# ---------------------------------------------------------------- what the standard traits do
for n, x in types.items():
    if any("Default" in a for a in x["a"] if "derive" in a) or any(y["k"] == "impl" and y["for"] == n and (y["trait"] or "").endswith("Default") for y in D):
        add(f"{n}.default", f"let r: {q(n)} = Default::default(); Ok(out!(r))")
add("RequestId.eq", f"let s: {q('RequestId')} = arg(s, 0)?; let a0: {q('RequestId')} = arg(a, 0)?; Ok(same_id(&s, &a0, &s == a0, &a0 == s))")
add("RequestId.find", f"let a0: Vec<{q('RequestId')}> = arg(a, 0)?; let a1: {q('RequestId')} = arg(a, 1)?; Ok(find_id(a0, &a1))")

# ---------------------------------------------------------------- views and builds
views = []
accessor = {}
for x in D:
    if x["k"] == "impl" and not x["trait"]:
        for f in x["fns"]:
            if f["pub"]: accessor.setdefault(x["for"], {})[f["n"]] = f
def fident(n):
    return n
for n, x in types.items():
    T = q(n)
    if n in ("CallToolError",):
        views.append(f'impl View for {T} {{ fn view(&self) -> V {{ json!(["X", "{n}", self.0.to_string()]) }} }}')
        continue
    if n == "StringSchemaFormatError":
        views.append(f'impl View for {T} {{ fn view(&self) -> V {{ json!(["X", "{n}"]) }} }}'); continue
    if x["k"] == "struct":
        fs = x["f"]
        if fs and fs[0]["n"] is None:      # tuple
            views.append(f'impl View for {T} {{ fn view(&self) -> V {{ self.0.view() }} }}')
        else:
            parts = []
            for f in fs:
                rn = f["n"].replace("r#", "")
                if f["pub"]: parts.append(f'("{rn}", self.{f["n"]}.view())')
                elif rn in accessor.get(n, {}): parts.append(f'("{rn}", self.{f["n"]}().view())')
            views.append(f'impl View for {T} {{ fn view(&self) -> V {{ vs(vec![{", ".join(parts)}]) }} }}')
        if n in de:
            if fs and fs[0]["n"] is None:
                views.append(f'impl Build for {T} {{ fn build(v: &V) -> R<Self> {{ if v[0] == "j" {{ return dec(&v[1]); }} Ok({T}(Build::build(v)?)) }} }}')
            elif all(f["pub"] for f in fs):
                lit = ", ".join(f'{f["n"]}: fld(v, "{f["n"].replace("r#","")}")?' for f in fs)
                dflt = ""
                views.append(f'impl Build for {T} {{ fn build(v: &V) -> R<Self> {{ if v[0] == "j" {{ return dec(&v[1]); }} if v[0] != "S" {{ return Err(bad("{n}", v)); }} Ok({T} {{ {lit} }}) }} }}')
            else:
                views.append(f'impl Build for {T} {{ fn build(v: &V) -> R<Self> {{ if v[0] == "j" {{ return dec(&v[1]); }} Err(bad("{n}", v)) }} }}')
    else:
        unit = all(not v["f"] for v in x["v"])
        if unit:
            va = ", ".join(f'{T}::{v["n"]} => "{v["n"]}"' for v in x["v"])
            views.append(f'impl View for {T} {{ fn view(&self) -> V {{ json!(["U", match self {{ {va} }}]) }} }}')
            vb = ", ".join(f'"{v["n"]}" => {T}::{v["n"]}' for v in x["v"])
            head = 'if v[0] == "j" { return dec(&v[1]); }' if n in de else ""
            views.append(f'impl Build for {T} {{ fn build(v: &V) -> R<Self> {{ {head} Ok(match v[1].as_str().unwrap_or("") {{ {vb}, _ => return Err(bad("{n}", v)) }}) }} }}')
        else:
            va, vb = [], []
            for v in x["v"]:
                vn = v["n"]
                if v["named"]:
                    fn_ = [f["n"] for f in v["f"]]
                    va.append(f'{T}::{vn} {{ {", ".join(fn_)} }} => json!(["E", "{vn}", vs(vec![{", ".join(chr(40)+chr(34)+f.replace("r#","")+chr(34)+", "+f+".view())" for f in fn_)}])])')
                    vb.append(f'"{vn}" => {T}::{vn} {{ {", ".join(f+": fld(&v[2], "+chr(34)+f+chr(34)+")?" for f in fn_)} }}')
                elif len(v["f"]) == 1:
                    va.append(f'{T}::{vn}(x) => json!(["E", "{vn}", x.view()])')
                    vb.append(f'"{vn}" => {T}::{vn}(Build::build(&v[2])?)')
                else:
                    va.append(f'{T}::{vn} => json!(["U", "{vn}"])'); vb.append(f'"{vn}" => {T}::{vn}')
            views.append(f'impl View for {T} {{ fn view(&self) -> V {{ match self {{ {", ".join(va)} }} }} }}')
            head = 'if v[0] == "j" { return dec(&v[1]); }' if n in de else ""
            views.append(f'impl Build for {T} {{ fn build(v: &V) -> R<Self> {{ {head} if v[0] != "E" {{ return Err(bad("{n}", v)); }} Ok(match v[1].as_str().unwrap_or("") {{ {", ".join(vb)}, _ => return Err(bad("{n}", v)) }}) }} }}')
views.append('impl Build for u::CallToolError { fn build(v: &V) -> R<Self> { let s: String = Build::build(v)?; Ok(u::CallToolError::from_message(s)) } }')
if "UnknownTool" in types: views.append('impl Build for u::UnknownTool { fn build(v: &V) -> R<Self> { let s: String = Build::build(v)?; Ok(u::UnknownTool(s)) } }')

codec = [f'        "{n}" => codec::<{q(n)}>(d)' for n in types if n in de]
aps = []
for t, (slf, ms) in apply_.items():
    body = " ".join(f'"{n}" => {{ {L} s = {e}; }}' for n, L, e in ms)
    aps.append(f'        "{t}" => {{ let mut s: {slf} = arg(s, 0)?; for c in calls {{ let a = &c[1]; let _ = a; match c[0].as_str().unwrap_or("") {{ {body} x => return Err(bad(x, c)) }} }} Ok((s.view(), text(&s))) }}')
mod_ = "mcp_" + ver
consts = re.findall(r"^pub const (\w+): (?:&str|i64)", open(schema_rs).read(), re.M)
o = f'''// Generated by tools/gen_harness.py. Typed glue for schema version {ver}.
use crate::core::*;
use crate::out;
use rust_mcp_schema::{mod_} as m;
use rust_mcp_schema::{mod_}::schema_utils as u;
#[allow(unused_imports)]
use u::*;
use serde_json::json;
use serde_json::Value as V;

{chr(10).join(views)}

pub fn run_codec(t: &str, d: &V) -> R<V> {{
    Ok(match t {{
{chr(10).join(c + "," for c in codec)}
        _ => return Err(bad("type", d)),
    }})
}}
pub fn run_call(f: &str, s: &V, a: &V) -> R<V> {{
    match f {{
{chr(10).join(arms)}
        _ => Err(format!("no function {{f}}")),
    }}
}}
#[allow(unused_mut, unused_assignments, unused_variables)]
pub fn run_chain(t: &str, s: &V, calls: &[V]) -> R<(V, V)> {{
    match t {{
{chr(10).join(aps)}
        _ => Err(format!("no chain {{t}}")),
    }}
}}
pub fn consts() -> V {{
    json!({{{", ".join(f'"{n}": m::{n}' for n in consts)}}})
}}
pub const CALLS: &[&str] = &[{", ".join(chr(34)+k+chr(34) for k in keys)}];
pub const TYPES: &[&str] = &[{", ".join(chr(34)+n+chr(34) for n in types if n in de)}];
'''
o = o.replace("use u::*;", "use rust_mcp_schema::%s::schema_utils::*;" % mod_)
open(outp, "w").write(o)
print(ver, len(keys), "calls", len(codec), "codecs")
