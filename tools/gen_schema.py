#!/usr/bin/env python3
"""Transcribes the item dump of one schema version (tools/dump) into the TLA+ table module
spec/<version>/Schema.tla.  Run by hand, once, on the pinned tree; the result is committed and is the
reference the implementation is judged against.  It is NOT run by the checks.
usage: gen_schema.py VERSION DUMP.json OUT.tla [MODEL.json]"""
import json, re, sys

def toks(s): return re.findall(r"[A-Za-z_][A-Za-z_0-9]*|[<>,()]|'static|&", s.replace("::", " "))

def parse_ty(s):
    t = toks(s); pos = 0
    def ty():
        nonlocal pos
        # a path: sequence of identifiers; keep last before < or , or >
        if t[pos] == "(":
            pos += 2; return ["unit"]
        name = None
        while pos < len(t) and re.match(r"[A-Za-z_]", t[pos]):
            name = t[pos]; pos += 1
        args = []
        if pos < len(t) and t[pos] == "<":
            pos += 1
            while t[pos] != ">":
                args.append(ty())
                if t[pos] == ",": pos += 1
            pos += 1
        if name == "Option": return ["opt", args[0]]
        if name == "Vec": return ["vec", args[0]]
        if name == "String": return ["str"]
        if name in ("i64", "u64", "f64", "bool"): return [name]
        if name == "Value": return ["val"]
        if name == "Map": return ["map"]
        if name in ("HashMap", "BTreeMap"): return ["hmap", args[1]]
        if name == "Box": return args[0]
        return ["ref", name]
    return ty()

def serde_attr(attrs):
    """-> dict of serde keys"""
    d = {}
    for a in attrs:
        m = re.match(r"# \[serde \((.*)\)\]$", a)
        if not m: continue
        for part in re.split(r" , ", m.group(1)):
            kv = part.split(" = ", 1)
            d[kv[0].strip()] = kv[1].strip().strip('"') if len(kv) > 1 else True
    return d

def load(path):
    d = json.load(open(path))
    consts, aliases, types = {}, {}, {}
    for x in d:
        if x["k"] == "macro" and x["n"] == "validate":
            p = [q.strip() for q in x["t"].split(" , ")]
            p = [q.rstrip(" ,") for q in p if q.strip(" ,")]
            kind = p[4] if len(p) > 4 else "str"
            v = p[3].strip('"') if p[3].startswith('"') else int(p[3].rstrip("i64").replace(" ", "") or p[3])
            consts[p[0]] = (kind, v)
        elif x["k"] == "type" and x["t"] != "()":
            aliases[x["n"]] = x["t"]
    def fields(fs, owner):
        out = []
        for f in fs:
            a = serde_attr(f["a"])
            e = {"rust": f["n"], "n": a.get("rename", (f["n"] or "").replace("r#", "")), "t": parse_ty(f["t"]), "pub": f["pub"], "rt": f["t"]}
            if a.get("deserialize_with", "").replace(" ", "").endswith("::nullable"):
                assert e["t"][0] == "opt" and e["t"][1][0] == "opt", (owner, f)
                e["t"] = ["nopt", e["t"][1][1]]; e["mode"] = "skip"
            elif "deserialize_with" in a and "::" in a["deserialize_with"]:
                fn = a["deserialize_with"].split("::")[-1].strip()
                kind, v = consts[fn]
                e["t"] = {"str": ["cs", v], "option": ["opt", ["cs", v]], "i64": ["ci", v]}[kind]
                e["mode"] = "skip" if "default" in a else "must" # deserialize_with: no implicit None
                if kind == "option" and "default" not in a: e["mode"] = "mustopt"
            elif a.get("deserialize_with") == "validate_jsonrpc":
                e["t"] = ["cs", "2.0"]; e["mode"] = "defconst"
            elif "flatten" in a:
                e["mode"] = "flat"
            elif "skip_serializing_if" in a:
                assert "default" in a
                e["mode"] = "skip"; e["sk"] = a["skip_serializing_if"]
            else:
                assert not a or list(a) == ["rename"], (owner, f, a)
                e["mode"] = "nullout" if owner == "SdkError" and f["n"] == "data" else "req"
            out.append(e)
        return out
    impl_de, impl_se = {}, {}
    for x in d:
        if x["k"] == "impl" and x["trait"]:
            if "Deserialize" in x["trait"] and len(x["fns"]) == 1: impl_de[x["for"]] = x["fns"][0]["body"]
            if x["trait"].endswith("Serialize"): impl_se[x["for"]] = x["fns"][0]["body"]
    for x in d:
        if x["k"] not in ("struct", "enum"): continue
        n = x["n"]; a = serde_attr(x["a"]); der = " ".join(x["a"])
        has_de = "Deserialize" in der or n in impl_de
        if not has_de: 
            continue
        if n in impl_de:
            b = impl_de[n]
            if "match method" in b:
                v = re.findall(r'"([^"]+)" => \{ let req = serde_json :: from_value :: < (\w+) > \(value\) \. map_err \(serde :: de :: Error :: custom\) \? ; Ok \(\w+ :: (\w+) \(req\)\) \}', b)
                assert len(v) == b.count("from_value"), n
                types[n] = {"k": "dispatch", "v": [{"m": m, "n": vn, "t": ["ref", t]} for m, t, vn in v]}
            elif "raw_value" in b:
                m = re.search(r"= (\w+) :: deserialize \(& raw_value\) ; match \w+ \{ Ok \(\w+\) => Ok \(Self :: (\w+) \(\w+\)\) , Err \(_\) => Ok \(Self :: (\w+) \(raw_value\)\)", b)
                types[n] = {"k": "orelse", "t": ["ref", m.group(1)], "n": m.group(2), "c": m.group(3)}
            elif "resultType" in b:
                v = re.findall(r"from_value :: < (\w+) > \(value \. clone \(\)\) \{ return :: std :: result :: Result :: Ok \(ServerResult :: (\w+) \(v\)\)", b)
                types[n] = {"k": "rtype", "v": [{"n": vn, "t": ["ref", t]} for t, vn in v] + [{"n": "Result", "t": ["ref", "Result"]}]}
            elif "missing_field (\"result\")" in b:
                m = re.search(r"from_value :: < (\w+) > \(result\)", b)
                types[n] = {"k": "envres", "t": ["ref", m.group(1)]}
            elif "missing_field (\"method\")" in b:
                m = re.search(r"from_value :: < (\w+) > \(req_object\)", b)
                types[n] = {"k": "envreq" if "missing_field (\"id\")" in b else "envnot", "t": ["ref", m.group(1)]}
            else: raise Exception(n)
            continue
        if x["k"] == "struct":
            if "transparent" in a:
                types[n] = {"k": "new", "t": parse_ty(x["f"][0]["t"])}
            else:
                assert not x["tuple"], n
                assert set(a) <= {"rename_all"} , (n, a)
                fs = fields(x["f"], n)
                assert "rename_all" not in a, n
                types[n] = {"k": "struct", "f": fs}
        else:
            if "untagged" in a:
                vs = []
                for v in x["v"]:
                    va = serde_attr(v["a"])
                    if v["named"]:
                        vs.append({"n": v["n"], "f": fields(v["f"], n), "k": "sv"})
                    else:
                        assert len(v["f"]) == 1
                        e = {"n": v["n"], "k": "nt", "t": parse_ty(v["f"][0]["t"])}
                        if va:
                            assert va == {"deserialize_with": "deserialize_without_id"}, (n, va)
                            e["k"] = "noid"
                        vs.append(e)
                types[n] = {"k": "untag", "v": vs}
            else:
                assert not a, (n, a)
                vs = []
                for v in x["v"]:
                    if v["f"]: raise Exception(("tagged enum with data", n))
                    vs.append([serde_attr(v["a"]).get("rename", v["n"]), v["n"]])
                types[n] = {"k": "unit", "v": vs, "serde": "Deserialize" in der}
    ser_only = [x["n"] for x in d if x["k"] in ("struct", "enum") and x["n"] not in types]
    # resolve aliases in refs
    def res(t):
        if t[0] == "ref":
            while t[1] in aliases: t = ["ref", aliases[t[1]]]
            return t
        return [t[0]] + [res(x) if isinstance(x, list) else x for x in t[1:]]
    for n, T in types.items():
        if "t" in T: T["t"] = res(T["t"])
        for e in T.get("f", []): e["t"] = res(e["t"])
        if T["k"] in ("untag", "dispatch", "rtype"):
            for e in T["v"]:
                if "t" in e: e["t"] = res(e["t"])
                for g in e.get("f", []): g["t"] = res(g["t"])
    return types, aliases, ser_only, d

def q(s): return json.dumps(s)
def tt(t):
    if t[0] in ("cs", "ref"): return f"<<{q(t[0])},{q(t[1])}>>"
    if t[0] == "ci": return f"<<\"ci\",{q(str(t[1]))}>>"
    return "<<" + ",".join([q(t[0])] + [tt(x) for x in t[1:]]) + ">>"
def flds(fs):
    return "<<" + ",\n    ".join(f"[n|->{q(f['n'])},r|->{q(f['rust'].replace('r#',''))},t|->{tt(f['t'])},m|->{q(f['mode'])}]" for f in fs) + ">>"
def emit(v, types, aliases, out, extra):
    L = [f"------------------------------- MODULE Schema -------------------------------",
         f"(* Protocol tables of MCP schema version {v}: one entry per wire type.                *)",
         "(* Type expressions and field modes are explained in ../Codec.tla.                   *)",
         "EXTENDS TLC", f'SchemaVersion == {q(v)}', ""]
    names = []
    for n, T in types.items():
        k = T["k"]
        if k == "struct": b = f"[k|->\"struct\",f|->{flds(T['f'])}]"
        elif k in ("new", "envres", "envreq", "envnot"): b = f"[k|->{q(k)},t|->{tt(T['t'])}]"
        elif k == "unit": b = "[k|->\"unit\",v|-><<" + ",".join(f"<<{q(w)},{q(r)}>>" for w, r in T["v"]) + ">>]"
        elif k == "untag":
            vs = []
            for e in T["v"]:
                if e["k"] == "sv": vs.append(f"[n|->{q(e['n'])},k|->\"sv\",f|->{flds(e['f'])}]")
                else: vs.append(f"[n|->{q(e['n'])},k|->{q(e['k'])},t|->{tt(e['t'])}]")
            b = "[k|->\"untag\",v|-><<" + ",\n    ".join(vs) + ">>]"
        elif k == "dispatch":
            b = "[k|->\"dispatch\",v|-><<" + ",\n    ".join(f"[m|->{q(e['m'])},n|->{q(e['n'])},t|->{tt(e['t'])}]" for e in T["v"]) + ">>]"
        elif k == "rtype":
            b = "[k|->\"rtype\",v|-><<" + ",\n    ".join(f"[n|->{q(e['n'])},k|->\"nt\",t|->{tt(e['t'])}]" for e in T["v"]) + ">>]"
        elif k == "orelse":
            b = f"[k|->\"orelse\",t|->{tt(T['t'])},n|->{q(T['n'])},c|->{q(T['c'])}]"
        L.append(f"T_{n} == {b}"); names.append(n)
    L.append("")
    L.append("Types == [" + ",\n  ".join(f"{n} |-> T_{n}" for n in names) + "]")
    L.append("")
    L.append("TypeNames == <<" + ",".join(q(n) for n in names) + ">>")
    L += extra
    L.append("=" * 77)
    open(out, "w").write("\n".join(L) + "\n")

if __name__ == "__main__":
    v, dump, out = sys.argv[1:4]
    types, aliases, ser_only, d = load(dump)
    emit(v, types, aliases, out, [])
    print(v, len(types), "no deserialize:", ser_only)
    from collections import Counter
    print(Counter(T["k"] for T in types.values()))
    refs = set()
    def walk(t):
        if isinstance(t, list):
            if t and t[0] == "ref": refs.add(t[1])
            for x in t: walk(x)
        elif isinstance(t, dict):
            for x in t.values(): walk(x)
    walk(list(types.values()))
    print("unresolved", refs - set(types))
