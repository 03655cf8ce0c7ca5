// Dumps the items of Rust source files (structs, enums, impls with signatures, validate! calls)
// as JSON. Used once, by hand, to transcribe the pinned schema into the TLA+ tables.
use quote::ToTokens;
use serde_json::{json, Value};
use syn::*;
fn ts<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string() }
fn attrs(a: &[Attribute]) -> Value {
    json!(a.iter().filter(|x| !x.path().is_ident("doc")).map(ts).collect::<Vec<_>>())
}
fn fields(f: &Fields) -> Value {
    json!(f.iter().map(|x| json!({"n": x.ident.as_ref().map(|i| i.to_string()), "t": ts(&x.ty), "pub": matches!(x.vis, Visibility::Public(_)), "a": attrs(&x.attrs)})).collect::<Vec<_>>())
}
fn main() {
    let mut out = vec![];
    for p in std::env::args().skip(1) {
        let f = parse_file(&std::fs::read_to_string(&p).unwrap()).unwrap();
        for it in f.items {
            match it {
                Item::Struct(s) => out.push(json!({"k":"struct","n":s.ident.to_string(),"a":attrs(&s.attrs),"f":fields(&s.fields),"pub": matches!(s.vis, Visibility::Public(_)),
                    "tuple": matches!(s.fields, Fields::Unnamed(_)), "g": ts(&s.generics)})),
                Item::Enum(e) => out.push(json!({"k":"enum","n":e.ident.to_string(),"a":attrs(&e.attrs),"v":e.variants.iter().map(|v| json!({"n":v.ident.to_string(),"a":attrs(&v.attrs),"f":fields(&v.fields),"named":matches!(v.fields, Fields::Named(_)),"d":v.discriminant.as_ref().map(|d| ts(&d.1))})).collect::<Vec<_>>()})),
                Item::Impl(i) => out.push(json!({"k":"impl","for":ts(&i.self_ty),"trait":i.trait_.as_ref().map(|t| ts(&t.1)),"g":ts(&i.generics),
                    "fns": i.items.iter().filter_map(|x| if let ImplItem::Fn(f)=x { Some(json!({"n":f.sig.ident.to_string(),"pub":matches!(f.vis, Visibility::Public(_)),"sig":ts(&f.sig),
                        "a":attrs(&f.attrs),
                        "args": f.sig.inputs.iter().map(|a| match a { FnArg::Receiver(r)=> json!({"self": ts(r)}), FnArg::Typed(t)=> json!({"n": ts(&t.pat), "t": ts(&t.ty)}) }).collect::<Vec<_>>(),
                        "ret": match &f.sig.output { ReturnType::Default=>"()".to_string(), ReturnType::Type(_,t)=>ts(t)},
                        "body": ts(&f.block)})) } else {None}).collect::<Vec<_>>() })),
                Item::Macro(m) => out.push(json!({"k":"macro","n":ts(&m.mac.path),"t":m.mac.tokens.to_string()})),
                Item::Type(t) => out.push(json!({"k":"type","n":t.ident.to_string(),"t":ts(&t.ty)})),
                Item::Const(c) => out.push(json!({"k":"const","n":c.ident.to_string(),"e":ts(&c.expr)})),
                Item::Fn(f) => out.push(json!({"k":"fn","n":f.sig.ident.to_string(),"sig":ts(&f.sig),"pub":matches!(f.vis, Visibility::Public(_))})),
                Item::Trait(t) => out.push(json!({"k":"trait","n":t.ident.to_string()})),
                _ => {}
            }
        }
    }
    println!("{}", serde_json::to_string(&out).unwrap());
}
