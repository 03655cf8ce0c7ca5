//! Encodings shared by the generated glue.
//!
//! A typed value is shown as: scalars ["s",text] ["n",number] ["b",bool]; open JSON ["j",doc];
//! none ["N"], some ["J",v]; list ["V",[..]]; map ["M",{..}]; struct ["S",{rust field: v}];
//! union ["E",variant,v]; enumerated ["U",variant]; result ["ok",v] / ["err",v].
//! An argument is given in the same encoding, or as ["j",doc]: decode doc as the wanted type.
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Map, Value as V};
use std::collections::{BTreeMap, HashMap};

pub type R<T> = Result<T, String>;

pub fn bad(what: &str, v: &V) -> String {
    format!("harness: cannot build {what} from {v}")
}

pub trait View {
    fn view(&self) -> V;
}
pub trait Build: Sized {
    fn build(v: &V) -> R<Self>;
    fn absent() -> Option<Self> {
        None
    }
}

pub fn dec<T: DeserializeOwned>(d: &V) -> R<T> {
    serde_json::from_value(d.clone()).map_err(|e| format!("harness: argument does not decode: {e}"))
}
pub fn arg<T: Build>(a: &V, i: usize) -> R<T> {
    match a.get(i) {
        Some(v) => T::build(v),
        None => Err(format!("harness: argument {i} missing")),
    }
}
/// The receiver is passed bare, not as a list.
pub fn fld<T: Build>(v: &V, f: &str) -> R<T> {
    match v[1].get(f) {
        Some(x) => T::build(x),
        None => T::absent().ok_or_else(|| format!("harness: field {f} missing")),
    }
}
pub fn vs(fs: Vec<(&str, V)>) -> V {
    let mut m = Map::new();
    for (k, v) in fs {
        m.insert(k.to_string(), v);
    }
    json!(["S", m])
}
pub fn text<T: Serialize>(t: &T) -> V {
    match serde_json::to_string(t) {
        Ok(s) => V::String(s),
        Err(e) => json!(["err", e.to_string()]),
    }
}

macro_rules! scalar {
    ($($t:ty),*) => { $(
        impl View for $t { fn view(&self) -> V { json!(["n", *self]) } }
        impl Build for $t {
            fn build(v: &V) -> R<Self> { serde_json::from_value(v[1].clone()).map_err(|e| e.to_string()) }
        }
    )* };
}
scalar!(i64, u64, f64, i32, u32, usize, isize, u16);
impl View for u128 {
    fn view(&self) -> V {
        json!(["n", *self as u64])
    }
}
impl Build for u128 {
    fn build(v: &V) -> R<Self> {
        v[1].as_u64().map(|x| x as u128).ok_or_else(|| bad("u128", v))
    }
}
impl View for bool {
    fn view(&self) -> V {
        json!(["b", *self])
    }
}
impl Build for bool {
    fn build(v: &V) -> R<Self> {
        v[1].as_bool().ok_or_else(|| bad("bool", v))
    }
}
impl View for str {
    fn view(&self) -> V {
        json!(["s", self])
    }
}
impl View for String {
    fn view(&self) -> V {
        json!(["s", self])
    }
}
impl Build for String {
    fn build(v: &V) -> R<Self> {
        v[1].as_str().map(String::from).ok_or_else(|| bad("string", v))
    }
}
impl View for () {
    fn view(&self) -> V {
        json!(["N"])
    }
}
impl<A: View, B: View> View for (A, B) {
    fn view(&self) -> V {
        json!(["V", [self.0.view(), self.1.view()]])
    }
}
impl<T: View + ?Sized> View for &T {
    fn view(&self) -> V {
        (**self).view()
    }
}
impl<T: View + ?Sized> View for Box<T> {
    fn view(&self) -> V {
        (**self).view()
    }
}
impl<T: Build> Build for Box<T> {
    fn build(v: &V) -> R<Self> {
        T::build(v).map(Box::new)
    }
}
impl<T: View> View for Option<T> {
    fn view(&self) -> V {
        match self {
            None => json!(["N"]),
            Some(x) => json!(["J", x.view()]),
        }
    }
}
impl<T: Build> Build for Option<T> {
    fn build(v: &V) -> R<Self> {
        if v[0] == "N" {
            Ok(None)
        } else if v[0] == "J" {
            Ok(Some(T::build(&v[1])?))
        } else {
            T::build(v).map(Some)
        }
    }
    fn absent() -> Option<Self> {
        Some(None)
    }
}
impl<T: View> View for Vec<T> {
    fn view(&self) -> V {
        json!(["V", self.iter().map(|x| x.view()).collect::<Vec<V>>()])
    }
}
impl<T: Build> Build for Vec<T> {
    fn build(v: &V) -> R<Self> {
        match v[1].as_array() {
            Some(a) if v[0] == "V" => a.iter().map(T::build).collect(),
            Some(a) if v[0] == "j" => a.iter().map(|d| T::build(&json!(["j", d]))).collect(),
            _ => Err(bad("list", v)),
        }
    }
    fn absent() -> Option<Self> {
        Some(Vec::new())
    }
}
impl<T: View> View for HashMap<String, T> {
    fn view(&self) -> V {
        json!(["M", self.iter().map(|(k, x)| (k.clone(), x.view())).collect::<Map<String, V>>()])
    }
}
impl<T: View> View for BTreeMap<String, T> {
    fn view(&self) -> V {
        json!(["M", self.iter().map(|(k, x)| (k.clone(), x.view())).collect::<Map<String, V>>()])
    }
}
fn pairs<T: Build>(v: &V) -> R<Vec<(String, T)>> {
    match v[1].as_object() {
        Some(o) if v[0] == "M" => o.iter().map(|(k, x)| Ok((k.clone(), T::build(x)?))).collect(),
        Some(o) if v[0] == "j" => o.iter().map(|(k, x)| Ok((k.clone(), T::build(&json!(["j", x]))?))).collect(),
        _ => Err(bad("map", v)),
    }
}
impl<T: Build> Build for HashMap<String, T> {
    fn build(v: &V) -> R<Self> {
        Ok(pairs(v)?.into_iter().collect())
    }
}
impl<T: Build> Build for BTreeMap<String, T> {
    fn build(v: &V) -> R<Self> {
        Ok(pairs(v)?.into_iter().collect())
    }
}
impl View for Map<String, V> {
    fn view(&self) -> V {
        json!(["j", self])
    }
}
impl Build for Map<String, V> {
    fn build(v: &V) -> R<Self> {
        v[1].as_object().cloned().ok_or_else(|| bad("object", v))
    }
}
impl View for V {
    fn view(&self) -> V {
        json!(["j", self])
    }
}
impl Build for V {
    fn build(v: &V) -> R<Self> {
        match v[0].as_str() {
            Some("j") | Some("s") | Some("n") | Some("b") => Ok(v[1].clone()),
            _ => Err(bad("json", v)),
        }
    }
}
impl<T: View, E: View> View for Result<T, E> {
    fn view(&self) -> V {
        match self {
            Ok(x) => json!(["ok", x.view()]),
            Err(e) => json!(["err", e.view()]),
        }
    }
}
impl View for std::convert::Infallible {
    fn view(&self) -> V {
        json!(["N"])
    }
}
impl View for serde_json::Error {
    fn view(&self) -> V {
        json!(["X", "serde_json"])
    }
}
impl View for &'static dyn std::error::Error {
    fn view(&self) -> V {
        json!(["X", "error"])
    }
}
macro_rules! opaque_err {
    ($($t:ty),*) => { $( impl View for $t { fn view(&self) -> V { json!(["X", "error"]) } } )* };
}
opaque_err!(std::num::ParseIntError, std::num::TryFromIntError, std::fmt::Error);

/// Decode through the three readers, show the value, encode it both ways and decode that again.
pub fn codec<T: DeserializeOwned + Serialize + View>(d: &V) -> V {
    let s = match d {
        V::Array(a) if a.len() == 2 && a[0] == "$raw" => a[1].as_str().unwrap_or("").to_string(),
        _ => d.to_string(),
    };
    let a = serde_json::from_str::<T>(&s);
    let b = serde_json::from_str::<V>(&s).and_then(serde_json::from_value::<T>);
    let c = serde_json::from_reader::<_, T>(s.as_bytes());
    // The order of the members and the spelling of texts and spaces do not matter.
    if let Ok(v) = serde_json::from_str::<V>(&s) {
        let e = serde_json::from_str::<T>(&respell(&v));
        if b.as_ref().ok().map(|x| x.view()) != e.as_ref().ok().map(|x| x.view()) {
            return json!({"split": [b.ok().map(|x| x.view()), e.ok().map(|x| x.view()), "spelled otherwise"]});
        }
    }
    match (a, b, c) {
        (Ok(a), Ok(b), Ok(c)) => {
            let (va, vb, vc) = (a.view(), b.view(), c.view());
            if va != vb || va != vc {
                return json!({"split": [va, vb, vc]});
            }
            let o = match serde_json::to_string(&a) {
                Ok(o) => o,
                Err(e) => return json!({"ok": true, "v": va, "oerr": e.to_string()}),
            };
            match (serde_json::to_value(&a), serde_json::from_str::<V>(&o)) {
                (Ok(x), Ok(y)) if x == y => {}
                (x, y) => return json!({"ok": true, "v": va, "osplit": [x.ok(), y.ok()]}),
            }
            let again = match serde_json::from_str::<T>(&o) {
                Ok(t) => {
                    let v2 = t.view();
                    let o2 = text(&t);
                    json!([v2 == va, o2 == V::String(o.clone())])
                }
                Err(e) => json!(["err", e.to_string()]),
            };
            json!({"ok": true, "v": va, "o": o, "again": again})
        }
        (Err(_), Err(_), Err(_)) => json!({"ok": false}),
        (a, b, c) => json!({"split": [a.is_ok(), b.is_ok(), c.is_ok()]}),
    }
}

/// The same document spelled otherwise: members in the opposite order, every text escaped, spaces.
pub fn respell(d: &V) -> String {
    fn text(s: &str, out: &mut String) {
        out.push('"');
        for u in s.encode_utf16() {
            out.push_str(&format!("\\u{u:04x}"));
        }
        out.push('"');
    }
    fn go(d: &V, out: &mut String) {
        match d {
            V::String(s) => text(s, out),
            V::Array(a) => {
                out.push_str("[ ");
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push_str(" ,\n");
                    }
                    go(x, out);
                }
                out.push_str("\t]");
            }
            V::Object(o) => {
                out.push_str("{ ");
                for (i, (k, x)) in o.iter().rev().enumerate() {
                    if i > 0 {
                        out.push_str("\r, ");
                    }
                    text(k, out);
                    out.push_str(" :\n");
                    go(x, out);
                }
                out.push_str(" }");
            }
            x => out.push_str(&x.to_string()),
        }
    }
    let mut out = String::from("\n ");
    go(d, &mut out);
    out.push(' ');
    out
}

/// Parsing a text gives what every other way to read it gives.
pub fn readers<T: DeserializeOwned + View, E>(t: &str, r: &Result<T, E>, o: V) -> V {
    let said = match r {
        Ok(_) => Some(o[1].clone()),
        Err(_) => None,
    };
    let all = [
        serde_json::from_str::<T>(t).ok().map(|x| x.view()),
        serde_json::from_slice::<T>(t.as_bytes()).ok().map(|x| x.view()),
        serde_json::from_reader::<_, T>(t.as_bytes()).ok().map(|x| x.view()),
    ];
    if all.iter().all(|x| *x == said) {
        o
    } else {
        json!(["split", o, all])
    }
}

/// Equality of ids as every part of the standard library sees it.
pub fn same_id<T: Eq + std::hash::Hash + Clone>(a: &T, b: &T, ab: bool, ba: bool) -> V {
    use std::collections::{hash_map::DefaultHasher, HashSet};
    let h = |x: &T| {
        let mut s = DefaultHasher::new();
        x.hash(&mut s);
        std::hash::Hasher::finish(&s)
    };
    let e = a == b;
    let set: HashSet<T> = [a.clone()].into_iter().collect();
    let fine = (b == a) == e && (a != b) != e && ab == e && ba == e && a == &a.clone() && (!e || h(a) == h(b)) && set.contains(b) == e;
    if fine {
        e.view()
    } else {
        json!(["s", "inconsistent"])
    }
}
/// Which of the ids noted earlier (the last time) this one is, and how many different ones there are.
pub fn find_id<T: Eq + std::hash::Hash>(ids: Vec<T>, id: &T) -> V {
    let m: HashMap<T, u64> = ids.into_iter().enumerate().map(|(i, x)| (x, i as u64 + 1)).collect();
    (m.get(id).copied(), m.len() as u64).view()
}

/// Shows a function's result and notes its encoding, if its type has one.
pub struct W<'a, T: ?Sized>(pub &'a T);
pub trait ViaSer {
    fn enc(&self) -> Option<V>;
}
pub trait ViaNone {
    fn enc(&self) -> Option<V>;
}
impl<T: Serialize + ?Sized> ViaSer for &W<'_, T> {
    fn enc(&self) -> Option<V> {
        Some(text(&self.0))
    }
}
impl<T: ?Sized> ViaNone for W<'_, T> {
    fn enc(&self) -> Option<V> {
        None
    }
}
thread_local! { static ENC: std::cell::RefCell<Option<V>> = const { std::cell::RefCell::new(None) }; }
pub fn set_enc(v: Option<V>) {
    ENC.with(|e| *e.borrow_mut() = v);
}
pub fn take_enc() -> Option<V> {
    ENC.with(|e| e.borrow_mut().take())
}
#[macro_export]
macro_rules! out {
    ($r:expr) => {{
        let r = &$r;
        #[allow(unused_imports)]
        use $crate::core::{ViaNone, ViaSer};
        $crate::core::set_enc((&&$crate::core::W(r)).enc());
        r.view()
    }};
}
