#![allow(warnings)]
//! Reads one command per line, writes one outcome per line.
mod core;
#[cfg(feature = "v2024_11_05")]
#[path = "gen_2024_11_05.rs"]
mod g2024_11_05;
#[cfg(feature = "v2025_03_26")]
#[path = "gen_2025_03_26.rs"]
mod g2025_03_26;
#[cfg(feature = "v2025_06_18")]
#[path = "gen_2025_06_18.rs"]
mod g2025_06_18;
#[cfg(feature = "v2025_11_25")]
#[path = "gen_2025_11_25.rs"]
mod g2025_11_25;
#[cfg(feature = "v2026_07_28")]
#[path = "gen_2026_07_28.rs"]
mod g2026_07_28;
#[cfg(feature = "vdraft")]
#[path = "gen_draft.rs"]
mod gdraft;

use serde_json::{json, Value as V};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

macro_rules! go {
    ($m:ident, $c:expr) => {{
        let c: &V = $c;
        let op = c["op"].as_str().unwrap_or("");
        let t = c["t"].as_str().unwrap_or("");
        match op {
            "codec" => $m::run_codec(t, &c["d"]),
            "call" => $m::run_call(c["f"].as_str().unwrap_or(""), &json!([c["s"]]), &c["a"]).map(|v| json!({ "v": v, "o": core::take_enc() })),
            "chain" => {
                let none = Vec::new();
                $m::run_chain(t, &json!([c["s"]]), c["c"].as_array().unwrap_or(&none)).map(|(v, o)| json!({"v": v, "o": o}))
            }
            "consts" => Ok(json!({"v": ["consts", $m::consts()]})),
            "inventory" => Ok(json!({"calls": $m::CALLS, "types": $m::TYPES})),
            x => Err(format!("harness: unknown op {x}")),
        }
    }};
}

/// Puts the documents of earlier steps in place of {"@": [step, path]}.
fn subst(v: &mut V, outs: &[V], arg: bool) -> Result<(), String> {
    if let Some(r) = v.get("@").filter(|_| v.as_object().map_or(0, |o| o.len()) == 1) {
        let i = r[0].as_u64().ok_or("bad reference")? as usize;
        let text = outs.get(i - 1).and_then(|o| o["o"].as_str()).ok_or(format!("no document from step {i}"))?;
        let mut d: V = serde_json::from_str(text).map_err(|e| e.to_string())?;
        for k in r[1].as_array().ok_or("bad path")? {
            let x = match k {
                V::String(k) => d.get_mut(k.as_str()).map(V::take),
                V::Number(n) => d.get_mut(n.as_u64().unwrap_or(0) as usize).map(V::take),
                _ => None,
            };
            d = x.ok_or(format!("no member {k} in the document of step {i}"))?;
        }
        *v = if arg { json!(["j", d]) } else { d };
        return Ok(());
    }
    match v {
        V::Array(a) => a.iter_mut().try_for_each(|x| subst(x, outs, arg)),
        V::Object(o) => o.values_mut().try_for_each(|x| subst(x, outs, arg)),
        _ => Ok(()),
    }
}

/// A conversation: commands one after another, later ones using the documents of earlier ones.
fn conversation(c: &V) -> Result<V, String> {
    let mut outs: Vec<V> = Vec::new();
    for s in c["steps"].as_array().ok_or("harness: no steps")? {
        let mut s = s.clone();
        let put = ["s", "a", "d"].iter().try_for_each(|k| match s.get_mut(*k) {
            Some(x) => subst(x, &outs, *k != "d"),
            None => Ok(()),
        });
        outs.push(match put {
            Err(e) => json!({ "panic": e }),
            Ok(()) => match catch_unwind(AssertUnwindSafe(|| run(&s))) {
                Ok(Ok(v)) => v,
                Ok(Err(e)) => json!({ "harness": e }),
                Err(p) => {
                    let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
                    json!({"panic": m.unwrap_or_default()})
                }
            },
        });
    }
    Ok(json!({ "outs": outs }))
}

/// The version names: parsing, printing, order and the lists.
fn version(c: &V) -> Result<V, String> {
    use rust_mcp_schema::ProtocolVersion as P;
    let text = |i: usize| c["a"][i][1].as_str().map(str::to_string).ok_or(format!("harness: no text {i} in {c}"));
    let all = || {
        vec![
            ("V2024_11_05", P::V2024_11_05),
            ("V2025_03_26", P::V2025_03_26),
            ("V2025_06_18", P::V2025_06_18),
            ("V2025_11_25", P::V2025_11_25),
            ("V2026_07_28", P::V2026_07_28),
            ("Draft", P::Draft),
        ]
    };
    let named = |i: usize| -> Result<P, String> {
        let n = text(i)?;
        all().into_iter().find(|x| x.0 == n).map(|x| x.1).ok_or(format!("harness: no version {n}"))
    };
    let name = |p: &P| all().into_iter().find(|x| x.1 == *p).map_or("?", |x| x.0).to_string();
    let list = |x: Vec<P>| V::Array(x.iter().map(|p| json!(["U", name(p)])).collect());
    let v = match c["f"].as_str().unwrap_or("") {
        "parse" => match P::try_from(text(0)?.as_str()) {
            Ok(p) => json!(["ok", ["U", name(&p)]]),
            Err(_) => json!(["err"]),
        },
        "print" => json!(["s", named(0)?.to_string()]),
        "into" => {
            let s: String = named(0)?.into();
            json!(["s", s])
        }
        "order" => {
            let (a, b) = (named(0)?, named(1)?);
            let o = a.cmp(&b);
            if a.partial_cmp(&b) != Some(o) || (a == b) != (o == std::cmp::Ordering::Equal) || (a != b) == (a == b) {
                json!(["s", "inconsistent"])
            } else {
                json!(["s", format!("{o:?}")])
            }
        }
        "latest" => json!(["U", name(&P::latest())]),
        "supported" => json!(["V", list(P::supported_versions(c["a"][0][1].as_bool().unwrap_or(false)))]),
        // A server's choice, as an application would write it: the asked version if it is known,
        // otherwise the latest.
        "choose" => json!(["s", P::try_from(text(0)?.as_str()).unwrap_or(P::latest()).to_string()]),
        x => return Err(format!("harness: no version function {x}")),
    };
    let o = if v[0] == "s" { json!(v[1].to_string()) } else { V::Null };
    Ok(json!({"v": v, "o": o}))
}

fn run(c: &V) -> Result<V, String> {
    if c["op"] == "conv" {
        return conversation(c);
    }
    if c["op"] == "version" {
        return version(c);
    }
    match c["ver"].as_str().unwrap_or("") {
        #[cfg(feature = "v2024_11_05")]
        "2024_11_05" => go!(g2024_11_05, c),
        #[cfg(feature = "v2025_03_26")]
        "2025_03_26" => go!(g2025_03_26, c),
        #[cfg(feature = "v2025_06_18")]
        "2025_06_18" => go!(g2025_06_18, c),
        #[cfg(feature = "v2025_11_25")]
        "2025_11_25" => go!(g2025_11_25, c),
        #[cfg(feature = "v2026_07_28")]
        "2026_07_28" => go!(g2026_07_28, c),
        #[cfg(feature = "vdraft")]
        "draft" => go!(gdraft, c),
        x => Err(format!("harness: version {x} not built")),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // Deep documents: give the interpreter room.
    let th = std::thread::Builder::new().stack_size(256 << 20).spawn(|| {
        let stdin = std::io::stdin();
        let mut out = std::io::BufWriter::new(std::io::stdout());
        for line in stdin.lock().lines() {
            let line = line.expect("read");
            if line.is_empty() {
                continue;
            }
            let r = match serde_json::from_str::<V>(&line) {
                Err(e) => json!({"harness": e.to_string()}),
                Ok(c) => match catch_unwind(AssertUnwindSafe(|| run(&c))) {
                    Ok(Ok(v)) => v,
                    Ok(Err(e)) => json!({ "harness": e }),
                    Err(p) => {
                        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
                        json!({"panic": m.unwrap_or_default()})
                    }
                },
            };
            writeln!(out, "{r}").expect("write");
            out.flush().expect("flush");
        }
        out.flush().expect("flush");
    });
    th.expect("spawn").join().expect("worker");
}
