#![allow(warnings)]
//! Prints what the crate under test offers with the features it was built with: the version at the
//! root, the version of each module, whether the utilities are there, and whether the root's types
//! are those of some module.  Names that the crate does not offer resolve to the stand-ins below,
//! because a glob import of an inner block goes before the names around it.
use serde_json::{json, Value as V};
use std::any::type_name;

pub const LATEST_PROTOCOL_VERSION: &str = "none";
pub const JSONRPC_VERSION: &str = "none";
#[derive(Debug)]
pub struct Tool;
#[derive(Debug)]
pub struct Implementation;
pub mod schema_utils {
    pub struct ClientMessage;
    pub struct ServerMessage;
}
pub fn here(n: &str) -> bool {
    !n.starts_with("combos::")
}

macro_rules! module {
    ($ms:ident, $f:literal, $m:ident) => {
        #[cfg(feature = $f)]
        {
            use rust_mcp_schema::$m as m;
            #[cfg(feature = "has_utils")]
            let utils = (type_name::<m::schema_utils::ClientMessage>(), type_name::<m::schema_utils::ServerMessage>());
            #[cfg(not(feature = "has_utils"))]
            let utils = ("combos::none", "combos::none");
            $ms.push((stringify!($m), m::LATEST_PROTOCOL_VERSION, type_name::<m::Tool>(), utils));
        }
    };
}

fn main() {
    let (root, rpc, tool, imp, utils) = {
        use rust_mcp_schema::*;
        (LATEST_PROTOCOL_VERSION, JSONRPC_VERSION, type_name::<Tool>(), type_name::<Implementation>(), type_name::<schema_utils::ClientMessage>())
    };
    let mut ms: Vec<(&str, &str, &str, (&str, &str))> = Vec::new();
    module!(ms, "has_2024_11_05", mcp_2024_11_05);
    module!(ms, "has_2025_03_26", mcp_2025_03_26);
    module!(ms, "has_2025_06_18", mcp_2025_06_18);
    module!(ms, "has_2025_11_25", mcp_2025_11_25);
    module!(ms, "has_2026_07_28", mcp_2026_07_28);
    module!(ms, "has_draft", mcp_draft);
    let mut same: Vec<&str> = ms.iter().filter(|m| here(m.2) && m.2 == tool).map(|m| m.0).collect();
    let mut usame: Vec<&str> = ms.iter().filter(|m| here(m.3 .0) && m.3 .0 == utils).map(|m| m.0).collect();
    let modules: serde_json::Map<String, V> =
        ms.iter().map(|m| (m.0.to_string(), json!({"version": m.1, "utils": here(m.3 .0) && here(m.3 .1)}))).collect();
    println!(
        "{}",
        json!({"root": root, "rootIs": same, "rootUtils": usame, "modules": modules, "latest": rust_mcp_schema::ProtocolVersion::latest().to_string()})
    );
}
