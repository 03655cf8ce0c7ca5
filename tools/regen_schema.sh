#!/bin/bash
# By hand only: re-transcribe all tables from a source tree (default /repo).
R=${1:-/repo}; D=/tmp/dumpt
(cd /verif/tools/dump && CARGO_TARGET_DIR=$D cargo build --offline -q)
for v in 2024_11_05 2025_03_26 2025_06_18 2025_11_25 2026_07_28 draft; do
  d=$R/src/generated_schema/$v; mkdir -p /verif/spec/$v
  $D/debug/dump $d/validators.rs $d/mcp_schema.rs $d/schema_utils.rs > /tmp/dump_$v.json
  python3 /verif/tools/gen_schema.py $v /tmp/dump_$v.json /verif/spec/$v/Schema.tla
done
