#!/usr/bin/env python3
"""regenerate MANIFEST.json from properties.jsonl, the units in specs/ and the notes below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl") if l.strip()]
notes = json.load(open(f"{V}/tools/levels.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/specs/{i.lower()}.vrs"):
        n = notes["checks"].get(i, {})
        c = {"property": i, "quick_cmd": f"python3 tools/check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {i}",
             "evidence_file": f"evidence/{i}.json",
             "technique": n.get("technique", "contract-based deductive verification (Verus) of the functions extracted mechanically from /repo/src on every run; failed obligations replayed on the real code"),
             "level": n.get("level", "proof"),
             "level_note": n.get("note", "Verus discharges every obligation for all inputs; trusted items are listed in evidence coverage.trusted_base.")}
        if n.get("theorems"):
            c["theorems"] = n["theorems"]
        checks.append(c)
    else:
        na.append({"property": i, "reason": notes["not_applicable"].get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "cd tools/vx && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/build/vx RUSTUP_TOOLCHAIN=1.98.1 cargo build --offline --locked",
     "checks": checks, "not_applicable": na, "notes": notes.get("notes", "")}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
