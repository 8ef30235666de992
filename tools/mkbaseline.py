#!/usr/bin/env python3
"""regenerate specs/baseline.json: per property, the loop/closure skeleton of every extracted
function and the functions whose obligations must be discharged (run on the unchanged tree)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
ids = sys.argv[1:] or sorted(x[:-4].upper() for x in os.listdir(f"{check.V}/specs") if x.endswith(".vrs"))
path = f"{check.V}/specs/baseline.json"
base = json.load(open(path)) if os.path.exists(path) else {}
for pid in ids:
    base.setdefault(pid, {}); base[pid] = {}
    json.dump(base, open(path, "w"), indent=1, sort_keys=True)
    p = check.Proof(pid, "quick"); p.run()
    if p.status != "proved" and not (p.res and p.res["success"]):
        print(pid, p.status, p.why, [x["function"] + ": " + x["obligation"] for x in p.failed][:5]); continue
    base[pid] = {"skeleton": {f"{i['file']}::{i['item']}": i["skeleton"] for i in p.meta["items"] if "skeleton" in i},
                 "hash": {f"{i.get('file')}::{i['item']}": i.get("hash") or i.get("elements") for i in p.meta["items"]},
                 "calls": sorted({c for i in p.meta["items"] for c in i.get("calls", [])}),
                 "functions": sorted({f["function"].split("::", 1)[1] for f in p.res["funcs"] if f.get("success")})}
    print(pid, p.status, p.why, p.res["verified"])
json.dump(base, open(path, "w"), indent=1, sort_keys=True)
