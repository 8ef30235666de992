#!/usr/bin/env python3
"""mkseed.py [ids..]: (re)build /verif/seeded/<id> from bugs.py and verify each against a scratch copy of /repo"""
import sys, os, subprocess, json, shutil
H = os.path.dirname(os.path.abspath(__file__)); V = "/verif"
sys.path.insert(0, H)
from bugs import BUGS
R = "/tmp/seedrepo"
def sh(c, cwd=None): 
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace"); return p.returncode, p.stdout
TEST = ". /opt/vp/env.sh; cd /tmp/seedrepo && cargo build --offline --locked 2>&1 | tail -5 && cargo test --offline --locked 2>&1"
stable = [s.split("burn_fm::bin/burn_fm::")[1] for s in json.load(open("/opt/vp/BASELINE.json"))["stable"]]
def tests():
    rc, o = sh(TEST)
    return [s for s in stable if f"test {s} ... ok" not in o], o
ids = sys.argv[1:] or [b["id"] for b in BUGS]
if not os.path.exists(R):
    sh("cp -a /repo /tmp/seedrepo")
sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", R)
for b in BUGS:
    if b["id"] not in ids: continue
    d = f"{V}/seeded/{b['id']}"; os.makedirs(d, exist_ok=True)
    sh("git checkout -q -- .", R)
    for (f, old, new) in b["edits"]:
        t = open(f"{R}/{f}").read(); n = b.get("count", 1)
        assert t.count(old) == n, (b["id"], f, t.count(old))
        open(f"{R}/{f}", "w").write(t.replace(old, new))
    rc, diff = sh("git diff", R)
    open(f"{d}/patch.diff", "w").write(diff)
    demo = open(f"{H}/demo.sh.tmpl").read().replace("@ID@", b["id"])
    mount = ""
    if b.get("mount"):  # demo inside a module for private items
        mount = f'printf \'\\npub mod vp_inner {{ use super::*;\\n\' >> "$S/src/{b["mount"]}"; cat "$D/inner.rs" >> "$S/src/{b["mount"]}"; printf \'\\n}}\\n\' >> "$S/src/{b["mount"]}"'
        open(f"{d}/inner.rs", "w").write(b["inner"])
    open(f"{d}/demo.sh", "w").write(demo.replace("@MOUNT@", mount)); os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/demo.rs", "w").write(b["demo"])
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    bad, o = tests()
    r1, o1 = sh(f"bash {d}/demo.sh", R)
    sh("git checkout -q -- .", R)
    r0, o0 = sh(f"bash {d}/demo.sh", R)
    print(b["id"], "tests:", "OK" if not bad else ("BAD", bad, o[-1500:]), "demo patched rc", r1, "unpatched rc", r0, "OK" if r1 != 0 and r0 == 0 and not bad else "PROBLEM")
    print("   patched:", o1.strip()[-300:].replace("\n", " | "))
    if r0: print("   unpatched:", o0[-1500:])
