#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--no-native] [--no-proof] [--replay FILE]

Decides one property on /repo's current working tree.

1. proof: vx copies the functions under contract out of /repo/src into one Verus file per
   property (template: specs/<id>.vrs) and Verus discharges every obligation; a second run with
   `assert(false)` at every body start must fail everywhere (vacuity guard).
2. replay: a scratch copy of /repo/src with native/<ID>.rs mounted searches for an input on which
   the real code breaks the property (used to give a failed obligation its failing input, and as
   the bounded stand-in when the proof cannot be re-established on a restructured function).
"""
import json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
B = os.environ.get("VP_BUILD", os.path.join(V, "build"))
PROPS = {json.loads(l)["id"]: json.loads(l) for l in open(f"{V}/properties.jsonl") if l.strip()}

SEMANTIC = [
    "postcondition not satisfied", "precondition not satisfied", "assertion failed", "assertion not satisfied",
    "invariant not satisfied", "possible arithmetic underflow/overflow", "possible division by zero",
    "decreases not satisfied", "could not prove termination", "possible bit shift underflow/overflow",
    "loop invariant not satisfied", "unable to prove", "recommendation not met", "requires not satisfied",
    "ensures not satisfied", "split assertion failure", "split precondition failure", "split postcondition failure",
    "constructor precondition", "might be out of bounds", "unreachable",
]


def env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="1.98.1", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_PROFILE_DEV_DEBUG="0", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e.pop("CARGO_TARGET_DIR", None)
    return e


def sh(cmd, timeout=600, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as ex:
        return 124, str(ex.stdout or ""), f"timeout after {timeout} s"


def build_vx():
    exe = f"{B}/vx/debug/vx"
    e = env(); e["CARGO_TARGET_DIR"] = f"{B}/vx"
    rc, o, err = sh(["cargo", "build", "--offline", "--locked"], cwd=f"{V}/tools/vx", env=e, timeout=600)
    if rc != 0:
        raise RuntimeError("vx does not build: " + err[-2000:])
    return exe


def run_verus(rs, extra=(), timeout=700):
    e = env()
    cmd = ["verus", rs, "--triggers-mode", "silent", "--output-json", "--time-expanded", "--error-format=json",
           "--multiple-errors", "20", "--num-threads", "4"] + list(extra)
    t0 = time.time()
    rc, out, err = sh(cmd, timeout=timeout, env=e, cwd=os.path.dirname(rs))
    d = {}
    i = out.find("{")
    if i >= 0:
        try:
            d = json.loads(out[i:])
        except ValueError:
            d = {}
    diags = []
    for l in err.splitlines():
        if l.startswith("{"):
            try:
                j = json.loads(l)
            except ValueError:
                continue
            if j.get("level") == "error" and not j["message"].startswith("aborting due to"):
                diags.append(j)
    funcs = []
    for m in d.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        funcs += m.get("function-breakdown", [])
    vr = d.get("verification-results", {})
    smt = d.get("times-ms", {}).get("smt", {}).get("total", 0) / 1000.0
    return {"rc": rc, "cmd": " ".join(cmd), "verified": vr.get("verified", 0), "errors": vr.get("errors", 0),
            "vir_error": vr.get("encountered-vir-error", True), "success": vr.get("success", False),
            "diags": diags, "funcs": funcs, "smt_s": smt, "wall": time.time() - t0, "stderr": err[-4000:], "complete": bool(vr)}


def item_at(meta, line):
    for it in meta["items"]:
        g = it.get("gen_lines")
        if g and g[0] <= line <= g[1]:
            return it
    return None


# calls the verifier's own library specifies completely, on the types it accepts them for
EXACT = {"len", "is_empty", "push", "pop", "clear", "truncate", "clone", "unwrap", "is_some", "is_none", "is_ok", "is_err", "Some", "Ok", "Err", "iter", "next",
         "wrapping_add", "wrapping_sub", "wrapping_mul", "checked_add", "checked_sub", "checked_mul"}


def trusted_scan(rs):
    """mechanical scan of the verified text for anything that is assumed"""
    t = open(rs).read()
    out = []
    for m in re.finditer(r"#\[verifier::external_body\]\s*((?:#\[[^\]]*\]\s*)*)(?:pub )?(?:uninterp |open |closed |proof |spec )*(?:fn|struct)\s+(\w+)", t):
        out.append("external_body " + m.group(2))
    for m in re.finditer(r"assume_specification[^\[]*\[\s*([^\]]+?)\s*\]", t):
        out.append("assume_specification " + m.group(1))
    for m in re.finditer(r"\b(assume|admit)\s*\(", t):
        out.append(f"{m.group(1)} at generated line {t.count(chr(10), 0, m.start()) + 1}")
    for m in re.finditer(r"#\[verifier::(external|accept_recursive_types|reject_recursive_types|exec_allows_no_decreases_clause|external_type_specification)\]", t):
        out.append("attribute " + m.group(1))
    for m in re.finditer(r"uninterp spec fn (\w+)", t):
        out.append("uninterpreted " + m.group(1))
    return sorted(set(out))


class Proof(threading.Thread):
    def __init__(s, pid, tier):
        super().__init__()
        s.pid, s.tier = pid, tier
        s.status = "lost"          # proved | failed | lost
        s.why = ""
        s.meta = None; s.res = None; s.vac = None; s.failed = []; s.trusted = []; s.vacuous = []

    def run(s):
        try:
            s.go()
        except Exception as ex:      # noqa: the caller reports it
            s.status, s.why = "lost", f"internal: {ex}"

    def go(s):
        pid = s.pid.lower()
        d = f"{B}/verus/{pid}"
        os.makedirs(d, exist_ok=True)
        vx = build_vx()
        rs, js = f"{d}/{pid}.rs", f"{d}/{pid}.json"
        rc, o, err = sh([vx, f"{V}/specs/{pid}.vrs", f"{REPO}/src", rs, js])
        if rc != 0:
            s.why = "extraction: " + (err + o).strip()[-600:]
            return
        s.meta = json.load(open(js))
        s.trusted = trusted_scan(rs)
        vrs = f"{d}/{pid}_vacuity.rs"
        rc, o, err = sh([vx, f"{V}/specs/{pid}.vrs", f"{REPO}/src", vrs, f"{d}/{pid}_vacuity.json", "--vacuity"])
        box = {}
        th = threading.Thread(target=lambda: box.update(v=run_verus(vrs, (), 450)))
        th.start()
        rl = ["--rlimit", "400" if s.tier == "thorough" else "150"]
        s.res = run_verus(rs, rl, 700 if s.tier == "thorough" else 450)
        th.join()
        s.vac = box.get("v")
        r = s.res
        if not r["complete"] or (r["vir_error"] and not r["success"]) and r["verified"] + r["errors"] == 0:
            msg = "; ".join(x["message"] for x in r["diags"][:4]) or r["stderr"][-400:]
            s.why = "the verifier does not accept the extracted text: " + msg
            return
        s.rs, s.rl = rs, rl
        s.judge()

    def judge(s):
        """what the diagnostics of s.res mean"""
        r = s.res
        base = json.load(open(f"{V}/specs/baseline.json")).get(s.pid, {})
        soft, hard = [], []
        # modularity: an obligation of an unchanged function depends on its own text and on the specifications only, so its
        # failure beside a change elsewhere is the solver's, not the code's
        hashes = {f"{i.get('file')}::{i['item']}": i.get("hash") or i.get("elements") for i in s.meta["items"]}
        old = base.get("hash", {})
        context = all(hashes.get(f"{i.get('file')}::{i['item']}") == old.get(f"{i.get('file')}::{i['item']}") for i in s.meta["items"] if i["kind"] != "fn")
        changed = any(hashes[k] != old.get(k) for k in hashes)
        known = set(base.get("calls", [])) | EXACT
        text = open(s.rs).read().splitlines()
        for x in r["diags"]:
            line = next((sp["line_start"] for sp in x.get("spans", []) if sp.get("is_primary")), 0)
            lines = [sp["line_start"] for sp in x.get("spans", [])] or [line]
            # the function the obligation belongs to: the last span inside an extracted item
            it = None
            for l in [line] + lines:
                it = item_at(s.meta, l) or it
            if it is None:
                it = {"item": "lemma", "file": "specs", "skeleton": None}
            name = f"{it.get('file')}::{it.get('item')}"
            near = next((m.group(1) for l in range(min(max(lines + [line]), len(text)) - 1, -1, -1) for m in [re.search(r"\bfn (\w+)", text[l])] if m), "")
            rec = {"function": name, "obligation": x["message"], "text": (x.get("rendered") or x["message"])[:3000], "key": name if it["file"] != "specs" else f"specs::{near}"}
            sem = any(k in x["message"] for k in SEMANTIC)
            same = it.get("skeleton") is None or base.get("skeleton", {}).get(name) == it.get("skeleton")
            untouched = changed and context and (it["file"] == "specs" or hashes.get(name) == old.get(name))
            new = sorted(set(it.get("calls", [])) - known) if known != EXACT else []
            if sem and same and not untouched and not new and not it.get("notes"):
                hard.append(rec)
            else:
                rec["undecided"] = ("outside the verifier's reach" if not sem else "this function is unchanged and so are the contracts it relies on" if untouched
                                    else f"it calls {', '.join(new)}, for which this unit has no contract" if same and new
                                    else "the loops or closures of this function changed, so its annotations no longer apply")
                soft.append(rec)
        s.failed = hard + soft
        if hard:
            s.status = "failed"
            return
        if soft or not r["success"]:
            s.status = "lost"
            s.why = "; ".join(f"{x['function']}: {x['obligation']} ({x['undecided']})" for x in soft[:4]) or "verifier reported no success"
            return
        s.guards(base)

    def again(s, timeout):
        """the failed functions once more under other solver seeds: a function accepted in any run is proved"""
        runs = [{}, {}]
        ths = [threading.Thread(target=lambda i=i: runs[i].update(run_verus(s.rs, s.rl + ["--smt-option", f"smt.random_seed={7 + 10 * i}"], timeout))) for i in range(2)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        keys = {x["key"] for x in s.failed}
        first, done = s.res, s.res
        for r in runs:
            if not r.get("complete") or r["vir_error"] and not r["success"] and r["verified"] + r["errors"] == 0:
                continue
            s.res = r
            s.judge()
            keys &= {x["key"] for x in s.failed}
            good = {f["function"]: f for f in r["funcs"] if f.get("success")}
            done["funcs"] = [good.get(f["function"], f) for f in done["funcs"]]
            done["smt_s"] += r["smt_s"]
        s.res = done
        s.judge()
        if keys:
            s.failed = [x for x in s.failed if x["key"] in keys]
            if all("undecided" in x for x in s.failed):
                s.status, s.why = "lost", "; ".join(f"{x['function']}: {x['obligation']} ({x['undecided']})" for x in s.failed[:4])
            return
        n = len({x["key"] for x in s.failed})
        done["verified"] += n; done["errors"] = 0; done["success"] = True; done["diags"] = []
        s.failed, s.why, s.status = [], "", "lost"
        s.guards(json.load(open(f"{V}/specs/baseline.json")).get(s.pid, {}))

    def guards(s, base):
        r = s.res
        # accepted: now the guards
        if r["verified"] == 0:
            s.why = "no obligations were generated"
            return
        missing = [n for n in base.get("functions", []) if n not in [f["function"].split("::", 1)[1] for f in r["funcs"] if f.get("success")]]
        if missing:
            s.why = "obligations missing compared with the committed list: " + ", ".join(missing)
            return
        if not s.vac or not s.vac["complete"]:
            s.why = "vacuity guard did not run"
            return
        ok = {f["function"] for f in s.vac["funcs"] if f.get("success")}
        names = {f["function"] for f in s.vac["funcs"]}
        fns = [it["item"] for it in s.meta["items"] if it["kind"] == "fn"]
        for n in fns:
            short = n.split("::")[-1]
            hit = [f for f in names if f.split("::")[-1] == short]
            if hit and all(f in ok for f in hit):
                s.vacuous.append(n)
        if s.vacuous:
            s.why = "contradictory precondition (assert(false) accepted): " + ", ".join(s.vacuous)
            return
        s.status = "proved"


class Native(threading.Thread):
    def __init__(s, pid, tier, secs, only=None):
        super().__init__()
        s.pid, s.tier, s.secs, s.only = pid, tier, secs, only
        s.status, s.why, s.rep = "lost", "", {}

    def run(s):
        try:
            s.go()
        except Exception as ex:
            s.status, s.why = "lost", f"internal: {ex}"

    def build(s):
        src = f"{V}/native/{s.pid}.rs"
        if not os.path.exists(src):
            s.why = "no native harness"
            return None
        d = f"{B}/native/{s.pid}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree(f"{REPO}/src", f"{d}/src")
        for f in ("Cargo.toml", "Cargo.lock"):
            if os.path.exists(f"{REPO}/{f}"):
                shutil.copy(f"{REPO}/{f}", d)
        name = f"vp_{s.pid.lower()}"
        t = open(f"{d}/Cargo.toml").read()
        t = re.sub(r'(?m)^name\s*=\s*"burn_fm"', f'name = "{name}"', t, count=1)
        t += "\n[workspace]\n"
        open(f"{d}/Cargo.toml", "w").write(t)
        l = f"{d}/Cargo.lock"
        if os.path.exists(l):
            x = open(l).read().replace('name = "burn_fm"', f'name = "{name}"')
            open(l, "w").write(x)
        mounts = []
        main = None
        for path in sorted(os.listdir(f"{V}/native")):
            m = re.fullmatch(rf"{s.pid}(?:_(\w+))?\.rs", path)
            if m:
                head = open(f"{V}/native/{path}").readline()
                f = re.match(r"//@ mount (\S+)", head).group(1)
                mounts.append((f, path, m.group(1)))
        for f, path, sub in mounts:
            mod = "vp_check" + (f"_{sub}" if sub else "")
            with open(f"{d}/src/{f}", "a") as fh:
                fh.write(f'\n#[path = "{V}/native/{path}"]\npub mod {mod};\n')
            if not sub:
                mp = f[:-3].replace("/mod", "").replace("/", "::")
                main = ("crate::" if f == "main.rs" else f"crate::{mp}::") + "vp_check::vp_main()"
                use = mp.split("::")
        mt = open(f"{d}/src/main.rs").read()
        mt = re.sub(r"(?m)^(\s*)fn main\s*\(", r"\1fn vp_orig_main(", mt, count=1)
        mt += f'\n#[path = "{V}/native/fw.rs"]\npub mod vp_fw;\nfn main() {{ {main} }}\n'
        open(f"{d}/src/main.rs", "w").write(mt)
        # make the modules nameable from the crate root
        for root, _, files in os.walk(f"{d}/src"):
            if "mod.rs" in files:
                mf = f"{root}/mod.rs"
                x = re.sub(r"(?m)^mod (\w+);", r"pub mod \1;", open(mf).read())
                open(mf, "w").write(x)
        e = env(); e["CARGO_TARGET_DIR"] = f"{B}/native/target"
        e["CARGO_PROFILE_DEV_OPT_LEVEL"] = "1"
        e["RUSTFLAGS"] = "-Awarnings"
        rc, o, err = sh(["cargo", "build", "--offline"], cwd=d, env=e, timeout=800)
        if rc != 0:
            s.why = "harness does not build against this tree: " + err[-1500:]
            return None
        s.d = d
        return f"{B}/native/target/debug/{name}"

    def exec(s, exe, secs, only=None, log=None):
        out = f"{s.d}/out.json"
        if os.path.exists(out):
            os.remove(out)
        e = env()
        e.update(VP_OUT=out, VP_SECS=str(secs), VERIF_TIER=s.tier, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
        if only is not None:
            e["VP_ONLY"] = only
        if log:
            e["VP_LOG"] = log
        scratch = f"{s.d}/scratch"
        os.makedirs(scratch, exist_ok=True)
        try:
            p = subprocess.run([exe], cwd=scratch, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=secs + 120, text=True, errors="replace",
                               preexec_fn=limit)
            rc, err = p.returncode, p.stderr[-1500:]
        except subprocess.TimeoutExpired:
            rc, err = 124, "timeout"
        if os.path.exists(out):
            return rc, json.load(open(out)), err
        return rc, None, err

    def go(s):
        exe = s.build()
        if exe is None:
            return
        rc, rep, err = s.exec(exe, s.secs, s.only)
        if rep is None and rc != 3:
            # the process died (abort, stack overflow, memory): find the case that did it
            log = f"{s.d}/case.log"
            rc, rep, err = s.exec(exe, s.secs * 3, s.only, log)
            if rep is None:
                case = open(log).read() if os.path.exists(log) else ""
                if case and rc != 3 and rc != 124:
                    rep = {"evaluations": 1, "distinct_nontrivial": 1, "rule": "", "samples": [], "known": {},
                           "failure": {"case": case, "why": f"the process died with status {rc}: {err[-300:]}"}}
        if rep is None:
            s.why = f"harness ended with {rc}: {err[-800:]}"
            return
        s.rep = rep
        s.status = "failed" if rep.get("failure") else "passed"


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def known_findings(pid):
    out = {}
    for l in open(f"{V}/known-findings.jsonl"):
        l = l.strip()
        if l:
            d = json.loads(l)
            if d.get("property") == pid and d.get("status") == "known":
                out[d["key"]] = d["what"]
    return out


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--replay" in a:
        f = json.load(open(a[a.index("--replay") + 1]))
        n = Native(pid, f.get("tier", "quick"), 300, f.get("case"))
        os.environ["VERIF_SEED"] = str(f.get("seed", 1))
        n.run()
        print(json.dumps({"status": n.status, "failure": n.rep.get("failure"), "why": n.why}, indent=1))
        return 1 if n.status == "failed" else 0
    t0 = time.time()
    secs = 45 if tier == "quick" else 400
    p = Proof(pid, tier)
    n = Native(pid, tier, secs)
    if "--no-proof" not in a:
        p.start()
    if "--no-native" not in a:
        n.start()
    for t in (p, n):
        if t.ident:
            t.join()
    # an obligation failed and the first search found no input: search deeper
    if p.status == "failed" and n.status == "passed" and tier == "quick":
        n2 = Native(pid, "thorough", 200)
        n2.start()
        p.again(max(60, min(200, 640 - (time.time() - t0))))
        n2.join()
        if n2.status == "failed":
            n = n2
    elif p.status == "failed" and n.status != "failed":
        p.again(max(60, min(200, 640 - (time.time() - t0))))
    known = known_findings(pid)
    repd = f"{V}/evidence/replay"
    os.makedirs(repd, exist_ok=True)
    lines, rc = [], 0
    viol = 0
    nk = (n.rep or {}).get("known", {})
    unlisted = [k for k in nk if k not in known]
    for k, what in known.items():
        if k in nk:
            lines.append(f"KNOWN-FINDING: property={pid} {what} [{k}: {nk[k]['count']} of this run's cases, first {nk[k]['first']}]")
        elif n.status == "lost":
            lines.append(f"KNOWN-FINDING: property={pid} {what} [{k}: not replayed on this run]")
    replay = f"{repd}/{pid}.json"
    if n.status == "failed" or unlisted:
        f = n.rep.get("failure") or {"case": nk[unlisted[0]]["first"], "why": "finding not listed: " + unlisted[0]}
        json.dump({"property": pid, "case": f["case"], "why": f["why"], "seed": seed, "tier": n.tier,
                   "failed_obligations": p.failed[:10], "proof": p.status, "proof_note": p.why,
                   "replay_cmd": f"python3 tools/check.py {pid} --replay {os.path.relpath(replay, V)}"}, open(replay, "w"), indent=1)
        lines.append(f"{pid}: {f['case'][:300]}: {f['why'][:500]}")
        for x in p.failed[:3]:
            lines.append(f"{pid}: failed obligation: {x['function']}: {x['obligation']}")
        lines.append(f"VIOLATION property={pid} replay={os.path.relpath(replay, V)}")
        rc, viol = 1, 1
    elif p.status == "failed":
        json.dump({"property": pid, "failed_obligations": p.failed, "checker_cmd": p.res["cmd"], "verifier_output": [x["text"] for x in p.failed],
                   "note": "every obligation listed passed on the unchanged tree; the search on the real code found no failing input"}, open(replay, "w"), indent=1)
        for x in p.failed[:5]:
            lines.append(f"{pid}: failed obligation: {x['function']}: {x['obligation']}")
        lines.append(f"VIOLATION property={pid} replay={os.path.relpath(replay, V)} no-failing-input-found")
        rc, viol = 1, 1
    elif p.status == "lost" and n.status == "lost":
        lines.append(f"{pid}: no answer: proof: {p.why}; replay: {n.why}")
        rc = 2
    elif p.status == "lost":
        lines.append(f"{pid}: proof not re-established on this tree ({p.why[:300]}); bounded stand-in passed: {n.rep.get('evaluations')} cases")
    else:
        lines.append(f"{pid}: {p.res['verified']} obligations discharged; replay cross-check {n.status} ({n.rep.get('evaluations', 0)} cases)" + (f" [{n.why[:200]}]" if n.status == "lost" else ""))

    cov = {}
    r = p.res or {}
    cov["obligations"] = r.get("verified", 0) + r.get("errors", 0)
    cov["discharged"] = r.get("verified", 0)
    cov["checker_cmd"] = r.get("cmd", "")
    cov["proof_status"] = p.status + (": " + p.why if p.why else "")
    cov["back_end"] = "Verus 0.2026.09.13 (Z3)"
    cov["solver_s"] = r.get("smt_s", 0)
    cov["functions"] = [{"function": f["function"], "mode": f.get("mode:"), "ok": f.get("success"), "solver_ms": f.get("time")} for f in r.get("funcs", [])]
    if p.meta:
        cov["under_contract"] = [{k: it.get(k) for k in ("file", "item", "kind", "src_lines", "hash", "rules", "opts") if it.get(k) is not None} for it in p.meta["items"]]
    cov["trusted_base"] = ["vx extraction (tools/vx): the rewrite rules listed per function", "Verus, vstd specifications and Z3"] + p.trusted
    cov["vacuity_guard"] = f"{len([f for f in (p.vac or {}).get('funcs', []) if not f.get('success')])} functions rejected assert(false) at their start" if p.vac else "not run"
    if p.failed:
        cov["failed_obligations"] = [{k: x[k] for k in ("function", "obligation")} for x in p.failed[:20]]
    b = n.rep or {}
    cov["replay_cross_check"] = {"label": "bounded, not counted as proved", "status": n.status, "note": n.why[:400], "evaluations": b.get("evaluations", 0),
                                 "distinct_nontrivial": b.get("distinct_nontrivial", 0), "rule": b.get("rule", ""), "samples": b.get("samples", []), "time_up": b.get("time_up")}
    level = "proof"
    if p.status != "proved":
        level = "other"
        cov["explanation"] = (f"proof {p.status} on this tree ({p.why or 'see failed_obligations'}); "
                              f"replay {n.status} on {b.get('evaluations', 0)} cases")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": ["external_body, assume_specification and uninterpreted items of coverage.trusted_base are assumed, not proved",
                          "allocation does not fail; usize is 64 bits on the replayed platform"],
          "wall_s": round(time.time() - t0, 2), "violations": viol}
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    print("\n".join(lines))
    return rc


if __name__ == "__main__":
    sys.exit(main())
