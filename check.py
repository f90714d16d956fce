#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]

Decides one property of /repo's current tree:
 1. extracts the functions the property depends on from /repo's source, joins them with their contracts
    (overlay/) and has Verus discharge every obligation (units.json says which units and functions);
 2. runs the same contracts as executable assertions on the real crate (harness/, py/c15.py, wasm/c16.py) to find a
    concrete failing input, and as the bounded stand-in for whatever step 1 could not bring in reach.
Exit 0: held on everything explored.  Exit 1: VIOLATION line on stdout.
"""
import sys, os, json, fnmatch, subprocess, time, fcntl, shutil, re, signal, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
T = os.path.join(V, "target") if REPO == "/repo" else os.path.join(V, "target", "of" + REPO.replace("/", "-"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=os.environ.get("VERIF_TOOLCHAIN", "1.99.1"), CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0", CARGO_TERM_COLOR="never")
T0 = time.time()
BUDGET = 820 if TIER == "quick" else 3400
def left(): return BUDGET - (time.time() - T0)
def log(*a): print(*a, file=sys.stderr, flush=True)

def run(cmd, timeout, cwd=None, env=None, out=None, err=None):
    """(rc, stdout, stderr); rc None on timeout"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        o, e = p.communicate(timeout=max(1, timeout))
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return None, o, e

class Lock:
    def __init__(self, name): os.makedirs(T, exist_ok=True); self.f = open(os.path.join(T, name + ".lock"), "w")
    def __enter__(self): fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def cargo(dir_, target, args, extra=None, timeout=500):
    env = dict(ENV, CARGO_TARGET_DIR=target, **(extra or {}))
    with Lock(os.path.basename(target)):
        return run(["cargo"] + args, timeout, cwd=dir_, env=env)

def build_extract():
    rc, o, e = cargo(os.path.join(V, "extract"), os.path.join(T, "extract"), ["build", "--offline", "-q"])
    if rc != 0: return None, e
    return os.path.join(T, "extract/debug/extract"), ""
def build_harness():
    rc, o, e = cargo(os.path.join(V, "harness"), os.path.join(T, "harness"), ["build", "--release", "--offline", "-q"])
    if rc != 0: return None, e
    return os.path.join(T, "harness/release/vh"), ""
def with_lock(f):
    """/repo's lock file is not in git; cargo must not resolve anew, and must leave the tree as it was"""
    lock, made = os.path.join(REPO, "Cargo.lock"), False
    if not os.path.exists(lock):
        shutil.copy(os.path.join(V, "py/Cargo.lock.repo"), lock); made = True
    try: return f()
    finally:
        if made: os.unlink(lock)
def build_py():
    rc, o, e = with_lock(lambda: cargo(REPO, os.path.join(T, "py"), ["build", "--lib", "--features", "python", "--offline", "-q"], {"CARGO_PROFILE_DEV_OPT_LEVEL": "2"}))
    if rc != 0: return None, e
    so = os.path.join(T, "py/cosmian_abe_gpsw.so")
    shutil.copy(os.path.join(T, "py/debug/libcosmian_abe_gpsw.so"), so)
    return so, ""
def build_wasm():
    tool = shutil.which("wasm-bindgen") or "/opt/vp/tools/bin/wasm-bindgen"
    for t in (tool, shutil.which("node")):
        if not t or not os.path.exists(t): return None, "wasm-bindgen or node is missing"
    rc, o, e = with_lock(lambda: cargo(REPO, os.path.join(T, "wasm"), ["build", "--lib", "--features", "wasm_bindgen", "--target", "wasm32-unknown-unknown", "--offline", "-q"],
                                       {"CARGO_PROFILE_DEV_OPT_LEVEL": "2", "CARGO_PROFILE_DEV_DEBUG": "0"}))
    if rc != 0: return None, e
    out = os.path.join(T, "wasm/node")
    rc, o, e = run([tool, "--target", "nodejs", "--out-dir", out, os.path.join(T, "wasm/wasm32-unknown-unknown/debug/cosmian_abe_gpsw.wasm")], 120)
    if rc != 0: return None, e
    return os.path.join(out, "cosmian_abe_gpsw.js"), ""
MODULES = {"C15": (build_py, "py/c15.py"), "C16": (build_wasm, "wasm/c16.py")}

# ---------------------------------------------------------------- deductive part
def verus_once(ext, unit, wd, stubs, rl, flat=()):
    gen, meta = f"{wd}/{unit}.rs", f"{wd}/{unit}.json"
    cmd = [ext, "--repo", REPO, "--overlay", f"{V}/overlay/{unit}.ov", "--out", gen, "--meta", meta]
    for s in stubs: cmd += ["--stub", s.split(".rs::", 1)[-1]]
    rc, o, e = run(cmd, 60)
    if rc != 0: return {"state": "extract-failed", "why": e[-2000:]}
    m = json.load(open(meta))
    if flat:
        # loops of these functions keep what is known before them
        lines = open(gen).read().split("\n")
        for f in m["functions"]:
            if f["key"] in flat and f.get("start"): lines[f["start"] - 1] = "#[verifier::loop_isolation(false)] " + lines[f["start"] - 1]
        open(gen, "w").write("\n".join(lines))
    cmd = ["verus", f"{unit}.rs", "--triggers-mode", "silent", "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", "3"]
    if rl: cmd += ["--rlimit", "40", "--smt-option", f"smt.random_seed={rl}"]
    rc, o, e = run(cmd, min(300, left()), cwd=wd, env=dict(os.environ))
    r = {"meta": m, "cmd": " ".join(cmd), "diags": [], "gen": gen}
    if rc is None: r["state"] = "timeout"; return r
    for line in e.splitlines():
        try: d = json.loads(line)
        except Exception: continue
        if d.get("level") == "error" and d.get("spans"): r["diags"].append(d)
    try: j = json.loads(o)
    except Exception: j = None
    if not j or "verification-results" not in j or "verified" not in j["verification-results"]:
        r["state"] = "compile-error"; r["stderr"] = e[-3000:]; return r
    vr = j["verification-results"]
    r["verified"], r["errors"] = vr["verified"], vr["errors"]
    if vr.get("encountered-vir-error") or (vr["errors"] == 0 and not vr.get("success")):
        r["state"] = "compile-error"; r["stderr"] = e[-3000:]; return r
    r["funcs"] = {}
    for mod in j["times-ms"].get("smt", {}).get("smt-run-module-times", []):
        for f in mod.get("function-breakdown", []):
            n = f["function"].split("::", 1)[1] if "::" in f["function"] else f["function"]
            r["funcs"].setdefault(n, {"mode": f.get("mode:", f.get("mode")), "ms": 0, "ok": True})
            r["funcs"][n]["ms"] += f["time-micros"] / 1000
            r["funcs"][n]["ok"] &= bool(f["success"])
    r["smt_ms"] = j["times-ms"].get("smt", {}).get("smt-run", 0)
    r["state"] = "ok" if vr["errors"] == 0 else "failed"
    return r

def owner(meta, d):
    """the extracted function a diagnostic belongs to"""
    hits = []
    for sp in d["spans"]:
        lab = sp.get("label") or ""
        if "failed precondition" in lab: continue
        for f in meta["functions"]:
            # a postcondition may stand in the trait: the function is the one whose body is pointed at
            if "start" in f and f["start"] <= sp["line_start"] <= f["end"]: hits.append(("failed this postcondition" in lab, not sp.get("is_primary"), f["key"]))
    hits.sort()
    return hits[0][2] if hits else None

def verify_unit(ext, unit, wd):
    os.makedirs(wd, exist_ok=True)
    stubs, why = [], {}
    rl, first = 0, None
    for attempt in range(8):
        last = r if attempt else None
        r = verus_once(ext, unit, wd, stubs, rl, first if rl == 2 else ())
        if rl == 2 and r["state"] not in ("ok", "failed"): r = last; break
        if r["state"] == "compile-error":
            keys = {owner(r["meta"], d) for d in r["diags"]} - {None} - set(stubs)
            if not keys:
                r["unusable"] = "the extracted unit is not accepted by the verifier's front end: " + "; ".join(d["message"] for d in r["diags"])[:800] + r.get("stderr", "")[-500:] * (not r["diags"])
                break
            for k in keys: why[k] = "outside the verifier's dialect: " + "; ".join(d["message"] for d in r["diags"] if owner(r["meta"], d) == k)[:400]
            stubs += sorted(keys); continue
        if r["state"] == "failed":
            now = {owner(r["meta"], d) for d in r["diags"]}
            first = now if first is None else first & now
            if rl < 2 and left() > 300: rl += 1; continue  # two slower runs with other solver seeds before anything is reported
        break
    r["stubs"], r["why"] = stubs, why
    # classify
    r["failed"], r["undecided"] = {}, {}
    if "meta" in r:
        for f in r["meta"]["functions"]:
            if f["status"] not in ("extracted", "declared", "assumed"): r["undecided"][f["key"]] = why.get(f["key"], "; ".join(f.get("lost", []) + f.get("notes", [])) or f["status"])
    if r["state"] in ("extract-failed", "timeout", "compile-error"):
        r.setdefault("unusable", r["state"] + " " + r.get("why_text", r.get("why", {}).__str__())[:800])
        return r
    for d in r["diags"]:
        k = owner(r["meta"], d)
        txt = d.get("rendered") or d["message"]
        if k is None: r["undecided"]["(lemmas)"] = r["undecided"].get("(lemmas)", "") + txt[:600]
        elif first is not None and k not in first: r["undecided"][k] = "proved in another solver run"
        elif re.search(r"rlimit|resource limit|timed? ?out", d["message"], re.I): r["undecided"][k] = d["message"]
        else: r["failed"].setdefault(k, []).append(txt)
    # annotations carried over to renamed locals: a proof that is not found then says nothing
    renamed = {f["key"] for f in r["meta"]["functions"] if any("locals renamed" in n for n in f.get("notes", []))} if "meta" in r else set()
    for k in list(r["failed"]):
        if k in renamed: r["undecided"][k] = "locals have other names, and the proof is not found with them"
        if k in r["undecided"]: del r["failed"][k]
    return r

def trusted_scan(gen):
    """every unproved statement in the generated unit"""
    out = []
    src = open(gen).read()
    for m in re.finditer(r"(#\[verifier::external_body\]|assume_specification|\baxiom fn|\buninterp spec fn|\bassume\(|\badmit\(|external_type_specification)[^\n]*", src):
        line = m.group(0)
        if line.strip() == "#[verifier::external_body]":
            line += " " + src[m.end():m.end() + 200].strip().split("\n")[0]
        out.append(re.sub(r"\s+", " ", line)[:160])
    return out

# ---------------------------------------------------------------- executable part
def harness(prop, conf, vh, so, out_dir):
    """(report dict, failure or None)"""
    os.makedirs(out_dir, exist_ok=True)
    res = {"evals": [], "samples": [], "known": [], "failure": None}
    secs = max(20, min(conf.get("secs", 300) if TIER == "quick" else 2400, left() - 60))
    if prop in MODULES: base = ["python3", f"{V}/{MODULES[prop][1]}", so, vh, str(SEED), TIER]
    else: base = [vh, "run", prop, str(SEED), TIER]
    def once(extra, secs, name):
        of = f"{out_dir}/{prop}-{name}.json"
        if os.path.exists(of): os.unlink(of)
        cmd = base + [str(int(secs)), of] + extra
        rc, o, e = run(cmd, secs + 45, env=dict(ENV, **({"VH_ECHO": "1"} if extra else {})))
        j = json.load(open(of)) if os.path.exists(of) else None
        return cmd, rc, o, e, j
    cmd, rc, o, e, j = once([], secs, "all")
    if j: res.update({k: j[k] for k in ("evals", "samples", "known")})
    if rc == 0 and j: return res, None
    if rc == 1 and j and j["failure"]:
        f = j["failure"]
        f["replay"] = " ".join(base + ["120", "/tmp/out.json", f["kind"], str(f["index"]), str(f["index"] + 1)])
        return res, f
    # the process died or hung
    kinds = re.findall(r"^KIND (.*)$", o, re.M)
    h = re.search(r"^HANG (\S+) (\d+)", o, re.M)
    if rc is None and not h and not kinds: return res, {"kind": "?", "index": 0, "input": "", "what": "harness timeout", "tool": True}
    if h:
        return res, {"kind": h.group(1), "index": int(h.group(2)), "input": "", "what": "does not return", "replay": " ".join(base + ["120", "/tmp/out.json", h.group(1), h.group(2), str(int(h.group(2)) + 1)])}
    if rc is None: return res, None   # out of time: whatever was explored held
    if not kinds: return res, {"kind": "?", "index": 0, "input": "", "what": f"harness ended with {rc}: {e[-500:]}", "tool": True}
    k = kinds[-1]
    what = f"the process is killed (status {rc}): {e.strip()[-1500:]}"
    n = 1
    if prop not in MODULES:
        for line in run([vh, "kinds", prop], 20)[1].splitlines():
            a = line.split()
            if a[0] == k: n = int(a[2 if TIER == "thorough" else 1])
    else: n = 3000
    lo, hi = 0, n
    def dies(a, b):
        c, rc, o, e, j = once([k, str(a), str(b)], min(secs, 240), "bisect")
        return rc not in (0, 1, None), e
    step = 0
    while hi - lo > 1 and step < 20 and left() > 120:
        mid = (lo + hi) // 2
        d, e2 = dies(lo, mid)
        if d: hi = mid; what = f"the process is killed: {e2.strip()[-1500:]}"
        else: lo = mid
        step += 1
    c, rc, o, e, j = once([k, str(lo), str(hi)], min(secs, 240), "bisect")
    if rc in (0, 1, None):
        lo, hi = 0, n  # only the sequence of cases does it
        c, rc, o, e, j = once([k, str(lo), str(hi)], min(secs, 240), "bisect")
        if rc in (0, 1, None): return res, {"kind": k, "index": 0, "input": "", "what": "killed once, not reproduced: " + what, "tool": True}
    inp = ""
    m = re.findall(r"^INPUT (.*)$", e + "\n" + o, re.M)
    if m: inp = m[-1]
    return res, {"kind": k, "index": lo, "input": inp, "what": what, "replay": " ".join(base + ["120", "/tmp/out.json", k, str(lo), str(hi)])}

def known_findings():
    r = {}
    p = f"{V}/known-findings.txt"
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line)
        if m: r[(m.group(1), m.group(2))] = m.group(3).strip()
    return r

def main():
    prop = sys.argv[1]
    conf = json.load(open(f"{V}/units.json"))
    pc = conf["properties"][prop]
    os.makedirs(f"{V}/evidence/replay", exist_ok=True)
    wd = f"{T}/work/{prop}-{os.getpid()}"
    os.makedirs(wd, exist_ok=True)
    try:
        rc = decide(prop, conf, pc, wd)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    sys.exit(rc)

def decide(prop, conf, pc, wd):
    with cf.ThreadPoolExecutor(8) as ex:
        fx, fh = ex.submit(build_extract), ex.submit(build_harness)
        fp = ex.submit(MODULES[prop][0]) if prop in MODULES else None
        ext, exe = fx.result()
        if ext is None: log("extractor build failed:", exe[-2000:])
        fu = {u: ex.submit(verify_unit, ext, u, f"{wd}/{u}") for u in pc["units"]} if ext else {}
        vh, he = fh.result()
        so = "-"
        if fp:
            so, se = fp.result()
            if so is None: vh, he = None, se
        if vh: fr = ex.submit(harness, prop, pc, vh, so, wd)
        else: log("harness does not build against this tree:", he[-3000:])
        units = {u: f.result() for u, f in fu.items()}
        hres, hfail = fr.result() if vh else ({"evals": [], "samples": [], "known": [], "failure": None}, None)
    if hfail and hfail.get("tool"): log("harness:", hfail["what"]); hfail = None

    failed, undecided, proved, funcs = {}, {}, [], []
    obligations = discharged = 0
    smt_ms, trusted, cmds = 0, [], []
    for u, fs in pc["units"].items():
        r = units.get(u, {"unusable": "extractor not available", "undecided": {}, "failed": {}})
        if "cmd" in r: cmds.append(r["cmd"])
        if r.get("unusable"):
            undecided[u] = r["unusable"]; obligations += len(fs); continue
        obligations += r["verified"] + r["errors"]; discharged += r["verified"]
        smt_ms += r["smt_ms"]; trusted += [t for t in trusted_scan(r["gen"]) if t not in trusted]
        metas = {f["key"]: f for f in r["meta"]["functions"]}
        keys = []
        for pat in fs:
            ks = [k for k in metas if fnmatch.fnmatchcase(k.split(".rs::", 1)[-1], pat)]
            if not ks: undecided[pat] = "not found in the source"
            keys += [k for k in ks if k not in keys]
        for k in keys:
            if k in r["failed"]: failed[k] = (u, r["failed"][k])
            elif k in r["undecided"]: undecided[k] = r["undecided"][k]
            elif metas[k]["status"] in ("assumed", "declared"): pass
            else: proved.append(k)
        for k, w in r["undecided"].items():
            if k not in keys: undecided[f"{k} (relied on)"] = w
        for k, w in r["failed"].items():
            if k not in keys: undecided[f"{k} (relied on, contract not met)"] = w[0][:300]
        if r["verified"] == 0: undecided[u] = "no obligation was generated"
    kf = known_findings()
    evals = sum(n for _, n in hres["evals"])
    violations, lines = 0, []
    replay = f"{V}/evidence/replay/{prop}.json"
    if os.path.exists(replay): os.unlink(replay)
    for k in hres["known"]:
        if (prop, k) in kf: lines.append(f"KNOWN-FINDING: property={prop} {kf[(prop, k)]}")
        elif not hfail: hfail = {"kind": "known", "index": 0, "input": k, "what": f"finding {k} is not listed"}
    vio = None
    if hfail:
        violations = 1
        json.dump({"property": prop, "failing_input": hfail, "failed_obligations": {k: v[1] for k, v in failed.items()}}, open(replay, "w"), indent=1)
        vio = f"VIOLATION property={prop} replay={replay}"
        log("failing input:", hfail["kind"], hfail["index"], hfail["what"][:1500], "\ninput:", hfail["input"][:1500])
    elif failed:
        violations = len(failed)
        json.dump({"property": prop, "failed_obligations": {k: {"unit": u, "verifier_output": t} for k, (u, t) in failed.items()}, "executable_search": hres["evals"]}, open(replay, "w"), indent=1)
        vio = f"VIOLATION property={prop} replay={replay} no-failing-input-found"
        for k, (u, t) in failed.items(): log("failed obligation of", k, ":", t[0][:1500])
    for k, w in undecided.items(): log("not decided by the verifier (bounded search stands in):", k, "--", w[:300])
    bounded = bool(undecided) or pc.get("bounded")
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "; ".join(cmds) or "none", "trusted_base": conf.get("trusted_base", []) + trusted,
        "functions_under_contract": sorted(proved), "functions_failed": sorted(failed), "functions_undecided": undecided,
        "bounded_parts": pc.get("bounded", []), "backend": "Verus 0.2026.09.13 / Z3", "smt_ms": round(smt_ms),
        "all_obligations_discharged": not undecided and not failed,
        "evaluations": evals, "distinct_nontrivial": evals,
        "rule": pc.get("rule", "seeded generation per kind (kind, count): every generated case executes the property's assertions on the real crate; cases are distinct by index"),
        "evaluations_by_kind": hres["evals"], "samples": hres["samples"][:6] or ["none"],
    }
    for u, r in units.items():
        if "funcs" in r: cov.setdefault("solver_time_ms", {}).update({k: round(f["ms"], 1) for k, f in r["funcs"].items() if any(m["name"].split("::")[-1] == k.split("::")[-1] for m in r["meta"]["functions"])})
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": pc["level"], "coverage": cov, "assumptions": conf.get("assumptions", []) + pc.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": violations}
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    print(f"{prop}: {discharged}/{obligations} obligations discharged, {len(proved)} functions under contract proved, {len(undecided)} undecided; {evals} executable cases; {time.time() - T0:.0f}s")
    for l in lines: print(l)
    if vio: print(vio); return 1
    return 0

if __name__ == "__main__": main()
