#!/usr/bin/env python3
"""check.py <Cxx> [--tier quick|thorough]

Decides one property on /repo's current working tree.

  1. expand    /repo's crate with rustc (-Zunpretty=expanded)
  2. extract   the functions under contract, mechanically, into one Verus crate (tools/extract + specs/)
  3. verify    every obligation with Verus (Z3), plus a canary that has to fail
  4. replay    the compiled, unmodified crate on generated inputs (harness/): looks for the failing input behind a
               failed obligation and is the labelled bounded stand-in for functions outside the verifier's reach

Exit 0: held.  Exit 1: `VIOLATION property=.. replay=..`, ending in no-failing-input-found when only an obligation failed.
"""
import json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FC_REPO", "/repo")
PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if "--tier" in sys.argv:
    TIER = sys.argv[sys.argv.index("--tier") + 1]
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
W = os.path.join(V, ".work", PROP)
T0 = time.time()
EMITS = {"C06", "C07", "C08", "C11", "C12", "C14", "C16", "C17", "C18"}
THOROUGH = TIER == "thorough"
os.makedirs(W, exist_ok=True)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


def run(cmd, timeout, cwd=None, env=None, out=None):
    e = dict(os.environ, CONST_RANDOM_SEED=f"seed{SEED}", CARGO_NET_OFFLINE="true")
    e.pop("RUSTUP_TOOLCHAIN", None)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=open(out, "wb") if out else subprocess.PIPE,
                         stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, er = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, er = p.communicate()
        rc = -99
    return rc, (o or b"").decode(errors="replace"), (er or b"").decode(errors="replace")


# ---------------------------------------------------------------- proof
P = {"status": "not run", "failed": [], "lost": [], "units": [], "verified": 0, "errors": 0, "smt_ms": 0, "cmd": "",
     "trusted": [], "detail": "", "canary": None}


def map_line(m, line):
    for f in m["functions"]:
        if f["start"] <= line < f["end"]:
            return f
    return None


def unit_names(text):
    """(module, fn) -> line, for every fn in the generated file."""
    mods, names, depth = [], {}, 0
    mod = ""
    for n, l in enumerate(text.split("\n"), 1):
        x = re.match(r"pub mod (\w+) \{", l)
        if x:
            mod = x.group(1)
        for x in re.finditer(r"\bfn\s+(\w+)", l):
            names.setdefault((mod, x.group(1)), []).append(n)
    return names


def verus(src, extra, timeout):
    cmd = ["verus", src, "--multiple-errors", "3", "--rlimit", "120", "--output-json", "--time-expanded", "--error-format=json", "--num-threads", "6"] + extra
    P["cmd"] = "verus " + " ".join([os.path.relpath(src, V)] + cmd[2:])
    rc, o, e = run(cmd, timeout, cwd=W)
    diags = []
    for l in e.split("\n"):
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    try:
        res = json.loads(o)
    except ValueError:
        res = None
    return rc, res, [d for d in diags if d.get("level") == "error"], e


def proof():
    ex = os.path.join(V, "tools/extract")
    # the extractor and the expansion are independent
    rx = {}

    def build_extract():
        rx["b"] = run(["cargo", "build", "-q", "--offline", "--locked"], 600, cwd=ex, env={"CARGO_TARGET_DIR": os.path.join(V, ".work/extract")})
    t = threading.Thread(target=build_extract)
    t.start()
    exp = os.path.join(W, "expanded.rs")
    rc, _, err = run(["cargo", "+nightly", "rustc", "-q", "--offline", "-p", "frozen-collections-core", "--lib", "--all-features", "--", "-Zunpretty=expanded"],
                     600, cwd=REPO, env={"CARGO_TARGET_DIR": os.path.join(V, ".work/expand")}, out=exp)
    t.join()
    if rx["b"][0] != 0:
        P.update(status="unavailable", detail="extractor does not build: " + rx["b"][2][-500:])
        return
    if rc != 0:
        P.update(status="unavailable", detail="expansion failed: " + err[-800:])
        return
    log("expanded and extractor ready")
    stubs, why = [], {}
    src, mp = os.path.join(W, "vc.rs"), os.path.join(W, "map.json")
    m, diags = None, []
    for rnd in range(12):
        rc, o, err = run([os.path.join(V, ".work/extract/debug/extract"), "--expanded", exp, "--specs", os.path.join(V, "specs"), "--out", src,
                          "--map", mp, "--stub", "|".join(stubs)], 120)
        if rc != 0:
            P.update(status="unavailable", detail="extraction failed: " + err[-800:])
            return
        m = json.load(open(mp))
        text = open(src).read()
        # structure the invariants hang on changed: the contract cannot be placed
        new = []
        for f in m["functions"]:
            if f["kind"] == "fn" and not f["stub"] and (f["unused_sections"] or f["missed_rewrites"]):
                new.append(f["id"])
                why[f["id"]] = "annotation points gone: " + ", ".join(map(str, f["unused_sections"] + f["missed_rewrites"]))
        if new:
            stubs += new
            continue
        canary = "\nverus! { pub mod zz_canary { proof fn canary() { assert(false); } } }\n"
        open(src, "a").write(canary)
        cline = text.count("\n") + 1
        rc, res, diags, raw = verus(src, [], 500)
        if res is None and rc != -99:
            rc, res, diags, raw = verus(src, [], 500)
        vr = (res or {}).get("verification-results", {})
        ran = res is not None and "verified" in vr and not vr.get("encountered-vir-error") and "times-ms" in res and vr["verified"] > 0
        if ran:
            break
        # rejected before verification: take the functions it points at out of the proof and try again
        new = []
        for d in diags:
            for s in d.get("spans", []):
                f = map_line(m, s["line_start"]) if s.get("is_primary") else None
                if f and f["kind"] == "fn" and not f["stub"] and f["id"] not in stubs and f["id"] not in new:
                    new.append(f["id"])
                    why[f["id"]] = "outside the verifier's subset: " + d["message"][:160]
        if not new:
            P.update(status="unavailable", detail="verus gave no result: " + " / ".join(d["message"] for d in diags)[:800] + raw[-300:] * (not diags))
            P["lost"] = [(i, why[i]) for i in stubs]
            return
        stubs += new
    else:
        P.update(status="unavailable", detail="no extraction accepted in 12 rounds")
        return
    mine = [f for f in m["functions"] if PROP in f["props"]]
    mine_ids = {f["id"] for f in mine}
    missing = [x for x in m["missing"] if (x.get("id") if isinstance(x, dict) else x) in mine_ids or PROP in (x.get("props", []) if isinstance(x, dict) else [])]
    P["lost"] = [(i, why.get(i, "")) for i in stubs if i in mine_ids] + [((x.get("id") if isinstance(x, dict) else x), "function no longer present") for x in missing]
    fails = {}
    canary = False
    for d in diags:
        msg = d["message"]
        ls = [s for s in d.get("spans", [])]
        prim = [s for s in ls if s.get("is_primary")] or ls
        hit = False
        for s in prim + ls:
            if s["line_start"] >= cline:
                canary = True
                hit = True
                break
        if hit:
            continue
        fn = None
        # a postcondition tagged `// [Cxx,..]` speaks for those properties only
        tag = None
        for s in ls:
            if "failed this postcondition" in (s.get("label") or ""):
                x = re.search(r"// \[(C[0-9,C]+)\]\s*$", text.split("\n")[s["line_end"] - 1])
                tag = x and x.group(1).split(",")
        if tag and PROP not in tag:
            continue
        # the failing function is the one that holds a span inside a body; a callee's clause may be the other span
        cands = [map_line(m, s["line_start"]) for s in ls]
        labelled = [(s, map_line(m, s["line_start"])) for s in ls]
        for s, f in labelled:
            if f and not re.search(r"failed precondition|failed this", s.get("label") or ""):
                fn = f
                break
        fn = fn or next((f for f in cands if f), None)
        if fn is None:
            if "aborting" in msg or not ls:
                continue
            fails.setdefault("(supporting lemma)", []).append((msg, d.get("rendered", "")[:3000]))
            continue
        fails.setdefault(fn["id"], []).append((msg, d.get("rendered", "")[:3000]))
    P["canary"] = canary
    names = unit_names(text)
    units, smt = [], 0
    for mod in res["times-ms"].get("smt", {}).get("smt-run-module-times", []):
        for fb in mod.get("function-breakdown", []):
            last = re.sub(r"<.*", "", fb["function"]).split("::")[-1]
            f = None
            for ln in names.get((mod["module"], last), []):
                f = map_line(m, ln)
                if f and PROP in f["props"]:
                    break
            if f and PROP in f["props"]:
                units.append((fb["function"], fb["success"], fb["time-micros"]))
    P["units"] = units
    P["smt_ms"] = sum(u[2] for u in units) / 1000
    P["verified"], P["errors"] = vr["verified"], vr["errors"] - (1 if canary else 0)
    baseline = json.load(open(os.path.join(V, "specs/baseline.json")))
    failed = []
    for i, es in fails.items():
        f = next((f for f in m["functions"] if f["id"] == i), None)
        if i != "(supporting lemma)" and i not in mine_ids:
            continue
        if all(re.search(r"rlimit|resource limit", e[0], re.I) for e in es):
            P["lost"].append((i, "solver resource limit"))
            continue
        b = baseline.get(i)
        if f and f["kind"] == "fn" and b and (b["loops"] != f["loops"] or b["closures"] != f["closures"]):
            P["lost"].append((i, f"loop structure changed ({b['loops']} -> {f['loops']} loops); invariants do not apply"))
            continue
        failed.append({"function": i, "errors": [e[0] for e in es], "output": [e[1] for e in es]})
    P["failed"] = failed
    # a trait method that the crate did not override before has no contract here: what it does is left to the harness
    known = set(json.load(open(os.path.join(V, "specs/baseline_fns.json"))))
    impls = {f["id"].rsplit("::", 1)[0] for f in mine if f["kind"] == "fn"}
    for k in sorted({k for k, _ in m["all"]} - known):
        if "@" in k and k.rsplit("::", 1)[0] in impls and k not in mine_ids:
            P["lost"].append((k, "new trait method without a contract"))
    if PROP == "C06":  # unchecked accesses that appeared outside the functions this property is about
        fps = {f["fingerprint"] for f in mine if f.get("fingerprint")}
        lost = {i for i, _ in P["lost"]}
        for k, fp in sorted(m["all"]):
            if "unsafe" in fp and fp not in fps and "unsafe " + k not in known and k not in lost:
                lost.add(k)
                P["lost"].append((k, "unsafe code outside the contracts of this property"))
    P["fns"] = [{"fn": f["id"], "rewrites": f.get("applied", {}), "stub": f.get("stub", False)} for f in mine if f["kind"] == "fn"]
    P["theorems"] = [f["id"][6:] for f in mine if f["kind"] == "lemma"]
    tr = []
    for n, l in enumerate(text.split("\n"), 1):
        if re.search(r"external_body|assume_specification|\bassume\(|\badmit\(|external_type_specification|uninterp", l):
            tr.append(re.sub(r"\s+", " ", l.strip())[:110])
    lines = text.split("\n")
    tb = []
    for n, l in enumerate(lines):
        if "external_body" in l or "external_type_specification" in l:
            for k in range(n, min(n + 4, len(lines))):
                x = re.search(r"\b(fn|struct)\s+(\w+)", lines[k])
                if x:
                    tb.append(x.group(2))
                    break
        x = re.search(r"assume_specification\s*(?:<[^\[]*>)?\s*\[([^\]]*(?:\][^\]]*)?)\]", l)
        if x:
            tb.append("std: " + re.sub(r"\s+", " ", x.group(1)).strip())
        if re.search(r"\b(assume|admit)\(", l):
            tb.append(f"assume at vc.rs:{n + 1}")
    P["trusted"] = sorted(set(tb))
    if not canary:
        P.update(status="unavailable", detail="the canary obligation `assert(false)` was accepted: the proof context is inconsistent")
        return
    P["status"] = "failed" if failed else ("partial" if P["lost"] else "proved")


# ---------------------------------------------------------------- replay on the compiled crate
H = {"status": "not run", "evals": 0, "distinct": 0, "samples": [], "fails": [], "detail": "", "groups": {}, "variants": []}
HL = threading.Lock()


def harness(variant):
    d = os.path.join(V, "harness")
    tgt = os.path.join(V, ".work", f"h-{PROP}-{variant}")
    env = {"FC_PROP": PROP, "FC_LIST_SEED": str(SEED), "CARGO_TARGET_DIR": tgt}
    base = ["cargo"]
    args = []
    if PROP in EMITS:
        args += ["--config", "profile.dev.package.fc-harness.opt-level=0"]
    binp = os.path.join(tgt, "debug/fc-harness")
    if variant == "asan":
        base = ["cargo", "+nightly"]
        env["RUSTFLAGS"] = "-Zsanitizer=address"
        args += ["--target", "x86_64-unknown-linux-gnu"]
        binp = os.path.join(tgt, "x86_64-unknown-linux-gnu/debug/fc-harness")
    rc, _, err = run(base + ["build", "-q", "--offline"] + args, 700, cwd=d, env=env)
    if rc != 0:
        e1 = err
        rc2, _, err = run(base + ["build", "-q", "--offline", "--no-default-features"] + args, 700, cwd=d, env=env)
        if rc2 != 0:
            with HL:
                H["detail"] += f"[{variant}] harness does not build: " + "\n".join(x for x in err.split("\n") if x.startswith("error"))[:800]
            return
        # The crate and the harness compile; only the code made by the emitter/macros does not.
        errs = [x for x in e1.split("\n") if "error" in x][:6]
        if PROP == "C12":
            with HL:
                H["fails"].append({"case": "emitted code build", "input": "see harness/build.rs lists", "message": "generated collection code does not compile: " + " / ".join(errs)[:800],
                                   "cmd": "cd /verif/harness && FC_PROP=C12 cargo build --offline"})
        else:
            with HL:
                H["detail"] += f"[{variant}] generated code left out (does not compile)"
    log(f"harness {variant} built")
    out = os.path.join(W, f"harness-{variant}.json")
    if os.path.exists(out):
        os.unlink(out)
    cmd = [binp, PROP, "--seed", str(SEED), "--out", out]
    if variant == "asan" and not THOROUGH:
        cmd.append("--small")
    elif THOROUGH:
        cmd.append("--thorough")
    rc, o, err = run(cmd, 7000 if THOROUGH else 420, cwd=W, env={"ASAN_OPTIONS": "detect_leaks=0"})
    rec = {"variant": variant, "cmd": " ".join([os.path.relpath(binp, V)] + cmd[1:]), "rc": rc}
    with HL:
        H["variants"].append(rec)
        if os.path.exists(out) and rc in (0, 1):
            j = json.load(open(out))
            H["evals"] += j["evaluations"]
            H["distinct"] += j["distinct_nontrivial"]
            H["samples"] += j["samples"][:8]
            for g, n in j["groups"].items():
                H["groups"][g] = H["groups"].get(g, 0) + n
            for f in j["fails"]:
                f["cmd"] = f'{binp} {PROP} --seed {SEED} --case "{f["case"]}"'
                H["fails"].append(f)
        elif rc == -99:
            H["detail"] += f"[{variant}] harness run hit its time limit"
        else:
            fatal = [x for x in err.split("\n") if x.startswith("FATAL") or "ERROR: AddressSanitizer" in x or "panicked" in x or "memory allocation" in x]
            # abnormal end of the process running the real code: trace the last case
            run(cmd[:1] + [PROP, "--seed", str(SEED), "--trace"] + [c for c in cmd if c in ("--small", "--thorough")], 600, cwd=W, env={"ASAN_OPTIONS": "detect_leaks=0"}, out=os.path.join(W, "trace.txt"))
            H["fails"].append({"case": "process ended abnormally", "input": (fatal[0] if fatal else "see output")[:1500], "message": f"exit status {rc}", "output": err[-4000:],
                               "cmd": " ".join(cmd)})
    log(f"harness {variant} ran rc={rc}")


def main():
    ts = [threading.Thread(target=proof)]
    variants = ["plain"] + (["asan"] if PROP == "C06" else [])
    ts += [threading.Thread(target=harness, args=(v,)) for v in variants]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if H["fails"]:
        H["status"] = "failing input"
    elif H["evals"]:
        H["status"] = "clean"
    log("proof:", P["status"], P["detail"], "lost:", P["lost"], "failed:", [(f["function"], f["errors"]) for f in P["failed"]])
    log("replay:", H["status"], H["evals"], "cases", H["detail"])
    meta = json.load(open(os.path.join(V, "specs/meta.json")))
    level = meta.get(PROP, {}).get("level", "proof")
    known = [l.strip() for l in open(os.path.join(V, "known_findings.txt")) if l.startswith(f"known: property={PROP} ")]
    viol, quiet = [], []
    for f in H["fails"]:
        k = next((k for k in known if k.split(" case=")[-1].split(" :: ")[0] == f["case"]), None)
        (quiet if k else viol).append((f, k))
    for f, k in quiet:
        print(f"KNOWN-FINDING: property={PROP} {k.split(' :: ')[-1]}")
    rdir = os.path.join(V, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, f"{PROP}.txt")
    nob = len(P["units"])
    ok = sum(1 for u in P["units"] if u[1])
    cov = {
        "obligations": nob, "discharged": ok,
        "checker_cmd": P["cmd"] or "verus (not reached)",
        "trusted_base": P["trusted"] + meta.get(PROP, {}).get("trusted", []),
        "functions_under_contract": P.get("fns", []),
        "lemma_groups": P.get("theorems", []),
        "verification_units": [u[0] for u in P["units"]],
        "back_end": "Verus 0.2026.09.13 / Z3 (bundled)", "solver_ms": round(P["smt_ms"], 1),
        "whole_crate_units_verified": P["verified"], "whole_crate_errors": P["errors"],
        "proof_status": P["status"], "proof_detail": P["detail"],
        "lost_anchors": [{"function": a, "reason": b} for a, b in P["lost"]],
        "canary_rejected": P["canary"],
        "bounded_stand_in": meta.get(PROP, {}).get("bounded", ""),
        "evaluations": H["evals"], "distinct_nontrivial": H["distinct"],
        "rule": meta.get(PROP, {}).get("rule", "cases are generated key/value lists driven through the public constructors and operations of the compiled crate and compared with a list model; a case is non-trivial when its collection is non-empty"),
        "samples": H["samples"][:12], "case_groups": H["groups"], "replay_status": H["status"], "replay_detail": H["detail"],
        "replay_runs": H["variants"],
    }
    ev = {"property": PROP, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": level, "coverage": cov,
          "assumptions": meta.get("_assumptions", []) + meta.get(PROP, {}).get("assumptions", []),
          "wall_s": round(time.time() - T0, 1), "violations": []}
    rc = 0
    line = None
    if viol:
        with open(replay, "w") as r:
            for f, _ in viol:
                r.write(f"case: {f['case']}\ninput: {f['input']}\nobserved: {f['message']}\nreplay: {f['cmd']}\n{f.get('output', '')}\n\n")
            for f in P["failed"]:
                r.write(f"failed obligation in {f['function']}: {f['errors']}\n" + "\n".join(f["output"]) + "\n")
        line = f"VIOLATION property={PROP} replay={replay}"
        ev["violations"] = [{"case": f["case"], "input": f["input"][:500], "message": f["message"][:500]} for f, _ in viol]
        rc = 1
    elif P["failed"]:
        with open(replay, "w") as r:
            for f in P["failed"]:
                r.write(f"failed obligation in {f['function']}: {f['errors']}\n" + "\n".join(f["output"]) + "\n")
            r.write("\nno failing input found by the replay harness: " + H["status"] + f" ({H['evals']} cases)\n")
        line = f"VIOLATION property={PROP} replay={replay} no-failing-input-found"
        ev["violations"] = [{"obligation": f["function"], "errors": f["errors"]} for f in P["failed"]]
        rc = 1
    elif P["status"] == "unavailable" and H["status"] != "clean":
        with open(replay, "w") as r:
            r.write("neither the proof nor the replay could be run on this tree\n" + P["detail"] + "\n" + H["detail"] + "\n")
        line = f"VIOLATION property={PROP} replay={replay} no-failing-input-found"
        ev["violations"] = [{"obligation": "all", "errors": [P["detail"], H["detail"]]}]
        rc = 1
    ev["wall_s"] = round(time.time() - T0, 1)
    json.dump(ev, open(os.path.join(V, "evidence", f"{PROP}.json"), "w"), indent=1)
    if line:
        print(line, flush=True)
    log("done rc", rc)
    sys.exit(rc)


main()
