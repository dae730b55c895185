#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and specs/meta.json; with --baseline MAP also specs/baseline.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta = json.load(open(f"{V}/specs/meta.json"))
if "--baseline" in sys.argv:
    m = json.load(open(sys.argv[sys.argv.index("--baseline") + 1]))
    json.dump({f["id"]: {"loops": f["loops"], "closures": f["closures"]} for f in m["functions"] if f["kind"] == "fn"},
              open(f"{V}/specs/baseline.json", "w"), indent=1, sort_keys=True)
    c06 = {f["fingerprint"] for f in m["functions"] if f.get("fingerprint") and "C06" in f["props"]}
    out = {"unsafe " + k for k, fp in m["all"] if "unsafe" in fp and fp not in c06}
    print("unsafe code outside C06:", *sorted(out), sep="\n ")
    json.dump(sorted({k for k, _ in m["all"] if "@" in k} | out), open(f"{V}/specs/baseline_fns.json", "w"), indent=0)
checks = []
for l in open(f"{V}/properties.jsonl"):
    p = json.loads(l)["id"]
    x = meta.get(p, {})
    c = {"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p} --tier thorough",
         "technique": x.get("technique", "contract-based deductive verification (Verus) of the extracted real functions; replay harness on the compiled crate"),
         "level": x.get("level", "proof"), "level_note": x.get("note", "see DESIGN.md")}
    if x.get("theorems"):
        c["theorems"] = x["theorems"]
    checks.append(c)
json.dump({"version": 1, "setup_cmd": "cargo build -q --offline --locked --manifest-path tools/extract/Cargo.toml --target-dir .work/extract",
           "checks": checks, "not_applicable": meta.get("_not_applicable", []),
           "notes": "No hooks in /repo: the proof reads rustc's expansion of /repo's source, the replay harness uses the public API. Fix commits in /repo are listed in known_findings.txt."},
          open(f"{V}/MANIFEST.json", "w"), indent=1)
