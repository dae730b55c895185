#!/usr/bin/env python3
"""Lists the functions of the expanded crate that no contract covers (MAP = the extractor's map.json)."""
import json, re, sys
def uncontracted(m):
    mod = lambda k: k.split("::")[0:2]
    got = {(k["id"].split("::")[0], k["id"].split("::")[1], k["fingerprint"]) for k in m["functions"] if k.get("fingerprint")}
    out = {}
    for k, fp in m["all"]:
        p = k.split("::")
        if len(p) < 2 or (p[0], p[1], fp) in got:
            continue
        kk = (p[0], p[1], fp, re.sub(r"<.*", "", k.split("@")[0]))
        if kk not in out or len(k) < len(out[kk]):
            out[kk] = k
    return sorted(out.values())
if __name__ == "__main__":
    for k in uncontracted(json.load(open(sys.argv[1]))):
        print(k)
