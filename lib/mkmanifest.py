"""Rewrites MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import checks
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": [], "not_applicable": []}
for p in props:
    c = checks.CHECKS.get(p["id"])
    if c:
        out["checks"].append({"property": p["id"], "quick_cmd": f"bin/check {p['id']} quick", "thorough_cmd": f"bin/check {p['id']} thorough",
                              "technique": c.get("technique", "bounded exhaustive enumeration of inputs/operation sequences on the real code against a reference model"),
                              "level": "model_checking", "level_note": c.get("note", "") or ("Exhaustive within: " + c.get("bounds", "") + ". Trusts: the harness' reference oracle, the compiler, and the stand-ins in shims/ for absent third-party libraries.")})
    else:
        out["not_applicable"].append({"property": p["id"], "reason": checks.NA.get(p["id"], "no check built yet")})
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(out["checks"]), "claimed;", len(out["not_applicable"]), "not")
