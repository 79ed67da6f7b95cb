"""writes MANIFEST.json: a property is claimed when checks/<id>.py exists and is not in SKIP"""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("lib", "checks", "spec"):
    sys.path.insert(0, os.path.join(V, d))
NA = {
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        m = importlib.import_module(i.lower())
        checks.append({"property": i, "quick_cmd": "./run.sh %s" % i, "thorough_cmd": "./run.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": m.TECHNIQUE,
                       "level": getattr(m, "LEVEL", "other"), "level_note": m.NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "static analysis only: a rustc_private driver dumps MIR, types, evaluated constants and impls of "
                    "/repo's working tree; rules and an abstract interpreter in lib/ decide the properties"},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
