"""python3 lib/manifest.py: writes MANIFEST.json from registry.CHECKS."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = registry.NOT_APPLICABLE
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        checks.append(dict(
            property=i, quick_cmd="python3 lib/check.py %s --tier quick" % i,
            thorough_cmd="python3 lib/check.py %s --tier thorough" % i,
            technique=registry.TECHNIQUE.get(i, registry.TECHNIQUE["*"]),
            level="model_checking",
            level_note=registry.NOTE.get(i, registry.NOTE["*"])))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check has been built yet")))
m = dict(version=1, setup_cmd="python3 lib/setup.py", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(checks), "checks,", len(na), "not claimed")
