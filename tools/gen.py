"""Writes properties.jsonl and MANIFEST.json from mc/catalog.py, and validates them."""
import json
import os
import sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from mc import catalog  # noqa
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in catalog.PROPS:
        f.write(json.dumps(catalog.entry(p)) + "\n")
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [catalog.check(p) for p in catalog.PROPS if not p.get("na")],
       "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in catalog.PROPS if p.get("na")],
       "notes": "All checks drive the real code of /repo's working tree (pure Python, nothing to build); no hooks in /repo."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in catalog.PROPS:
        jsonschema.validate(catalog.entry(p), sch)
        assert p["statement"].count(". ") <= 2, p["id"]
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid:", len(catalog.PROPS))
except ImportError:
    print("jsonschema missing (use python3-vt)")
