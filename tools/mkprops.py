#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props/*.json-like python dicts (PROPS below)."""
import importlib.util, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE  # noqa: E402

checks = []
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {k: v for k, v in p.items() if k not in ("technique", "level_note", "na")}
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
        if p.get("na"):
            continue
        if not os.path.exists(os.path.join(VERIF, "checks", p["id"].lower() + ".py")):
            sys.exit("no check for " + p["id"])
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                       "technique": p["technique"], "level": "other", "level_note": p["level_note"]})
na = [{"property": p["id"], "reason": p["na"]} for p in PROPS if p.get("na")]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "Every check analyses /repo's current source through a rustc driver (driver/main.rs) that dumps the "
              "type-checked program and its MIR; nothing of compose_spec is executed. See DESIGN.md."}
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(VERIF, "MANIFEST.json"), "a").write("\n")
