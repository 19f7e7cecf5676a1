#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
import registry
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        mods = ", ".join(sorted({m["spec"] for m in c.get("models", []) + c.get("thorough_models", [])}))
        trs = ", ".join(sorted({r["spec"] for r in c.get("runs", []) + c.get("thorough_runs", [])}))
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py " + i,
                       "thorough_cmd": "python3 bin/check.py %s --thorough" % i,
                       "technique": "TLA+/TLC: " + ("design model(s) %s checked exhaustively; " % mods if mods else "")
                       + "histories recorded from the real code validated against trace specification(s) %s" % trs,
                       "level": "model_checking",
                       "level_note": c.get("note", "The specification is explored exhaustively within its bounds; the implementation is bound to it by validating every recorded event, so the code itself is covered on the executed histories only.")})
    else:
        na.append({"property": i, "reason": registry.NOT_APPLICABLE.get(i, "No specification and conformance driver built for it yet; not claimed.")})
json.dump({"version": 1, "setup_cmd": "python3 bin/setup.py",
           "hooks": {"guard": registry.GUARD, "enable": registry.ENABLE},
           "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
