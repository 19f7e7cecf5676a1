#!/usr/bin/env python3
"""usage: addfixed.py PROPERTY COMMIT ID TEXT   (development tool)"""
import json, sys
p = __file__.rsplit("/", 2)[0] + "/known_findings.json"
k = json.load(open(p))
k.append({"id": sys.argv[3], "property": sys.argv[1], "status": "fixed", "commit": sys.argv[2],
          "what": "fixed: property=%s %s %s" % (sys.argv[1], sys.argv[2], sys.argv[4])})
with open(p, "w") as f:
    f.write("[\n" + ",\n".join(" " + json.dumps(x, ensure_ascii=False) for x in k) + "\n]\n")
