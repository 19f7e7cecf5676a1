#!/usr/bin/env python3
"""usage: reg.py ID EXE:SPEC[,EXE:SPEC] [MODEL,...]   (development tool: adds a simple registry entry)"""
import sys
p = __file__.rsplit("/", 1)[0] + "/registry.py"
s = open(p).read()
i, runs = sys.argv[1], [x.split(":") for x in sys.argv[2].split(",")]
models = sys.argv[3].split(",") if len(sys.argv) > 3 else []
t = 'CHECKS["%s"] = {\n' % i
if models: t += '    "models": [%s],\n' % ", ".join('{"spec": "%s", "cfg": "%s"}' % (m, m) for m in models)
t += '    "runs": [%s],\n}\n\n' % ", ".join('{"exe": "%s", "spec": "%s"}' % tuple(r) for r in runs)
s = s.replace("NOT_APPLICABLE = {}", t + "NOT_APPLICABLE = {}", 1)
open(p, "w").write(s)
