#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and sim/meta.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sim"))
sys.dont_write_bytecode = True
from meta import META, NA
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in META:
        m = META[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": m["technique"], "level": "exploration",
                       "level_note": m["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
hooks = {"guard": "QDNG_SIM", "enable": "no hook is needed: the simulator interposes libc, OpenMP and FFTW symbols in its own "
         "build of /repo's sources; no guarded code was added to /repo", "source_commits": []}
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "hooks": hooks, "checks": checks, "not_applicable": na,
           "notes": "One simulator executable per build variant; see DESIGN.md. Replay a violation with: python3 check.py --replay FILE"},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
