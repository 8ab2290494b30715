#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl, the harnesses present and the notes below."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(V + "/tools/notes.json"))
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if os.path.exists(V + "/harness/%s.cc" % p) and p in T:
        src = open(V + "/harness/%s.cc" % p).read()
        level = re.search(r'VF_PROPERTY\("\w+",\s*"(\w+)"', src).group(1)
        checks.append({"property": p, "quick_cmd": "./check %s --tier quick" % p,
                       "thorough_cmd": "./check %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": T[p][0], "level": level, "level_note": T[p][1]})
    else:
        na.append({"property": p, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "./check --build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harnesses compile /repo's sources with their own flags, stand-ins are linked with --wrap or installed at the system-call boundary."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
