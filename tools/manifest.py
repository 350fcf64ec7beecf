#!/usr/bin/env python3
"""Writes MANIFEST.json and properties.jsonl from the check table and the property table."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT); sys.path.insert(0, os.path.join(ROOT, "tools"))
sys.dont_write_bytecode = True
import props
from checks import CHECKS
props.main()
NOT = {}
checks = []
for p in props.P:
    pid = p["id"]
    if pid in CHECKS:
        c = CHECKS[pid]
        checks.append(dict(property=pid, quick_cmd="python3 check.py %s quick" % pid, thorough_cmd="python3 check.py %s thorough" % pid,
                           technique="TLA+ specification checked with TLC; recorded behaviour of the real code judged against it by TLC",
                           level=c["level"], level_note=c.get("note") or "bounded: the design is explored exhaustively within the stated constants; the binding to the code covers the inputs driven, not all inputs",
                           evidence_file="evidence/%s.json" % pid))
na = [dict(property=p["id"], reason=NOT.get(p["id"], "check not built yet")) for p in props.P if p["id"] not in CHECKS]
doc = dict(version=1, setup_cmd="bash setup.sh",
           hooks=dict(guard="PYTRACER_VERIF", enable="no hooks are needed: the checks use the public interface only", source_commits=[]),
           checks=checks, not_applicable=na, notes="See DESIGN.md. Language: TLA+ with TLC.")
json.dump(doc, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
