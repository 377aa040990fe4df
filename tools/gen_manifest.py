#!/usr/bin/env python3
"""Writes MANIFEST.json from checks_def.py and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks_def import CHECKS, TECH, NA
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s", "d485d9c..HEAD"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if " hook" in l and not " fix:" in l]
m = dict(version=1, setup_cmd="python3 tools/setup.py",
  hooks=dict(guard="FTK_VERIF_HOOKS", enable="harnesses are compiled with -DFTK_VERIF_HOOKS=1 where a hook is used (checks_def.py cflags)", source_commits=hooks),
  checks=[dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p, evidence_file="evidence/%s.json" % p,
               technique=TECH[p][0], level="exploration", level_note=TECH[p][1]) for p in props if p in CHECKS],
  not_applicable=[dict(property=p, reason=NA.get(p, "machinery not built yet")) for p in props if p not in CHECKS],
  notes="see DESIGN.md; known findings in known-findings.txt; python3 check.py <id> --unit U --group G --index I replays one case")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json"))) if os.path.exists("/root/.vp/MANIFEST.schema.json") else None
print(len(m["checks"]), "checks;", len(m["not_applicable"]), "not claimed")
