#!/usr/bin/env python3
import json, sys, re, glob
exec(open('/verif/lib/claims.py').read())
ids = [json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
checks = []
for i in ids:
    if i in CLAIMS:
        lvl, note = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd=f"bin/check {i}", thorough_cmd=f"env VERIF_TIER=thorough bin/check {i}", evidence_file=f"evidence/{i}.json",
          technique="function contracts on the real C sources discharged by CBMC (goto-instrument --dfcc enforce/replace, unwinding assertions)", level=lvl, level_note=note))
na = [dict(property=i, reason=NA[i]) for i in ids if i not in CLAIMS]
m = dict(version=1, setup_cmd="sh bin/setup", checks=checks, not_applicable=na, notes=NOTES)
if HOOKS: m["hooks"] = HOOKS
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
