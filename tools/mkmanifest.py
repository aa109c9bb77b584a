#!/usr/bin/env python3
"""writes MANIFEST.json from the plans"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import plans
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
LEVEL = "TLC checks the specification's own invariants exhaustively within small constants; TLC-generated behaviours of the same specification are replayed on the real code and every observable result compared. Assurance for the code is bounded by the behaviours generated (systematic boundaries plus seeded random); trusts TLC and the trit-level reference interpreter."
m = dict(version=1, setup_cmd="true",
  hooks=dict(guard="cfg(iota_mam_verif)", enable="RUSTFLAGS='--cfg iota_mam_verif' cargo build in /verif/harness (run.py does this)", source_commits=["eadd176"]),
  checks=[dict(property=p['id'], quick_cmd="python3 run.py " + p['id'], thorough_cmd="VERIF_TIER=thorough python3 run.py " + p['id'],
      evidence_file="evidence/%s.json" % p['id'], technique=plans.TECH.get(p['id'], "TLA+ specification checked with TLC; TLC behaviours replayed on the code"),
      level="model_checking", level_note=plans.NOTE.get(p['id'], LEVEL)) for p in props if p['id'] in plans.PLANS],
  not_applicable=[dict(property=p['id'], reason=plans.NA.get(p['id'], "not built yet")) for p in props if p['id'] not in plans.PLANS],
  notes="Specification language: TLA+ (TLC). Each check: python3 run.py <ID>; see DESIGN.md.")
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1); open(ROOT + '/MANIFEST.json', 'a').write('\n')
