"""Writes MANIFEST.json from the registry."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.PARTS:
        checks.append({'property': i, 'quick_cmd': 'python3 tools/check.py ' + i,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py ' + i,
                       'technique': registry.TECH[i], 'level': 'model_checking',
                       'level_note': registry.NOTE[i]})
    else:
        na.append({'property': i, 'reason': registry.NA.get(i, 'not decided yet: its check is being built')})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/build.py && python3 tools/build.py --san',
           'hooks': {'guard': 'none', 'enable': 'no hooks: the harness interposes Event::transition, Player::createPlayer '
                     'and the parsers from outside', 'source_commits': []},
           'checks': checks, 'not_applicable': na,
           'notes': 'Genuine defects found and repaired are listed in known-findings.json.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
