"""Writes MANIFEST.json: every property with an entry in CLAIMED is claimed, the others are listed as not applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
CLAIMED = {}
exec(open(os.path.join(V, 'tools', 'claimed.py')).read())
checks = []
for p in props:
    if p['id'] not in CLAIMED:
        continue
    tech, note = CLAIMED[p['id']]
    checks.append(dict(property=p['id'], quick_cmd=f'/opt/venv/bin/python harness/check.py {p["id"]}', thorough_cmd=f'VERIF_TIER=thorough /opt/venv/bin/python harness/check.py {p["id"]}',
                       technique=tech, level='model_checking', level_note=note))
na = [dict(property=p['id'], reason='The specification for this property is not finished yet, so it is not claimed.') for p in props if p['id'] not in CLAIMED]
m = dict(version=1, setup_cmd='/opt/venv/bin/python harness/setup.py', checks=checks, not_applicable=na,
         notes='TLA+ checked with TLC; see DESIGN.md. No hooks in /repo: every check observes the public API of a scratch build of the current working tree.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed')
