"""Writes MANIFEST.json from contracts/registry.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from contracts import registry
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.NOTES:
        t, level, note = registry.NOTES[i]
        checks.append(dict(property=i, quick_cmd='python3 checks/run.py %s' % i,
                           thorough_cmd='python3 checks/run.py %s --tier thorough' % i,
                           technique=t, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason=registry.NOT_APPLICABLE.get(i, 'not built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='checks/run.py proves the contracts in contracts/ on the functions of /repo (pyvc, z3) and runs the '
                     'bounded checks in harness/; see DESIGN.md.'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
