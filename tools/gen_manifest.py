#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a property is claimed when irv/specs has a proof case for it (level proof);
without one, but with rcheck/<id>.R, its contracts are only evaluated (level exploration, labelled bounded)."""
import json, os, glob, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
proved = {}
for f in sorted(glob.glob(os.path.join(H, 'irv', 'specs', 'c*.py'))):
    for m in re.findall(r"""case\(['"](C\d\d)['"]""", open(f).read()): proved.setdefault(m, set()).add(os.path.basename(f))
NOTE = json.load(open(os.path.join(H, 'tools', 'notes.json')))
NA = {}
checks = []
PY = '/opt/veriftools/pyvenv/bin/python -O check.py '
for i in ids:
    has_r = os.path.exists(os.path.join(H, 'rcheck', i + '.R'))
    if i in proved:
        checks.append(dict(property=i, quick_cmd=PY + i, thorough_cmd=PY + i + ' thorough', technique='contract-based deductive verification of the compiled IR of /repo/src (irv + z3); bounded evaluation of the exported functions\' contracts beside it',
                           level='proof', level_note=NOTE.get(i, 'see DESIGN.md')))
    elif has_r and i not in NOTE.get('not_applicable', {}):
        checks.append(dict(property=i, quick_cmd=PY + i, thorough_cmd=PY + i + ' thorough', technique='contracts of the exported functions evaluated on the running code (bounded stand-in, no proof yet)',
                           level='exploration', level_note=NOTE.get(i, 'bounded: the contract is evaluated on enumerated and random inputs; not a proof')))
    else:
        NA[i] = NOTE['not_applicable'][i]
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [c['property'] for c in checks if c['level'] == 'proof'], 'na', list(NA))
