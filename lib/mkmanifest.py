# regenerates /verif/MANIFEST.json from the list of checks that exist
import json, os
V = '/verif'
NOTE = ("TLA+ specification model checked exhaustively with TLC within small bounds; bound to the code by trace validation: behaviours generated from the "
        "specification and seeded random histories run through the code built from the working tree, every recorded call and result must be a behaviour of the "
        "specification. Assurance is exhaustive for the bounded model and empirical (all recorded histories) for the code. ")
EXTRA = {}
p = V + '/lib/level_notes.json'
if os.path.exists(p): EXTRA = json.load(open(p))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for d in props:
    i = d['id']
    if os.path.exists(V + '/checks/%s.py' % i):
        checks.append(dict(property=i, quick_cmd='python3 checks/%s.py' % i, thorough_cmd='VERIF_TIER=thorough python3 checks/%s.py' % i,
            technique='TLA+ specification checked by TLC, bound to the code by trace validation and replay of specification behaviours',
            level='model_checking', level_note=NOTE + EXTRA.get(i, '')))
    else:
        na.append(dict(property=i, reason=EXTRA.get('NA_' + i, 'check not built yet')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
