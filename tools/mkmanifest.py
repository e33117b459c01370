import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NA = json.load(open(os.path.join(H, 'tools', 'na.json')))
TECH = json.load(open(os.path.join(H, 'tools', 'technique.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(H, 'rules', i.lower() + '.py')) and i not in NA:
        t, note = TECH[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --thorough' % i,
                           technique=t, level='other', level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='Static analysis: abstract interpretation of the LLVM IR of /repo/src (4 build configurations), see DESIGN.md.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
