#!/usr/bin/env python3
"""writes MANIFEST.json from the properties check.py decides"""
import json, sys
sys.path.insert(0, '/verif')
import check
NOTE = {}
NA = {
}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in check.PROPS:
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} quick', thorough_cmd=f'python3 check.py {i} thorough',
            technique='contract-based deductive verification (Verus) of functions extracted mechanically from /repo on every run; concrete replay on the real crates for failing inputs',
            level='proof', level_note=check.LEVEL_NOTE.get(i, check.LEVEL_NOTE_DEFAULT)))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'machinery for this property is not finished yet')))
json.dump(dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na,
    notes='No hooks in /repo. See DESIGN.md.'), open('/verif/MANIFEST.json', 'w'), indent=1)
