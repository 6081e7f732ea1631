#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from props.py and units.py.
import json, os
from props import PROPS as TXT, NOT_APPLICABLE
from units import PROPS as UNITS
here = os.path.dirname(os.path.abspath(__file__))
with open(here + '/properties.jsonl', 'w') as f:
    for i, p in sorted(TXT.items()):
        a = dict(files=p['files'], mechanism=p['mech'])
        if p['state']: a['state'] = p['state']
        f.write(json.dumps(dict(id=i, title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'], anchors=a)) + '\n')
        assert len(p['title']) <= 80, (i, len(p['title']))
checks = []
for i, p in sorted(TXT.items()):
    if i in NOT_APPLICABLE: continue
    if i not in UNITS: raise SystemExit('no units for ' + i)
    b = '; '.join('%s: %s' % (u['entry'], u['bounds']) for u in UNITS[i]['units'] if u.get('tiers', ('quick',))[0] == 'quick' or 'quick' in u.get('tiers', ('quick',)))
    checks.append(dict(property=i, quick_cmd='./check.py %s --tier quick' % i, thorough_cmd='./check.py %s --tier thorough' % i, technique=p['technique'], level='model_checking',
      level_note=('Holds for every value within the bounds; nothing is claimed outside them. Bounds (quick): ' + b + '. ' + (p['note'] + ' ' if p['note'] else '') + 'Trusted: clang 18 front end at -O1 level IR, the engine\'s IR semantics (every run replays sampled paths natively), Z3.').strip()))
m = dict(version=1, setup_cmd='./setup.sh', hooks=dict(guard='BALAU_VERIF', enable='no hooks are needed: the checks compile the unmodified sources of /repo with the harness', source_commits=[]), checks=checks, not_applicable=[dict(property=i, reason=r) for i, r in sorted(NOT_APPLICABLE.items())], notes='Engine in engine/, harnesses in harness/, units and bounds in units.py, driver check.py; see DESIGN.md.')
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1); open(here + '/MANIFEST.json', 'a').write('\n')
for i in UNITS:
    if i not in TXT: print('warning: units without text:', i)
