"""Writes MANIFEST.json from the property list and the checks present in props/."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tool'))
import mkprops
TECH = {}
NOTE = {}
NA = {}
exec(open(os.path.join(H, 'tool', 'levels.py')).read())
checks, na = [], []
for p in mkprops.PROPS:
    i = p['id']
    if os.path.exists(os.path.join(H, 'props', i.lower() + '.py')) and i not in NA:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'technique': TECH.get(i, 'path-sensitive abstract interpretation of the resolved syntax trees against a decision table'),
                       'level': 'other', 'level_note': NOTE.get(i, DEFAULT_NOTE)})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check for it has been built')})
json.dump({'version': 1, 'setup_cmd': 'python3 lib/facts.py', 'checks': checks, 'not_applicable': na},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
