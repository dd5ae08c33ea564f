"""Writes properties.jsonl and MANIFEST.json from tools/registry.py (run: python3 tools/gen.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.registry import P
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        a = dict(files=p['files'], mechanism=p['mechanism'], hook_needed=p['hook'])
        if p['state']:
            a['state'] = p['state']
        if p['observe']:
            a['observe_at'] = p['observe']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['text']),
                                why_tests_cant=p['why'], anchors=a)) + '\n')
checks, na = [], []
for p in P:
    if os.path.exists('%s/checks/%s.py' % (V, p['id'])) and not p['na']:
        checks.append(dict(property=p['id'], quick_cmd='./run.sh %s quick' % p['id'],
                           thorough_cmd='./run.sh %s thorough' % p['id'],
                           technique=p['technique'], level=p['level'], level_note=p['note']))
    else:
        na.append(dict(property=p['id'], reason=p['na'] or 'no check built yet: nothing is claimed'))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks,
               hooks=dict(guard='none', enable='no hooks: the checks drive the unmodified public API of /repo', source_commits=[]),
               not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'unclaimed')
