#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json:  python3 tools/registry.py
Properties whose id is in CLAIMED get a check; the others appear under not_applicable."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = 'libvvhd/src/'; H = 'libvvhd/headers/'; U = 'utils/vvflow/'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))


exec(open(os.path.join(ROOT, 'tools', 'props_text.py')).read())

CLAIMED = {}   # id -> (technique, level, level_note, theorems)
NA = {}
exec(open(os.path.join(ROOT, 'tools', 'claims.py')).read())

if __name__ == '__main__':
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
    checks = []
    for p in P:
        c = CLAIMED.get(p['id'])
        if not c: continue
        d = dict(property=p['id'], quick_cmd='python3-vt run.py %s quick' % p['id'], thorough_cmd='python3-vt run.py %s thorough' % p['id'],
                 evidence_file='evidence/%s.json' % p['id'], technique=c[0], level=c[1], level_note=c[2])
        if len(c) > 3: d['theorems'] = c[3]
        checks.append(d)
    m = dict(version=1, setup_cmd='python3-vt run.py --setup', hooks=dict(guard='VVFLOW_VERIF', enable='no hooks are needed: the guard is reserved and never used', source_commits=[]),
             checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()], notes=NOTES)
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
    ids = [p['id'] for p in P]
    miss = [i for i in ids if i not in CLAIMED and i not in NA]
    print('claimed', len(checks), 'not applicable', len(NA), 'unlisted', miss)
    for t in (p for p in P if len(p['title']) > 80): print('title too long', t['id'])
