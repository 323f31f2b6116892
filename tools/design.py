#!/usr/bin/env python3
"""Write /verif/DESIGN.md from the texts here, the properties, the claims, the planted bugs and the findings."""
import os, json, sys, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(ROOT, 'tools'))
import registry as props_text; claims = props_text
HEAD = open(os.path.join(ROOT, 'tools', 'design_head.md')).read()
HOW = {}
cur = None
for l in open(os.path.join(ROOT, 'tools', 'design_how.md')):
    if l.startswith('## '): cur = l[3:].strip(); HOW[cur] = ''
    elif cur: HOW[cur] += l
seeded = {}
for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f)); seeded.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
fixed = {}
for l in open(os.path.join(ROOT, 'known-findings.txt')):
    if l.strip() and not l.startswith('#'):
        k = l.split('property=')[1].split()[0]; fixed.setdefault(k, []).append(l.strip())
out = [HEAD, '\n# Properties\n']
for p in props_text.P:
    i = p['id']; out.append('\n## %s %s\n' % (i, p['title']))
    if i in claims.CLAIMED: out.append('Claimed, level %s. %s\n\nUnchecked or assumed: %s\n' % (claims.CLAIMED[i][1], HOW.get(i, '').strip(), claims.CLAIMED[i][2]))
    else: out.append('Not claimed: %s.\n' % claims.NA.get(i, '?'))
    if i in fixed: out.append('\nDefects found by this check or while writing its contracts, and repaired:\n\n' + ''.join('- %s\n' % x.split(' ', 2)[2] for x in fixed[i]))
    if i in seeded: out.append('\nPlanted bugs, each caught by this property\'s check:\n\n' + ''.join('- `%s`: %s (needs %s)\n' % (n, m['what_it_breaks'], m['needs']) for n, m in seeded[i]))
s = ''.join(out)
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(s); print(len(s), 'characters;', [i for i in claims.CLAIMED if not HOW.get(i)])
