#!/usr/bin/env python3
"""Rewrite section 6 of DESIGN.md (what each planted bug needs, which check catches it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
late = json.load(open(V + '/tools/late.json'))
s = open(V + '/DESIGN.md').read().split('<!-- table -->')[0]
ids = sorted(os.listdir(V + '/seeded'))
t = ['<!-- table -->', '## 6. Which check catches which planted bug', '',
     'All %d were run with the quick check of their own property (`tools/seed_verify.py --check`).  The last column is'
     % len(ids), '"yes", or "after" and what had to be strengthened first where the check missed the bug when it was written.', '',
     '| planted bug | needs | caught by the quick check of its property |', '|---|---|---|']
for i in ids:
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    l = late.get(i)
    t.append('| %s | %s | %s: %s |' % (i, ' '.join(m['needs'].split()).replace('|', '/'), m['property'],
                                        'yes' if not l else l if l.startswith('NO') else 'after: ' + l))
open(V + '/DESIGN.md', 'w').write(s + '\n'.join(t) + '\n')
