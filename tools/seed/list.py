#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md from the folders of seeded/."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
by = {}
n = 0
for d in sorted(os.listdir(R + '/seeded')):
    p = json.load(open(f'{R}/seeded/{d}/meta.json'))['property']
    by.setdefault(p, []).append(re.sub(r'^' + p.lower() + '-', '', d))
    n += 1
s = open(R + '/DESIGN.md').read()
block = ''.join(f"* **{p}** {', '.join(by[p])}\n" for p in sorted(by))
s = re.sub(r'(?:^\* \*\*C\d\d\*\* [a-z0-9, -]+\n)+', block, s, count=1, flags=re.M)
s = re.sub(r'seeded/ holds \d+', f'seeded/ holds {n}', s)
open(R + '/DESIGN.md', 'w').write(s)
print(n)
