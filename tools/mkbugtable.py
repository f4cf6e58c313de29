#!/usr/bin/env python3
"""Rewrites section 5 of DESIGN.md from seeded/*/meta.json (development only)."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(root + '/seeded/*/')):
    m = json.load(open(d + 'meta.json'))
    rows.append('| %s | %s | %s |' % (os.path.basename(d[:-1]), m['property'], m['needs'].replace('|', '/')))
s = open(root + '/DESIGN.md').read()
s = s.split('\n## 5. ')[0].rstrip('\n') + '''

## 5. Planted bugs

Each of these (patch, demonstration and description in `seeded/<id>/`) builds, passes
the repository's stable tests, and is caught by the quick check of the property in the
second column; the third says what it needs in order to show. Most changes that broke a
property and were first missed led to a wider generator or a stricter oracle for all
properties, not for the one change.

| planted bug | caught by | needs |
|---|---|---|
''' + '\n'.join(rows) + '\n'
open(root + '/DESIGN.md', 'w').write(s)
print(len(rows))
