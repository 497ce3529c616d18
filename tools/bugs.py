#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- planted bugs -->\n'
rows = {}
for p in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    m = json.load(open(p))
    rows.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(p)), m['needs'].rstrip('.')))
out = [MARK, '## Planted bugs\n\n',
       '%d changes are kept in `seeded/`; each leaves the 161 tests passing and is caught by the quick\n' % sum(map(len, rows.values())),
       'check of the property in the first column (`tools/bugs.py` rewrites this table).\n\n',
       '| caught by | change | needs |\n|---|---|---|\n']
for c in sorted(rows):
    for name, needs in rows[c]:
        out.append('| %s | %s | %s |\n' % (c, name, needs.replace('|', '/')))
text = open(ROOT + '/DESIGN.md').read().split(MARK)[0].rstrip('\n') + '\n\n'
open(ROOT + '/DESIGN.md', 'w').write(text + ''.join(out))
