#!/usr/bin/env python3
"""Writes the list of planted bugs (seeded/*/meta.json) into DESIGN.md."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.setdefault(d['property'], []).append('  %s (%s)' % (os.path.basename(os.path.dirname(m)), d['needs']))
text = '\n'.join('* %s:\n%s' % (p, ';\n'.join(b)) for p, b in sorted(rows.items()))
n = sum(len(b) for b in rows.values())
p = root + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- planted -->\n', '<!-- /planted -->\n'
s = s[:s.index(a) + len(a)] + '%d in number; what each needs in order to show is in brackets.\n\n' % n + text + '\n' + s[s.index(b):]
open(p, 'w').write(s)
