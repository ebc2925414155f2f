"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALSO = {'w03-own-list': 'W04', 'w17-cache': 'W10', 'w21-buffer-swap': 'W01',
        'w13-one-diagonal': 'W12'}
rows = ['| bug | what it needs | caught by |', '|---|---|---|']
for m in sorted(glob.glob(top + '/seeded/*/meta.json')):
    name = os.path.basename(os.path.dirname(m))
    with open(m) as f:
        meta = json.load(f)
    by = meta['property'] + (', ' + ALSO[name] if name in ALSO else '')
    rows.append('| %s | %s: %s | %s |' % (
        name, meta['needs'], meta['what_it_breaks'], by))
p = top + '/DESIGN.md'
with open(p) as f:
    s = f.read()
a, b = '<!-- bugs -->\n', '\n<!-- end of bugs -->'
i, j = s.index(a) + len(a), s.index(b)
with open(p, 'w') as f:
    f.write(s[:i] + '\n'.join(rows) + s[j:])
