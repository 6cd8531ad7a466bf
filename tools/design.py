"""Writes the generated part of DESIGN.md: which check catches which planted bug."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for b in sorted(os.listdir(f'{V}/seeded')):
    m = json.load(open(f'{V}/seeded/{b}/meta.json'))
    rows.setdefault(m['property'], []).append((b, m['needs']))
out = []
for p in sorted(rows):
    out.append(f'* **{p}**: ' + '; '.join(f'`{b}` ({n})' for b, n in rows[p]))
text = open(f'{V}/DESIGN.md').read()
a, b = '<!-- planted -->\n', '<!-- /planted -->'
i, j = text.index(a) + len(a), text.index(b)
open(f'{V}/DESIGN.md', 'w').write(text[:i] + '\n'.join(out) + '\n' + text[j:])
