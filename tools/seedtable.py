"""Rewrite the table of planted changes in DESIGN.md (between the two markers)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(os.path.join(H, 'seeded'))):
    d = json.load(open(os.path.join(H, 'seeded', i, 'meta.json')))
    rows.append('| %s | %s | %s |' % (i, d['property'], d['what_it_breaks']))
p = os.path.join(H, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- seeded -->\n', '<!-- /seeded -->\n'
if a not in s:
    s = s.rstrip('\n') + '\n\n' + a + b
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + '| change | caught by | what it breaks |\n|---|---|---|\n' + '\n'.join(rows) + '\n' + s[j:]
open(p, 'w').write(s)
