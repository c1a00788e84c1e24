"""Rewrites the list of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + '/DESIGN.md'
s = open(p).read()
head, rest = s.split('\n## 5. Planted bugs\n')
intro = rest.strip().split('\n\n')[0]
rows = []
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows.append('* `%s` (%s): %s' % (d, m['property'], ' '.join(m['what_it_breaks'].split())[:180]))
open(p, 'w').write(head + '\n## 5. Planted bugs\n\n' + intro + '\n\n' + '\n'.join(rows) + '\n')
