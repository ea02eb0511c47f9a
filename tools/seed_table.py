"""Rewrites the table of planted bugs in DESIGN.md (between the two markers) from the folders under seeded/."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted change | property | what it needs to show | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), m.get('caught_by', m['property'])))
p = V + '/DESIGN.md'
s = open(p).read()
t = '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->'
s = s.replace('@@SEEDED@@', t) if '@@SEEDED@@' in s else re.sub(r'<!-- seeded -->.*?<!-- /seeded -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
