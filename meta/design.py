"""refreshes the table of planted bugs in DESIGN.md"""
import json, glob, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(p))
    rows.append('| %s | %s | %s |' % (p.split('/')[-2], m['property'], m['what_it_breaks'].replace('|', '/')))
d = open(V + '/DESIGN.md').read()
if '@SEEDS@' in d:
    d = d.replace('@SEEDS@', '\n'.join(rows))
else:
    d = re.sub(r'(\|---\|---\|---\|\n)(\| s\d.*\n)+', lambda m: m.group(1) + '\n'.join(rows) + '\n', d)
open(V + '/DESIGN.md', 'w').write(d)
