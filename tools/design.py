"""Refreshes the table of planted bugs in DESIGN.md (hand-run; not part of any check)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | property | needs |', '|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'].replace('|', '/')))
p = V + '/DESIGN.md'; s = open(p).read()
s = re.sub(r'SEEDTABLE\n|\| bug \| property \| needs \|\n(\|.*\n)+', '\n'.join(rows) + '\n', s, count=1)
open(p, 'w').write(s)
