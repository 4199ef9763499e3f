"""Rewrites the table of planted bugs of DESIGN.md from the descriptions in seeded/."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | what makes it manifest |', '|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'].replace('|', '/')))
p = V + '/DESIGN.md'
t = open(p).read()
t = re.sub(r'(<!-- seeded:begin -->\n).*?(<!-- seeded:end -->)', lambda k: k.group(1) + '\n'.join(rows) + '\n' + k.group(2), t, flags=re.S)
open(p, 'w').write(t)
