"""fills the table of planted bugs into DESIGN.md"""
import glob, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = ['| Planted bug | Property | Needs | Caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs'].replace('|', '/'), d.get('caught', 'check of ' + d['property'])))
fn = V + '/DESIGN.md'
s = open(fn).read()
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = s.replace('SEEDTABLE', '<!-- seeds --><!-- /seeds -->')
s = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: t, s, flags=re.S)
open(fn, 'w').write(s)
