"""rewrites the table of planted bugs at the end of DESIGN.md (no check uses it)"""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(root, 'seeded'))):
    with open(os.path.join(root, 'seeded', d, 'meta.json')) as f:
        m = json.load(f)
    rows.append('| %s | %s | %s | %s |' % (
        d, m['property'], ' '.join(m['needs'].split()), m.get('caught_by', m['property'])))
path = os.path.join(root, 'DESIGN.md')
with open(path) as f:
    text = f.read()
head = text.split('<!-- table -->')[0]
with open(path, 'w') as f:
    f.write(head + '<!-- table -->\n' + '\n'.join(rows) + '\n')
