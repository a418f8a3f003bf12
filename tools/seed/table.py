"""table.py: write the table of planted bugs (tools/seed/caught.json) into DESIGN.md between its markers"""
import json, os, re
V = '/verif'
c = json.load(open(V + '/tools/seed/caught.json'))
rows = ['| change | property | needs | reported by |', '|---|---|---|---|']
n = own = 0
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    by = c.get(i, {}).get('caught_by', [])
    n += 1
    own += m['property'] in by
    needs = re.sub(r'\s+', ' ', str(m.get('needs', ''))).replace('|', '/')
    rows.append('| `%s` | %s | %s | %s |' % (i, m['property'], needs[:90], ', '.join(sorted(by)) or 'missed'))
t = '%d confirmed changes; %d reported by the check of their own property.\n\n' % (n, own) + '\n'.join(rows)
d = open(V + '/DESIGN.md').read()
if 'CAUGHT_TABLE' in d:
    d = d.replace('CAUGHT_TABLE', '\n\n<!-- caught -->\n<!-- /caught -->', 1)
a, b = d.index('<!-- caught -->'), d.index('<!-- /caught -->')
d = d[:a] + '<!-- caught -->\n' + t + '\n' + d[b:]
open(V + '/DESIGN.md', 'w').write(d)
print(n, own)
