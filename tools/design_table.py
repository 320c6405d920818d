"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
first_missed = {'s20': 'first missed; thresholds outside the range of the field were added',
                's21': 'first missed; swapped and moved values were added'}
mark = '<!-- planted bugs -->'
rows = [mark, '', '| bug | caught by | what it breaks | note |', '|-|-|-|-|']
for f in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('|', '/'),
                                          m.get('note', first_missed.get(i, ''))))
p = os.path.join(root, 'DESIGN.md')
s = open(p).read().split(mark)[0].rstrip() + '\n\n' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
