"""Writes the table of seeded bugs into DESIGN.md (between the table's head and the next heading or the end)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(here + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (here, d)))
    missed = m.get('missed')
    rows.append('| %s: %s | %s |' % (d, m['needs'], missed and 'missed: ' + missed or m.get('caught_by', m['property'])))
p = here + '/DESIGN.md'
s = open(p).read()
head = '| seed | caught by |\n|---|---|\n'
a, b = s.split(head)
rest = re.search(r'\n\n|\n#', b)
tail = b[rest.start():] if rest else '\n'
open(p, 'w').write(a + head + '\n'.join(rows) + tail)
