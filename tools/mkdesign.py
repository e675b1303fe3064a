"""mkdesign.py: fill the generated parts of DESIGN.md (table of planted bugs,
number of fixes) from seeded/*/meta.json and known_findings.json."""
import glob
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
rows = ['| planted bug | caught by | needs |', '|---|---|---|']
res = json.load(open(os.path.join(HERE, 'tools/caught.json')))
for f in sorted(glob.glob(os.path.join(HERE, 'seeded/*/meta.json'))):
    m = json.load(open(f))
    i = f.split('/')[-2]
    rows.append('| %s | %s | %s |' % (i, res.get(i, '?'), m['needs']))
s = re.sub(r'(?s)<!--bugs-->.*<!--/bugs-->', lambda _m: '<!--bugs-->\n'
    + '\n'.join(rows) + '\n<!--/bugs-->', s)
n = len(json.load(open(os.path.join(HERE, 'known_findings.json')))['fixed'])
s = re.sub(r'\d+ `fix:` commits', '%d `fix:` commits' % n, s)
open(p, 'w').write(s)
