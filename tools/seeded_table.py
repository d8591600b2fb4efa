"""Writes the table of planted bugs at the end of DESIGN.md."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '## Planted bugs\n'
NOTE = {'b28': 'after C22 got the test of repeated custom SQL'}
path = os.path.join(HERE, 'DESIGN.md')
text = open(path).read().split(HEAD)[0].rstrip('\n') + '\n\n'
out = [HEAD, 'Each is in `seeded/<bug>/`, passes the existing tests and is caught by the quick check of the property named here (seed 1). Those',
       'which were missed at first are marked.', '', '| bug | caught by | what it breaks | needs |', '|-----|-----------|----------------|-------|']
for f in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
    m = json.load(open(f))
    bug = f.split('/')[-2]
    by = m['property'] + (' (%s)' % NOTE[bug] if bug in NOTE else '')
    out.append('| %s | %s | %s | %s |' % tuple(x.replace('|', '\\|') for x in (bug, by, m['what_it_breaks'], m['needs'])))
open(path, 'w').write(text + '\n'.join(out) + '\n')
