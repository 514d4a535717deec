"""rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json"""
import json
import os
import re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted change | needs | breaks |', '|---|---|---|']
for d in sorted(os.listdir(here + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (here, d)))
    rows.append('| %s | %s | %s |' % (d, m['needs'], m['what_it_breaks']))
p = here + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows)
           + '\n<!-- /seeds -->', s, flags=re.S)
open(p, 'w').write(s)
