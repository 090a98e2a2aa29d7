#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os, re, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change (caught by the quick check of the property it is named after) | breaks | needs |', '|---|---|---|']
for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(f))
    c = lambda s: re.sub(r'\s+', ' ', s).replace('|', '/')[:170]
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), c(m['what_it_breaks']), c(m['needs'])))
s = open(R + '/DESIGN.md').read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s, flags=re.S)
open(R + '/DESIGN.md', 'w').write(s)
