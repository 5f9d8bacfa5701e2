#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
s = open('DESIGN.md').read()
rows = ''
key = lambda d: int(re.match(r'b(\d+)', d.split('/')[1]).group(1))
for d in sorted(glob.glob('seeded/b*/'), key=key):
    m = json.load(open(d + 'meta.json'))
    rows += '| %s | %s | %s |\n' % (d.split('/')[1], m['property'], m['what_it_breaks'])
a = s.index('|---|---|---|\n', s.index('| Change | Caught by')) + len('|---|---|---|\n')
b = s.index('\nBugs first missed')
open('DESIGN.md', 'w').write(s[:a] + rows + s[b:])
