#!/usr/bin/env python3
"""rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + '/DESIGN.md'
s = open(p).read()
m = '<!-- seeds -->\n'
if m in s:
    s = s[:s.index(m)]
s += m + '| id | caught by | what it breaks | needs |\n|---|---|---|---|\n'
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(f))
    s += '| %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(f)), d['property'], d['what_it_breaks'].replace('|', '/'), d['needs'].replace('|', '/'))
open(p, 'w').write(s)
