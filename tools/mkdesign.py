#!/usr/bin/env python3
"""Writes DESIGN.md from design_intro.md and design_body.md, with the lists of
defects (known-findings.jsonl) and of planted bugs (seeded/)."""
import glob, json, os

os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
fixes = []
for l in open('known-findings.jsonl'):
    if l.strip():
        e = json.loads(l)
        fixes.append('* ' + e['entry'])
bugs = []
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f))
    bugs.append('| %s | %s | %s |' % (f.split('/')[1], m['property'], m['needs'].replace('|', '\\|')))
s = open('tools/design_intro.md').read() + open('tools/design_body.md').read()
s = s.replace('%MISSED%\n', '').replace('%FIXES%', '\n'.join(fixes)).replace('%BUGS%', '\n'.join(bugs))
open('DESIGN.md', 'w').write(s)
