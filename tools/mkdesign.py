#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md from known-findings.txt and seeded/*/meta.json."""
import json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
t = open('DESIGN.md').read()
def put(name, body):
    global t
    a, b = f'<!-- {name} -->\n', f'<!-- end {name} -->'
    assert a in t, name
    i = t.index(a) + len(a)
    t = t[:i] + body + t[t.index(b):]
rows = []
for l in open('known-findings.txt'):
    m = re.match(r'(fixed|open): property=(\S+) (\S+) (.*)', l)
    if m:
        rows.append(f'| {m[2]} | {m[3]} | {m[4].strip()} |\n')
put('defects', '| property | commit | what failed |\n|---|---|---|\n' + ''.join(rows))
missed = set(open('tools/missed.txt').read().split()) if os.path.exists('tools/missed.txt') else set()
rows = []
for d in sorted(os.listdir('seeded')):
    m = json.load(open(f'seeded/{d}/meta.json'))
    cut = lambda s: s.replace('|', '/').replace('\n', ' ')
    rows.append(f"| {d} | {m['property']} {'**missed**' if d in missed else 'caught'} | {cut(m['needs'])} |\n")
put('matrix', '| bug | check | needs |\n|---|---|---|\n' + ''.join(rows))
open('DESIGN.md', 'w').write(t)
