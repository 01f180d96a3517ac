#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.head.md, the property table, the doc
comments of the harnesses, known_findings.jsonl and the planted bugs."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
docs = {}
for f in sorted(glob.glob(R + '/harness/h*/c*.go')):
    s = open(f).read()
    for m in re.finditer(r'((?:^//.*\n)+)func (C\d\d\w*)\(\)', s, re.M):
        docs.setdefault(m.group(2)[:3], []).append((m.group(2), ' '.join(l.lstrip('/ ').strip() for l in m.group(1).splitlines())))
notes = {}
cur = None
for l in open(R + '/tools/design.notes.md'):
    m = re.match(r'^(C\d\d): ?(.*)', l)
    if m:
        cur = m.group(1); notes[cur] = m.group(2).strip()
    elif cur and l.strip():
        notes[cur] += ' ' + l.strip()
out = open(R + '/tools/design.head.md').read().rstrip() + '\n\n## Properties, one by one\n\n'
out += ('Method of every one: symbolic execution of the real code plus SMT as described above; oracle, bounds and '
        'harnesses below. Every harness is run by both tiers; the thorough tier raises the bounds in brackets.\n')
for l in open(R + '/properties.jsonl'):
    d = json.loads(l); i = d['id']
    out += '\n### %s %s\n\n' % (i, d['title'])
    out += 'Bounds: ' + d['quantifier']['text'] + '\n\n'
    if i in notes: out += 'Oracle and cost: ' + notes[i] + '\n\n'
    out += 'Why tests cannot: ' + d['why_tests_cant'] + '\n\n'
    for n, t in docs.get(i, []):
        t = re.sub(r'^%s:?\s*' % n, '', t)
        out += '* `%s`: %s\n' % (n, t)
out += '\n## Repaired defects\n\n'
for l in open(R + '/known_findings.jsonl'):
    if l.startswith('fixed:'): out += '* ' + l[6:].strip() + '\n'
out += '\n' + open(R + '/tools/design.tail.md').read().rstrip() + '\n\n## Planted bugs and what catches them\n\n'
out += 'Each was first run against the checks as they stood; "missed at first" says what was strengthened.\n\n| id | property | needs | outcome |\n|---|---|---|---|\n'
miss = {}
for l in open(R + '/tools/design.missed.md'):
    if ':' in l:
        a, b = l.split(':', 1); miss[a.strip()] = b.strip()
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open(R + '/seeded/%s/meta.json' % d))
    o = miss.get(d, 'caught')
    out += '| %s | %s | %s | %s |\n' % (d, m['property'], m['needs'].replace('|', '/'), o)
open(R + '/DESIGN.md', 'w').write(out)
