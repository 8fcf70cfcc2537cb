#!/usr/bin/env python3
"""Rewrite the table of DESIGN.md section 7 from a file of lines
'<seed> <PROP> rc=<n> <secs>s VIOLATION ... SCEN=<scenario>' (see tools/seedtab.sh)."""
import json, re, sys
rows = {}
for l in open(sys.argv[1]):
    m = re.match(r'(\S+) (\w+) rc=(\d+) (\S+) .*SCEN=(\S+)', l)
    if m:
        rows.setdefault(m[1], []).append((m[2], m[3], m[5]))
missed = {
    'e02-late-report-wedges': 'e02/operations added',
    't03-key-without-type': 't03/identities added',
    't04-drops-when-full': 't04/blocked added',
    'v01-cleanup-interrupted': 'oracle of V01 tightened',
}
out = ['| Seed | What it breaks | Caught by |', '|---|---|---|']
for s in sorted(rows):
    meta = json.load(open(f'/verif/seeded/{s}/meta.json'))
    what = meta['what_it_breaks'].replace('|', '/').replace('\n', ' ')
    by = ', '.join(f'{p} ({sc})' if rc == '1' else f'{p}: NOT CAUGHT' for p, rc, sc in rows[s])
    if s in missed:
        by += f'; at first missed: {missed[s]}'
    out.append(f'| {s} | {what} | {by} |')
d = open('/verif/DESIGN.md').read()
intro = '''Each was written from a property and the code, validated against the stable
tests and its own demo, and run against the quick check of its property. The
scenario is the first that reports it.

'''
d = re.sub(r'(## 7 Planted bugs\n\n).*?(\n## 8 )', lambda m: m[1] + intro + '\n'.join(out) + '\n' + m[2], d, flags=re.S)
open('/verif/DESIGN.md', 'w').write(d)
