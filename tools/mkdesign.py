#!/usr/bin/env python3
"""Fills tools/design.md in: DESIGN.md."""
import json, os, subprocess, re
m = json.load(open('/verif/MANIFEST.json'))
props = {p['id']: p for p in map(json.loads, open('/verif/properties.jsonl'))}
units = {}
if os.path.exists('/tmp/govc'):
    for l in subprocess.run(['/tmp/govc', 'units'], capture_output=True, text=True).stdout.splitlines():
        n, ps = l.rsplit(' [', 1)
        for p in ps.rstrip(']').split():
            units.setdefault(p, []).append(n)
    json.dump(units, open('/verif/tools/units.json', 'w'), indent=0)
units = json.load(open('/verif/tools/units.json'))
rows = []
for c in m['checks']:
    i = c['property']
    us = units.get(i, [])
    us = [u.replace('ecmascript/', '') for u in us]
    if len(us) > 30:
        us = ['%d functions: %s, …' % (len(us), ', '.join('`%s`' % u for u in us[:3]))]
    else:
        us = [', '.join('`%s`' % u for u in us)]
    note = c['level_note']
    note, _, tail = note.partition('Trusted: ')
    tail = tail.partition('(listed in the evidence). ')[2]
    rows.append('| %s %s | proof: %s | %s | %s |' % (i, props[i]['title'], note.strip(), us[0], tail.strip() or 'section 4'))
seeds = []
caught = json.load(open('/verif/tools/caught.json')) if os.path.exists('/verif/tools/caught.json') else {}
for s in sorted(os.listdir('/verif/seeded')):
    d = json.load(open('/verif/seeded/%s/meta.json' % s))
    seeds.append('| %s | %s | %s | %s | %s |' % (s, d['property'], d['needs'], d['what_it_breaks'], caught.get(s, '')))
t = open('/verif/tools/design.md').read()
t = t.replace('@@TABLE@@', '\n'.join(rows)).replace('@@EXTRA@@', '')
t = t.replace('@@SEEDS@@', '| change | property | needs | breaks | check |\n|---|---|---|---|---|\n' + '\n'.join(seeds))
t = t.replace('@@NA@@', '\n'.join('* **%s** %s: %s.' % (n['property'], props[n['property']]['title'], n['reason']) for n in m['not_applicable']))
open('/verif/DESIGN.md', 'w').write(t)
