#!/usr/bin/env python
"""Writes DESIGN.md from tools/design/*.md, the property descriptions of tools/meta.py and the families of wizmon/props."""
import os, sys, json, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'tools'), '/repo']
sys.dont_write_bytecode = True
import importlib, meta
rd = lambda n: open(os.path.join(HERE, 'tools', 'design', n)).read() if os.path.exists(os.path.join(HERE, 'tools', 'design', n)) else ''
out = [rd('head.md'), '\n## Properties: what is specified, executed, monitored, and against what\n']
for d in meta.P:
    m = importlib.import_module('wizmon.props.' + d['id'])
    out.append('### %s %s\n' % (d['id'], d['title']))
    out.append(d['statement'] + '\n')
    out.append('* **Ranges over:** %s (%s).\n* **Beyond the tests:** %s' % (d['text'], ', '.join(d['over']), d['why']))
    out.append('* **Observed at:** %s. **Oracle:** %s.' % (', '.join('`%s`' % o for o in d['observe']), d['oracle']))
    out.append('* **Workload:** %s.' % m.RULE.rstrip('.'))
    for f in m.FAMILIES:
        doc = ' '.join((f.func.__doc__ or f.rule or '').split())
        out.append('  * `%s` (%d quick / %d thorough cases)%s' % (f.name, f.quick, f.thorough, ': ' + doc if doc else ''))
    out.append('* **Bounds:** %s.%s\n' % (d['note'].rstrip('.'), ''.join(' Assumption: %s.' % a.rstrip('.') for a in m.ASSUMPTIONS)))
t = rd('tail.md')
kf = json.load(open(os.path.join(HERE, 'known_findings.json')))
t = t.replace('@FIXED@', '\n'.join('* ' + f[len('fixed: property='):] for f in kf['fixed']))
rows = []
res = json.load(open(os.path.join(HERE, 'tools', 'design', 'caught.json'))) if os.path.exists(os.path.join(HERE, 'tools', 'design', 'caught.json')) else {}
for p in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    mj = json.load(open(p)); i = os.path.basename(os.path.dirname(p))
    rows.append('| %s | %s | %s | %s |' % (i, mj['property'], mj['what_it_breaks'].replace('|', '/'), ', '.join(res.get(i, [])) or '?'))
t = t.replace('@SEEDED@', '| change | property | what it breaks | caught by (its own check, quick, seed 1) |\n|---|---|---|---|\n' + '\n'.join(rows)).replace('@SWEEPS@', rd('sweeps.md'))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n' + t)
