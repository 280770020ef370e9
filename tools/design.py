#!/usr/bin/env python3
"""Regenerates the per-property section and the tables of DESIGN.md from checks/specs.py, known_findings.jsonl and seeded/."""
import sys, os, json, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/checks')
import specs
out = []
for pid, p in specs.PROPS.items():
    out.append('### %s %s\n' % (pid, p['title']))
    out.append(p['statement'] + '\n')
    for r in p['runs']:
        b = r.get('bounds') or {}
        t = r.get('thorough') or {}
        out.append('- run `%s`: sources %s; bounds: %s%s%s' % (r['name'], ' '.join(s.lstrip('@') for s in r['src']) , r.get('domain', ''), ('; quick ' + json.dumps(b)) if b else '', ('; thorough ' + json.dumps(t)) if t else ''))
    if p.get('oracle'): out.append('- oracle: ' + p['oracle'])
    out.append('- quantified over: ' + p['text'])
    out.append('- why tests cannot settle it: ' + p['why'])
    if p.get('cost'): out.append('- cost: ' + p['cost'])
    out.append('- outside the bounds: ' + p['outside'] + '\n')
out.append('\n## Not applicable\n')
for k, v in getattr(specs, 'NOT_APPLICABLE', {}).items():
    out.append('- %s: %s' % (k, v['reason'] if isinstance(v, dict) else v))
out.append('\n## Defects found on the original tree\n')
for l in open(V + '/known_findings.jsonl'):
    l = l.strip()
    if l: d = json.loads(l); out.append('- ' + d.get('entry', l))
out.append('\n## Planted bugs\n\nThe check of the named property reports each of these (checked by tools and vcheck) unless marked MISSED.\n')
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    out.append('- `%s` (%s)%s: %s Needs: %s' % (i, d['property'], ' **MISSED**' if d.get('missed') else '', d['what_it_breaks'], d['needs']) + (' (' + d['history'] + ')' if d.get('history') else ''))
f = V + '/DESIGN.md'
s = open(f).read()
a = s.index('<!-- PROPS -->')
head = s[:a]
tail = ''
if '<!-- END -->' in s: tail = s[s.index('<!-- END -->') + len('<!-- END -->'):]
open(f, 'w').write(head + '<!-- PROPS -->\n\n' + '\n'.join(out) + '\n\n<!-- END -->' + tail)
