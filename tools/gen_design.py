#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + per-property sections (properties.jsonl, the harness' own rule
texts, tools/design_notes.json) + the table of planted bugs + tools/design_tail.md."""
import json, os, re, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
notes = json.load(open(R + '/tools/design_notes.json'))
out = [open(R + '/tools/design_head.md').read()]
def rs_field(src, name):
    m = re.search(r'\b%s: "((?:[^"\\]|\\.)*)"' % name, src); return m.group(1).replace('\\"', '"') if m else ''
def rs_list(src, name):
    m = re.search(r'\b%s: &\[(.*?)\],?\n' % name, src, re.S); return re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(1)) if m else []
for p in props:
    src = open(R + '/harness/src/props/%s.rs' % p['id'].lower()).read()
    n = notes[p['id']]
    out.append('### %s %s\n\n' % (p['id'], p['title']))
    out.append('*Enumerated:* %s.\n\n' % rs_field(src, 'rule').rstrip('.'))
    out.append('*Oracle:* %s\n\n' % n['oracle'])
    out.append('*Bounds and cost:* %s\n\n' % n['bounds'])
    a = rs_list(src, 'assumptions')
    if a: out.append('*Assumptions:* %s.\n\n' % '; '.join(a))
    out.append('*What tests cannot reach:* %s\n\n' % p['why_tests_cant'])
out.append('## 3. Planted bugs and what catches them\n\n')
out.append("Each is in `seeded/<id>/` (patch, demonstration, meta), was written from a property's text and the code alone, compiles, and passes the 32 tests.  The check named is the property's own; most are caught by others too.\n\n")
caught = json.load(open(R + '/tools/caught.json'))
out.append('| planted bug | needs | caught by |\n|---|---|---|\n')
for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    out.append('| %s | %s | %s |\n' % (i, m['needs'].replace('|', '/'), caught.get(i, m['property'])))
out.append('\n' + notes['seeding'] + '\n')
out.append(open(R + '/tools/design_tail.md').read())
open(R + '/DESIGN.md', 'w').write(''.join(out))
