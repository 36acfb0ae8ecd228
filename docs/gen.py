#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
P = []
def prop(id, title, statement, over, text, why, files, mech, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, observe=observe))
NA = []
def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=None, observe=None))
    NA.append(dict(property=id, reason=reason))
exec(open(os.path.join(here, 'props.py')).read())
P.sort(key=lambda p: p['id'])
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['observe']:
            a['observe_at'] = p['observe']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
nas = {n['property'] for n in NA}
T = ("contract-based deductive verification: contracts (Go text under contracts/) on the real code, obligations generated by "
     "symbolic execution of go/ssa built from /repo's current source, loops summarised by inductively checked closed forms, "
     "discharged by the govc simplifier and Z3")
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': NA,
     'notes': 'No hooks in /repo. check.sh PROPERTY [thorough]; known findings in known-findings.txt; see DESIGN.md.'}
for p in P:
    if p['id'] in nas:
        continue
    m['checks'].append({'property': p['id'], 'quick_cmd': 'bash check.sh ' + p['id'], 'thorough_cmd': 'bash check.sh %s thorough' % p['id'],
        'technique': T, 'level': 'proof', 'level_note': p['note']})
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)

# DESIGN.md
import re, glob
out = [open(os.path.join(here, 'design_head.md')).read()]
for p in P:
    out.append('### %s %s\n\n%s\n\nQuantified over: %s.\n\nWhy tests cannot: %s\n' % (p['id'], p['title'], p['statement'], p['text'], p['why']))
    if p['id'] in nas:
        out.append('Not applicable: %s\n' % [n['reason'] for n in NA if n['property'] == p['id']][0])
        continue
    items = []
    for fn in sorted(glob.glob(os.path.join(root, 'contracts', p['id'].lower(), '*.go'))):
        for mm in re.finditer(r'((?://[^\n]*\n)+)func (Contract|Bounded)(\w+)\(\) \{', open(fn).read()):
            doc = ' '.join(l[2:].strip() for l in mm.group(1).strip().split('\n'))
            doc = re.sub(r' ?runs=\d+', '', doc)
            doc = re.sub(r'^(Contract|Bounded)\w+: ', '', doc)
            items.append((mm.group(2), '* `%s%s` (%s) %s' % (mm.group(2), mm.group(3), 'proved' if mm.group(2) == 'Contract' else 'bounded', doc)))
    items.sort(key=lambda x: x[0] != 'Contract')
    out.append('\n'.join(i for _, i in items) + '\n')
    n = p['note'].replace(BASE, '').strip()
    if n:
        out.append(n + '\n')
out.append(open(os.path.join(here, 'design_tail.md')).read())
rows = []
for d in sorted(glob.glob(os.path.join(root, 'seeded', '*'))):
    j = json.load(open(os.path.join(d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(d), j['property'], j['what_it_breaks'].replace('|', '/'), j.get('caught', '').replace('|', '/')))
out.append('## 7. Planted bugs\n\n| bug | property | what it breaks | caught by |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n')
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out))
