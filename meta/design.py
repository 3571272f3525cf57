"""Writes DESIGN.md from its head, the properties, the findings and the seeded changes."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks.table import SPECS
try:
    from checks.table import OTHER
except ImportError:
    OTHER = {}
out = [open(H + '/meta/design_head.md').read()]
m = json.load(open(H + '/MANIFEST.json'))
na = {x['property']: x['reason'] for x in m.get('not_applicable', [])}
out.append('## 2. Properties\n')
for l in open(H + '/properties.jsonl'):
    d = json.loads(l)
    i = d['id']
    if i in na:
        continue
    out.append('### %s %s' % (i, d['title']))
    if i in SPECS:
        out.append(SPECS[i][2] + ' (`%s`, at least %d functions.)' % ('`, `'.join('specs/' + f for f in SPECS[i][0]), SPECS[i][1]))
    if i in OTHER:
        out.append(OTHER[i])
    out.append('')
out.append('## 3. Not applicable\n')
for i in na:
    t = [json.loads(l) for l in open(H + '/properties.jsonl')]
    t = [d['title'] for d in t if d['id'] == i][0]
    out.append('* **%s %s**: %s' % (i, t, na[i]))
out.append('\n## 4. Defects found\n')
out.append('Repaired in `/repo` (`fix:` commits; each check reports the defect again on the unrepaired tree):\n')
K = json.load(open(H + '/known-findings.json'))
for e in K:
    if e.get('status') != 'known':
        out.append('* %s' % e['text'].replace('fixed: property=', ''))
out.append('\nRecorded, not repaired:\n')
kn = [e for e in K if e.get('status') == 'known']
for e in kn:
    out.append('* %s: %s' % (e['property'], e['what']) + (' - ' + e['why'] if e.get('why') else ''))
if not kn:
    out.append('* none')
out.append('\n## 5. Planted changes\n')
out.append('| id | property | what | needs | caught by |\n|---|---|---|---|---|')
S = H + '/seeded'
for b in sorted(os.listdir(S)):
    j = json.load(open(S + '/' + b + '/meta.json'))
    out.append('| %s | %s | %s | %s | %s |' % (b, j['property'], j['what_it_breaks'], j['needs'], j.get('caught_by', j['property'])))
t = H + '/meta/design_tail.md'
if os.path.exists(t):
    out.append('\n' + open(t).read())
open(H + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
