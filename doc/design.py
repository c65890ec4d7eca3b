"""regenerates DESIGN.md from doc/design.in"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = json.load(open(R + '/MANIFEST.json'))
props = {}
for l in open(R + '/properties.jsonl'):
    p = json.loads(l); props[p['id']] = p
ck = {c['property']: c for c in man['checks']}
na = {c['property']: c['reason'] for c in man['not_applicable']}
out = []
det = {}
exec(open(R + '/doc/details.py').read(), det) if os.path.exists(R + '/doc/details.py') else None
D = det.get('DETAIL', {})
for i, p in props.items():
    out.append('### %s %s\n' % (i, p['title']))
    if i in na:
        out.append('Not applicable: %s\n' % na[i]); continue
    out.append('*Technique*: %s. *Level*: %s. %s\n' % (ck[i]['technique'], ck[i]['level'], ck[i]['level_note']))
    if i in D: out.append(D[i].strip() + '\n')
    out.append('*Beyond tests*: %s\n' % p['why_tests_cant'])
fx = ['- ' + x for x in json.load(open(R + '/known_findings.json'))['fixed']]
sd = ['| id | property | what it breaks | needs | reported |', '|---|---|---|---|---|']
caught = json.load(open(R + '/doc/seed_results.json')) if os.path.exists(R + '/doc/seed_results.json') else {}
for s in sorted(os.listdir(R + '/seeded')) if os.path.isdir(R + '/seeded') else []:
    m = json.load(open(R + '/seeded/' + s + '/meta.json'))
    sd.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'], m['needs'], caught.get(s, '?')))
t = open(R + '/doc/design.in').read()
open(R + '/DESIGN.md', 'w').write(t.replace('%PROPS%', '\n'.join(out)).replace('%FIXED%', '\n'.join(fx)).replace('%SEEDS%', '\n'.join(sd)))
