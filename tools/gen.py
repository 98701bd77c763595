#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__)); sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..'))
import props; from checks.table import CHECKS
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
ps = sorted(props.P, key=lambda p: p['id'])
assert len({p['id'] for p in ps}) == len(ps)
with open(R + '/properties.jsonl', 'w') as f:
    for p in ps:
        assert len(p['title']) <= 80, p['title']
        for x in p['files']: assert os.path.exists('/repo/' + x), x
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['q']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], **({'state': p['state']} if p['state'] else {})))) + '\n')
m = dict(version=1, setup_cmd='python3 run.py --build', checks=[], not_applicable=[])
for p in ps:
    assert p['id'] in CHECKS or p.get('na'), p['id']
    if p['id'] in CHECKS:
        m['checks'].append(dict(property=p['id'], quick_cmd='python3 run.py %s quick' % p['id'], thorough_cmd='python3 run.py %s thorough' % p['id'], technique=p['technique'], level='model_checking', level_note=p['note']))
for i, r in getattr(props, 'NA', []): m['not_applicable'].append(dict(property=i, reason=r))
m['notes'] = 'One engine (mc/): the unmodified library is compiled from /repo into a shared object with its own arena allocator; its whole writable memory can be saved, restored and hashed, so the real code is the transition system that is explored.'
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1); open(R + '/MANIFEST.json', 'a').write('\n')
head = open(R + '/tools/design_head.md').read(); tail = open(R + '/tools/design_tail.md').read()
import glob
rows = ['| bug | property | what it breaks | what it needs |', '|---|---|---|---|']
for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
    d = json.load(open(f)); rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), d['property'], d['what_it_breaks'], d['needs']))
tail = tail.replace('@SEEDS@', '\n'.join(rows))
s = head + '\n## The properties and how each is decided\n'
for p in ps: s += '\n### %s %s\n\n*%s* — quick variants: %s; thorough: %s.\n\n%s\n\nBounds: %s. Assurance: %s\n' % (p['id'], p['title'], p['technique'], ', '.join(CHECKS[p['id']]['quick']), ', '.join(CHECKS[p['id']].get('thorough', CHECKS[p['id']]['quick'])), p['design'][0].upper() + p['design'][1:], p['q'], p['note'])
open(R + '/DESIGN.md', 'w').write(s + '\n' + tail)
print(len(ps), 'properties')
