#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os
V = '/verif'
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe, technique, note,
         level='exploration', state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, level=level, state=state or []))
exec(open(V + '/tools/props_table.py').read())

with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'],
                              mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                              observe_at=p['observe'], hook_needed=None))
        if p['state']:
            d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in p['state']]
        f.write(json.dumps(d) + '\n')
done = set(CLAIMED)
m = dict(version=1, setup_cmd='bash tools/setup.sh',
         hooks=dict(guard='none: no hooks were needed', enable='every property is observed through public interfaces, sockets and files', source_commits=[]),
         checks=[dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'],
                      thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                      evidence_file='evidence/%s.json' % p['id'], technique=p['technique'],
                      level=p['level'], level_note=p['note']) for p in P if p['id'] in done],
         not_applicable=[dict(property=p['id'], reason=NOT_APPLICABLE.get(p['id'], 'not claimed yet: its check is under construction'))
                         for p in P if p['id'] not in done])
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties,', len(done), 'claimed')
