#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state, observe=observe))
exec(open(os.path.join(V, 'tools', 'table.py')).read())
for p in P:
    for f in p['files'] + [w for _, w in p['mech']]:
        assert os.path.exists('/repo/' + f), (p['id'], f)
P.sort(key=lambda p: p['id'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
        if p['state']: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
        if p['observe']: a['observe_at'] = p['observe']
        a['hook_needed'] = None
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'], anchors=a), ensure_ascii=False) + '\n')
m = dict(version=1, setup_cmd='bash run.sh setup',
    checks=[dict(property=p['id'], quick_cmd='VERIF_TIER=quick bash run.sh check ' + p['id'],
        thorough_cmd='VERIF_TIER=thorough bash run.sh check ' + p['id'],
        evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='exploration', level_note=p['note']) for p in P],
    not_applicable=[],
    notes='No hooks in /repo: every monitor observes the public API of the crate (and, for the command line, its process). All checks build /verif/harness against /repo with debug assertions and overflow checks on, run 8 monitored worker processes and decide from what they observed. known-findings.txt lists the defects repaired.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write('\n')
print(len(P), 'properties')
