#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below (run by hand when the table changes)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), claim=None, note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, claim=claim, note=note, na=na))
B = 'BibleOrgSys/'
exec(open(os.path.join(HERE, 'tools', 'table.py')).read())
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = dict(files=[B + x for x in p['files']], mechanism=[dict(name=n, where=B + w) for n, w in p['mech']])
        if p['state']: a['state'] = [dict(name=n, meaning=m) for n, m in p['state']]
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                why_tests_cant=p['why'], anchors=a)) + '\n')
m = dict(version=1, setup_cmd='python3-vt -c "import z3"',
         checks=[dict(property=p['id'], quick_cmd=f'python3-vt check.py {p["id"]}', thorough_cmd=f'python3-vt check.py {p["id"]} --thorough',
                      technique='contracts on the repository functions; verification conditions from their current source by symbolic execution, discharged by z3 and cvc5',
                      level=p['claim'], level_note=p['note']) for p in P if p['claim']],
         not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if not p['claim']],
         notes='No hooks: the checks read and import the unmodified sources of /repo. Fix commits in /repo are listed in KNOWN_FINDINGS.json.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1)
