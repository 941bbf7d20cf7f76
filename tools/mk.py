#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, level_note=None, na=None, state=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b) for a, b in state]
    P.append((d, level_note, na))


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d, _, _ in P:
        f.write(json.dumps(d) + "\n")
man = dict(version=1, setup_cmd='python3-vt -c "import z3"',
           hooks=dict(guard='ECV_HOOKS (unused: no hooks were needed in /repo)', enable='nothing to enable; the checks compile the unmodified sources', source_commits=[]),
           checks=[dict(property=d['id'], quick_cmd='python3-vt check.py %s quick' % d['id'], thorough_cmd='python3-vt check.py %s thorough' % d['id'],
                        technique='contract-based deductive verification of the C functions (clang IR, weakest preconditions, z3)', level='proof', level_note=n)
                   for d, n, na in P if not na],
           not_applicable=[dict(property=d['id'], reason=na) for d, n, na in P if na])
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write("\n")
