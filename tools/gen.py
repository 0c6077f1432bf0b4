#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Q = 'src/query-interface/advancedQueries.c'; S = 'src/query-interface/schema.c'; U = 'lib/EmbedDB-Utility/embedDBUtility.c'
E = 'src/embedDB/embedDB.c'; SP = 'src/spline/spline.c'; F = 'lib/Desktop-File-Interface/desktopFileInterface.c'
P = []


def p(id, title, statement, over, text, why, files, mech, note, state=(), na=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append((d, note, na))


exec(open(os.path.join(V, 'tools', 'props.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d, n, na in P:
        f.write(json.dumps(d) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 vf/setup.py',
       'hooks': {'guard': 'EMBEDDB_VERIFY', 'enable': 'goto-cc -DEMBEDDB_VERIFY -include /verif/vf/loops.h (only the units with loop contracts)', 'source_commits': HOOKS},
       'checks': [{'property': d['id'], 'quick_cmd': 'python3 vf/check.py ' + d['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 vf/check.py %s --tier thorough' % d['id'],
                   'technique': 'function contracts on the real C code, discharged by CBMC (goto-instrument --dfcc --enforce-contract)', 'level': {'C07': 'other', 'C16': 'other'}.get(d['id'], 'proof'), 'level_note': n} for d, n, na in P if not na],
       'not_applicable': [{'property': d['id'], 'reason': na} for d, n, na in P if na]}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(man['checks']), 'checks,', len(man['not_applicable']), 'not applicable')
