#!/usr/bin/env python3
"""Write MANIFEST.json from the checks that exist and the reasons below."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# properties a static analysis cannot decide here
NA = {}
NOT_BUILT = 'No check has been built for this property yet.'

checks, na = [], []
for l in open(HERE + '/properties.jsonl'):
    p = json.loads(l)
    pid = p['id']
    f = '%s/engine/checks/%s.py' % (HERE, pid.lower())
    if os.path.exists(f) and pid not in NA:
        m = ast.parse(open(f).read())
        doc = ' '.join((ast.get_docstring(m) or '').split())
        con = {n.targets[0].id: ast.literal_eval(n.value) for n in m.body
               if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('RULE', 'TECHNIQUE', 'NOTE')}
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 engine/check.py ' + pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': con.get('TECHNIQUE', 'static analysis of flattened compiler IR: ') if 'TECHNIQUE' in con
            else 'static dataflow analysis of flattened compiler IR: ' + con['RULE'],
            'level': 'other',
            'level_note': con.get('NOTE') or (
                'Static: every construct the rule covers in the current sources is inspected on every path of the '
                'flattened program; no code is executed. ' + doc.split('. ')[0].rstrip('.') + '.'),
        })
    else:
        na.append({'property': pid, 'reason': NA.get(pid, NOT_BUILT)})
man = {'version': 1, 'setup_cmd': 'python3 engine/setup.py', 'checks': checks, 'not_applicable': na,
       'notes': 'Checks analyse the LLVM IR of the current /repo sources; see DESIGN.md. '
                'Findings are recorded in known_findings.txt.'}
json.dump(man, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
