#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and checks.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(H + '/checks.json'))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': [],
     'notes': 'Every check translates the optimised, overflow-checked LLVM IR of /repo (plus a harness) to SMT and '
              'executes it symbolically; see DESIGN.md. No hooks are needed in /repo.'}
for p in props:
    c = checks.get(p['id'])
    if c is None or c.get('bounds') == 'x':
        m['not_applicable'].append({'property': p['id'], 'reason': 'no check has been built yet'})
    elif 'not_applicable' in c:
        m['not_applicable'].append({'property': p['id'], 'reason': c['not_applicable']})
    else:
        m['checks'].append({
            'property': p['id'],
            'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
            'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
            'technique': 'bounded symbolic execution of the compiled code (LLVM IR) decided by an SMT solver (Z3)',
            'level': 'model_checking',
            'level_note': c.get('note') or ('Holds for every input within the bounds: ' + c['bounds'] + '. Trusted: rustc, the IR-to-SMT '
                                            'translation (sampled against native runs on every check), Z3, the harness.'),
        })
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
