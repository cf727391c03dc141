#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, checks.json and tools/na.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(root + '/checks.json'))
na = json.load(open(root + '/tools/na.json'))
props = [json.loads(l)['id'] for l in open(root + '/properties.jsonl')]
def have(p):
    for d, _, fs in os.walk(root + '/harness'):
        for f in fs:
            if f.endswith('.go') and 'func H_%s_' % p in open(d + '/' + f).read():
                return True
    return False
out = {'version': 1, 'setup_cmd': 'bash /verif/setup.sh', 'checks': [], 'not_applicable': [], 'notes': 'See DESIGN.md. All checks run the symbolic execution engine in /verif/engine on harnesses in /verif/harness (overlaid onto /repo, nothing is written there).'}
for p in props:
    if p in checks and have(p):
        c = checks[p]
        out['checks'].append({
            'property': p,
            'quick_cmd': 'bash /verif/run.sh %s quick' % p,
            'thorough_cmd': 'bash /verif/run.sh %s thorough' % p,
            'evidence_file': '/verif/evidence/%s.json' % p,
            'technique': c.get('technique', 'symbolic execution of the real code from its SSA form (go/ssa), path conditions and assertions decided by z3 (SMT); counterexamples replayed natively'),
            'level': 'model_checking',
            'level_note': c.get('note', 'bounded: every input within the bounds stated per harness in the evidence; nothing is claimed outside them'),
        })
    else:
        out['not_applicable'].append({'property': p, 'reason': na.get(p, 'no check yet')})
json.dump(out, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
