#!/usr/bin/env python3
"""Regenerates MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import check, props
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': []}
NA = {}
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        m['checks'].append({
            'property': i,
            'quick_cmd': 'python3 tools/check.py %s --tier quick' % i,
            'thorough_cmd': 'python3 tools/check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': p.get('technique', 'runtime monitoring: the real code, built with ASan+UBSan, under generated workloads; an independent oracle judges every observed result'),
            'level': 'exploration',
            'level_note': p.get('note', 'Assurance for the executions observed (counted in the evidence file); ' + p['rule'].split(';')[0] + '. Trusts: ' + '; '.join(p.get('assumptions', [])) + '.')})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m['notes'] = 'No hooks in /repo: all observation happens at public interfaces, through generator classes owned by the harness, and through the sanitizers. Genuine defects repaired in /repo are the "fix:" commits listed in known-findings.txt.'
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
