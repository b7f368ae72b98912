#!/usr/bin/env python3
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import run; from registry import CHECKS
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
import subprocess
hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h', '--grep=^hook:'], capture_output=True, text=True).stdout.split()
m = {'version': 1, 'setup_cmd': 'python3 -c "print(\'nothing to set up: every check builds what it needs\')"',
     'checks': [], 'not_applicable': []}
if hooks:
    m['hooks'] = {'guard': 'PARMCB_VERIF', 'enable': 'harnesses compile with -DPARMCB_VERIF', 'source_commits': hooks}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 run.py %s quick' % i, 'thorough_cmd': 'python3 run.py %s thorough' % i,
                            'evidence_file': 'evidence/%s.json' % i, 'technique': c['technique'], 'level': 'exploration', 'level_note': c['note']})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'check not built yet'})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
