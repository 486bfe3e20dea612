#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions in props.py."""
import json
import os
import re

import props

HERE = os.path.dirname(os.path.abspath(__file__))
B = 'ebu_tt_live/'
NOTE = ('Every execution in the stated space is run on the real code (a copy of the working tree, made for the run) and '
        'compared with an independent reference; no sampling. Trusts: Jython and PyXB, the reference in mc/, and that '
        'the small scope shows the fault. ')
checks = []
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['all']}, 'why_tests_cant': p['why'],
            'anchors': {'files': [B + x for x in p['files']],
                        'mechanism': [{'name': n, 'where': B + w} for n, w in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
        assert len(re.findall(r'[.!?](?:\s|$)', p['statement'])) <= 3, 'three sentences: ' + p['id']
        assert len(p['title']) <= 80, p['title']
        if p.get('na'):
            continue
        c = {'property': p['id'], 'quick_cmd': 'python3 run.py %s --tier quick' % p['id'],
             'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'],
             'technique': p['technique'], 'level': 'model_checking', 'level_note': NOTE + p.get('note', '')}
        checks.append(c)
json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q run.py mc >/dev/null 2>&1; python3 run.py --selftest',
           'checks': checks,
           'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in props.PROPS if p.get('na')] + props.NOT_CLAIMED,
           'notes': 'run.py copies the package of the working tree of /repo to a scratch folder and explores it there; '
                    'see DESIGN.md. known_findings.json lists the genuine defects that are recorded or were repaired.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
