#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks present under checks/."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python -B check.py'
ABS = 'abstract interpretation of the source over unbounded abstract ' \
      'inputs (loop summaries over symbolic collections, path-sensitive ' \
      'facts)'
TECH = {}
NOTE = {}
NA = {
    'C33': 'That reported durations are true elapsed times quantifies over '
           'the behaviour of the wall clock at run time; nothing in the '
           'source decides it.',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(
        ROOT, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        pid = p['id']
        mod = os.path.join(ROOT, 'checks', pid.lower() + '.py')
        if pid in NA or not os.path.exists(mod):
            na.append({'property': pid, 'reason': NA.get(
                pid, 'No check yet: the analysis of this part of the code '
                'has not been built.')})
            continue
        checks.append({
            'property': pid,
            'quick_cmd': '%s %s quick' % (PY, pid),
            'thorough_cmd': '%s %s thorough' % (PY, pid),
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': TECH.get(pid, ABS),
            'level': 'other',
            'level_note': NOTE.get(
                pid, 'Static: every obligation is decided on the abstract '
                'semantics of the current source, for collections of any '
                'size; what the interpreter cannot decide is counted as '
                'undecided in the evidence and raises no alarm.'),
        })
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
                   'not_applicable': na}, f, indent=1)
        f.write('\n')


main()
