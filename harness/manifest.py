"""Writes MANIFEST.json from props.PROPS (run after adding a property)."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
from notes import NOTES

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = ('explicit TLA+ specification checked with TLC; bound to the code by trace validation: %s, '
        'executed on the real code and judged event by event by UffTrace.tla')
checks, na = [], []
for p in ids:
    s = props.PROPS.get(p)
    if s is None:
        na.append({'property': p, 'reason': 'check under construction'})
        continue
    cmd = '/opt/venv/bin/python harness/check.py %s --tier ' % p
    checks.append({'property': p, 'quick_cmd': cmd + 'quick', 'thorough_cmd': cmd + 'thorough',
                   'technique': TECH % NOTES[p][0],
                   'level': s.get('level', props.LEVEL), 'level_note': NOTES[p][1]})
m = {'version': 1, 'setup_cmd': 'sh harness/setup.sh', 'checks': checks, 'not_applicable': na,
     'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the checks call the public interface', 'source_commits': []}}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
