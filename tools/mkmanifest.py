#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of checks in check.py."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, ROOT); sys.path.insert(0, os.path.join(ROOT, 'lib'))
import check
LEVEL = {}
TECH = {}
NOTE = {}
exec(open(os.path.join(ROOT, 'tools', 'manifest_notes.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 setup.py',
     'checks': [], 'not_applicable': [],
     'notes': 'No hooks: every observation goes through the public API (or the generator command line). See DESIGN.md.'}
for p in props:
    if p in check.PROPS:
        m['checks'].append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p,
                            'thorough_cmd': 'python3 check.py %s thorough' % p,
                            'technique': TECH.get(p, TECH_DEFAULT), 'level': 'model_checking',
                            'level_note': NOTE.get(p, NOTE_DEFAULT)})
    else:
        m['not_applicable'].append({'property': p, 'reason': 'check under construction'})
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed;', [x['property'] for x in m['not_applicable']])
