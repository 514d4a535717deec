#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import props
from sa import rules
have = set(rules.all_props())
out, checks = [], []
for p in props.PROPS:
    if p['id'] not in have:
        continue
    assert len(p['title']) <= 80, p['id']
    out.append({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [
                    {'name': a, 'where': b} for a, b in p['mech']]}})
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
                   'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': p['tech'], 'level': 'other',
                   'level_note': props.BASE + props.TRUST + p['note'] + (' ' if p['note'] else '') + props.UNDEC})
missing = have - {p['id'] for p in props.PROPS}
assert not missing, missing
na = []
for i, t, r in props.NOT_APPLICABLE:
    out.append({'id': i, 'title': t, 'statement': t + '.',
                'quantifier': {'over': ['inputs'], 'text': 'every instance and option'},
                'why_tests_cant': 'it must hold for every instance, not the sampled ones',
                'anchors': {'files': ['src/solver/AdaptivePartitioner.py'], 'mechanism': []}})
    na.append({'property': i, 'reason': r})
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for o in out:
        f.write(json.dumps(o) + '\n')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q sa check.py props.py',
               'checks': checks, 'not_applicable': na}, f, indent=1)
print(len(checks), 'checks', len(na), 'n/a')
