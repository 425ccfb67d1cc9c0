"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props  # noqa: E402

V = os.path.dirname(HERE)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
  for p in props.PROPS:
    f.write(json.dumps({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['forall']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'],
                    'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]},
    }) + '\n')
checks = []
for p in props.PROPS:
  checks.append({
      'property': p['id'],
      'quick_cmd': '/opt/venv/bin/python check.py %s quick' % p['id'],
      'thorough_cmd': '/opt/venv/bin/python check.py %s thorough' % p['id'],
      'technique': 'TLA+ specification checked with TLC; traces of the real code validated against it by TLC',
      'level': 'model_checking',
      'level_note': p['note'],
  })
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
  json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python check.py --setup', 'checks': checks,
             'not_applicable': [{'property': a, 'reason': b} for a, b in props.NA],
             'notes': 'No hooks in /repo: the drivers use the public interface. See DESIGN.md.'}, f, indent=1)
