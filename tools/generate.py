"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the spec."""
import ast
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

props = []
for name in sorted(glob.glob(os.path.join(HERE, 'spec_*.py'))):
  mod = __import__(os.path.basename(name)[:-3])
  props.extend(mod.PROPERTIES)


def assumptions(pid):
  path = os.path.join(ROOT, 'pdv', 'checks', pid.lower() + '.py')
  if not os.path.exists(path):
    return None
  with open(path) as f:
    tree = ast.parse(f.read())
  out = []
  for node in tree.body:
    if isinstance(node, ast.Assign) and node.targets[0].id == 'ASSUMPTIONS' \
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) else False:
      out = ast.literal_eval(node.value)
  return out


checks = []
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
  for p in props:
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
    f.write(json.dumps({
        'id': p['id'],
        'title': p['title'],
        'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['text']},
        'why_tests_cant': p['why'],
        'anchors': {
            'files': p['files'],
            'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
        },
    }) + '\n')
    a = assumptions(p['id'])
    if a is None:
      print('no check yet:', p['id'])
      continue
    checks.append({
        'property': p['id'],
        'quick_cmd': f"python3 run.py {p['id']} --tier quick",
        'thorough_cmd': f"python3 run.py {p['id']} --tier thorough",
        'evidence_file': f"evidence/{p['id']}.json",
        'technique': p.get(
            'technique',
            'property-based testing (Hypothesis) against an independent oracle',
        ),
        'level': 'exploration',
        'level_note': 'Seeded, shrinking search over generated cases judged by '
        + p.get('oracle', 'an independent reference')
        + '; no exhaustive guarantee. Assumes: '
        + ('; '.join(a) if a else 'nothing beyond the generators’ ranges')
        + '.',
    })

with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
  json.dump({
      'version': 1,
      'setup_cmd': 'python3 tools/smoke.py',
      'checks': checks,
      'not_applicable': [],
      'notes': (
          'No hooks: nothing in /repo is instrumented. Every check recompiles'
          ' the protocol buffers of the working tree into a scratch directory'
          ' and imports putting_dune from /repo. --replay FILE re-judges one'
          ' stored minimal case.'
      ),
  }, f, indent=1)
print(len(props), 'properties,', len(checks), 'checks')
