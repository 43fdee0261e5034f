"""Mutation sweep: what do the checks miss that the tests miss too?

python3 tools/sweep.py OUT.jsonl [--files a.py,b.py] [--per-file N] [--jobs J] [--seed S]

A development aid, run by hand; no registered check uses it. Each mutant is one
small edit of one source file of a scratch copy of /repo. It is run through the
existing tests beside that file and then through the checks of the properties
anchored there; what neither notices is written to OUT.jsonl for a person to
read: it is either an equivalent edit, or behaviour that nothing promises, or a
hole in a check.
"""

import argparse
import ast
import copy
import json
import os
import queue
import random
import shutil
import subprocess
import sys
import tempfile
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'

CHECKS = {
    'action_adapters.py': 'P11',
    'agents/agent_lib.py': 'P13',
    'agents/tf_eval_agent.py': 'P13',
    'alignment.py': 'P17 P20 P18 P19 P29',
    'atom_detection/dataset.py': 'P28',
    'atom_detection/model.py': 'P32',
    'atom_detection/save_model.py': 'P29',
    'atom_detection/train.py': 'P28 P29',
    'atom_detector.py': 'P20 P29',
    'eval.py': 'P31',
    'eval_lib.py': 'P14 P31',
    'experiments/registry.py': 'P31 P29',
    'feature_constructors.py': 'P12',
    'geometry.py': 'P04',
    'goals.py': 'P10',
    'graph_alignment/dataset.py': 'P28',
    'graph_alignment/model.py': 'P30',
    'graph_alignment/train.py': 'P28',
    'graphene.py': 'P05 P06 P07 P19',
    'image_alignment/dataset.py': 'P28',
    'image_alignment/model.py': 'P32',
    'image_alignment/save_model.py': 'P29',
    'image_alignment/train.py': 'P28 P29',
    'imaging.py': 'P16',
    'io.py': 'P01',
    'microscope_agent.py': 'P15',
    'microscope_utils.py': 'P01 P02 P03',
    'pipeline/align_trajectories.py': 'P18',
    'pipeline/train_rate_learner.py': 'P23 P25 P24',
    'pipeline/trajectories_to_transitions.py': 'P23',
    'pipeline/upload_microscope_data.py': 'P27',
    'plotting_utils.py': 'P26',
    'putting_dune_environment.py': 'P09',
    'rate_learning/data_utils.py': 'P21 P22',
    'rate_learning/learn_rates.py': 'P24 P22 P25',
    'run_helpers.py': 'P09 P31',
    'simulator.py': 'P08',
    'simulator_observers.py': 'P08 P26',
}

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv}


def candidates(tree):
  """Yields (line, description, mutate function taking the node's copy)."""
  out = []
  docs = set()
  raises = set()
  for node in ast.walk(tree):
    body = getattr(node, 'body', None)
    if isinstance(body, list) and body and isinstance(body[0], ast.Expr) and \
        isinstance(body[0].value, ast.Constant):
      docs.add(id(body[0]))
    if isinstance(node, (ast.Raise, ast.Assert)):
      for n in ast.walk(node):
        raises.add(id(n))
    if isinstance(node, ast.Call):
      name = ast.unparse(node.func)
      if 'logging' in name or name == 'print' or 'flags.DEFINE' in name:
        for n in ast.walk(node):
          raises.add(id(n))
    # Annotations are not behaviour.
    for field in ('annotation', 'returns'):
      a = getattr(node, field, None)
      if isinstance(a, ast.AST):
        for n in ast.walk(a):
          raises.add(id(n))
  for i, node in enumerate(ast.walk(tree)):
    if id(node) in raises or not hasattr(node, 'lineno'):
      continue
    if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in CMP:
      out.append((i, 'cmp'))
    if isinstance(node, ast.BinOp) and type(node.op) in BIN:
      out.append((i, 'bin'))
    if isinstance(node, ast.AugAssign) and type(node.op) in BIN:
      out.append((i, 'bin'))
    if isinstance(node, ast.BoolOp):
      out.append((i, 'bool'))
      out.append((i, 'dropbool'))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
      out.append((i, 'unary'))
    if isinstance(node, ast.Constant):
      if isinstance(node.value, bool):
        out.append((i, 'const'))
      elif isinstance(node.value, (int, float)):
        out.append((i, 'const'))
    if isinstance(node, (ast.If, ast.IfExp)):
      out.append((i, 'iftrue'))
      out.append((i, 'iffalse'))
    if isinstance(node, ast.Call) and node.keywords:
      for k in range(len(node.keywords)):
        out.append((i, f'dropkw{k}'))
    if isinstance(node, ast.Call) and len(node.args) >= 2:
      out.append((i, 'swapargs'))
    if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
      out.append((i, 'dropstmt'))
    if isinstance(node, ast.AugAssign):
      out.append((i, 'dropstmt'))
    if isinstance(node, ast.Assign) and not isinstance(node.value, ast.Constant):
      out.append((i, 'reassign'))
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and not node.args \
        and node.func.attr in ('copy', 'flatten', 'strip', 'sort'):
      out.append((i, 'dropmethod'))
    if isinstance(node, ast.Call) and len(node.args) == 1 and not node.keywords:
      out.append((i, 'dropcall'))
    if isinstance(node, ast.For):
      out.append((i, 'dropfirst'))
      out.append((i, 'droplast'))
    if isinstance(node, ast.Continue):
      out.append((i, 'break'))
    if isinstance(node, ast.Return) and node.value is not None and isinstance(node.value, ast.Tuple):
      out.append((i, 'swapret'))
  return out


class Replace(ast.NodeTransformer):

  def __init__(self, target, new):
    self.target, self.new = target, new

  def visit(self, node):
    if node is self.target:
      return self.new
    return self.generic_visit(node)


def mutate(source, index, kind, rng):
  tree = ast.parse(source)
  node = list(ast.walk(tree))[index]
  line = node.lineno
  before = ast.unparse(node).split('\n')[0]
  new = node
  if kind == 'cmp':
    node.ops = [CMP[type(node.ops[0])]()]
  elif kind == 'bin':
    node.op = BIN[type(node.op)]()
  elif kind == 'bool':
    node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
  elif kind == 'dropbool':
    new = node.values[rng.randrange(len(node.values))]
  elif kind == 'unary':
    new = node.operand
  elif kind == 'const':
    v = node.value
    if isinstance(v, bool):
      new = ast.Constant(not v)
    elif isinstance(v, int):
      new = ast.Constant(rng.choice([v + 1, v - 1] if v else [1, -1]))
    else:
      new = ast.Constant(rng.choice([v * 1.5, v * 0.5]) if v else 0.1)
  elif kind in ('iftrue', 'iffalse'):
    node.test = ast.Constant(kind == 'iftrue')
  elif kind.startswith('dropkw'):
    del node.keywords[int(kind[6:])]
  elif kind == 'swapargs':
    node.args[0], node.args[1] = node.args[1], node.args[0]
  elif kind == 'dropstmt':
    new = ast.Pass()
  elif kind == 'reassign':
    # A call's first argument instead of its result; else the statement goes.
    v = node.value
    if isinstance(v, ast.Call) and v.args:
      node.value = v.args[0]
    elif isinstance(v, ast.BinOp):
      node.value = v.left
    else:
      return None
  elif kind == 'dropmethod':
    new = node.func.value
  elif kind == 'dropcall':
    new = node.args[0]
  elif kind in ('dropfirst', 'droplast'):
    inner = 'list({})[1:]' if kind == 'dropfirst' else 'list({})[:-1]'
    node.iter = ast.parse(inner.format(ast.unparse(node.iter)), mode='eval').body
  elif kind == 'break':
    new = ast.Break()
  elif kind == 'swapret':
    node.value.elts[0], node.value.elts[1] = node.value.elts[1], node.value.elts[0]
  after = ast.unparse(new).split('\n')[0] if new is not None else ''
  if new is not node:
    tree = Replace(node, new).visit(tree)
  ast.fix_missing_locations(tree)
  try:
    text = ast.unparse(tree)
    compile(text, 'x', 'exec')
  except Exception:  # pylint: disable=broad-except
    return None
  return line, before, after, text


def tests_of(path):
  root = os.path.join(REPO, 'putting_dune')
  t = os.path.join(root, path[:-3] + '_test.py')
  return [t] if os.path.exists(t) else []


def run(cmd, env, timeout, cwd=None):
  try:
    r = subprocess.run(cmd, env=env, timeout=timeout, cwd=cwd,
                       capture_output=True, text=True)
    return r.returncode, r.stdout + r.stderr
  except subprocess.TimeoutExpired:
    return 124, 'timeout'


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('out')
  ap.add_argument('--files', default='')
  ap.add_argument('--per-file', type=int, default=25)
  ap.add_argument('--jobs', type=int, default=4)
  ap.add_argument('--seed', type=int, default=0)
  args = ap.parse_args()
  rng = random.Random(args.seed)
  files = args.files.split(',') if args.files else sorted(CHECKS)
  jobs = queue.Queue()
  todo = []
  for f in files:
    source = open(os.path.join(REPO, 'putting_dune', f)).read()
    cands = candidates(ast.parse(source))
    rng.shuffle(cands)
    n = 0
    for index, kind in cands:
      if n >= args.per_file:
        break
      m = mutate(source, index, kind, rng)
      if m is None or m[1] == m[2] and kind not in ('swapret', 'dropfirst', 'droplast', 'iftrue', 'iffalse'):
        continue
      todo.append((f, kind) + m)
      n += 1
  rng.shuffle(todo)
  for t in todo:
    jobs.put(t)
  print(len(todo), 'mutants', flush=True)
  lock = threading.Lock()
  done = [0]

  def worker(k):
    scratch = tempfile.mkdtemp(prefix=f'sweep{k}_', dir='/tmp')
    repo, verif = scratch + '/repo', scratch + '/verif'
    shutil.copytree(REPO, repo, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    shutil.copytree(VERIF, verif, ignore=shutil.ignore_patterns('.git', '__pycache__', 'seeded', 'evidence', 'replays'))
    env = dict(os.environ, PDV_REPO=repo, PYTHONDONTWRITEBYTECODE='1',
               OMP_NUM_THREADS='1', TF_NUM_INTRAOP_THREADS='1', PYTHONPATH=repo)
    while True:
      try:
        f, kind, line, before, after, text = jobs.get_nowait()
      except queue.Empty:
        break
      path = os.path.join(repo, 'putting_dune', f)
      original = open(path).read()
      open(path, 'w').write(text)
      result, by = 'survived', ''
      try:
        module = 'putting_dune.' + f[:-3].replace('/', '.')
        rc, _ = run([PY, '-c', f'import {module}'], env, 120, repo)
        if rc:
          result = 'import'
        for t in ([] if rc else tests_of(f)):
          t = t.replace(REPO, repo)
          rc, _ = run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', t], env, 240, repo)
          if rc:
            result = 'test'
        if result == 'survived':
          for pid in CHECKS[f].split():
            rc, o = run(['python3', verif + '/run.py', pid, '--tier', 'quick'], env, 900, verif)
            if rc == 1:
              result, by = 'caught', pid
              break
            if rc:
              result, by = f'rc{rc}', pid + ' ' + o[-300:]
              break
      finally:
        open(path, 'w').write(original)
      with lock:
        done[0] += 1
        with open(args.out, 'a') as h:
          h.write(json.dumps(dict(result=result, by=by, file=f, kind=kind, line=line,
                                  before=before, after=after)) + '\n')
        print(done[0], result, by[:30], f, line, kind, before[:60], '->', after[:60], flush=True)
    shutil.rmtree(scratch)

  threads = [threading.Thread(target=worker, args=(k,)) for k in range(args.jobs)]
  for t in threads:
    t.start()
  for t in threads:
    t.join()


if __name__ == '__main__':
  sys.exit(main())
