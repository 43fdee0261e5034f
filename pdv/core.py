"""Shared machinery: generation, shrinking, replay, evidence, exit codes.

A check module (pdv/checks/pNN.py) defines

  PROPERTY = 'PNN'
  RULE     = how cases are generated / what is non-trivial
  PARTS    = [Part(name, strategy, oracle, quick=.., thorough=..), ...]

where `strategy()` returns a Hypothesis strategy of *plain JSON data* and
`oracle(case, ctx)` judges the real code in /repo on that data.  Because a case
is plain data, the shrunk failing case *is* the replay file, and replaying it
needs no Hypothesis.
"""

import argparse
import collections
import hashlib
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PDV_REPO', '/repo')
TOOLS_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
ALLOWED = (
    'hypothesis',
    '_hypothesis_globals',
    '_hypothesis_ftz_detector',
    'sortedcontainers',
)


# ---------------------------------------------------------------------------
# Environment


class _ToolFinder(importlib.abc.MetaPathFinder):
  """Finds Hypothesis (and nothing else) in the tools virtualenv."""

  def find_spec(self, name, path=None, target=None):
    del target
    if name.split('.')[0] not in ALLOWED:
      return None
    return importlib.machinery.PathFinder.find_spec(
        name, [TOOLS_SITE] if path is None else path
    )


def bootstrap():
  """Makes Hypothesis and the *current* /repo importable, builds the proto."""
  warnings.filterwarnings('ignore')
  sys.meta_path.append(_ToolFinder())
  sys.path.insert(0, REPO)
  import putting_dune  # pylint: disable=g-import-not-at-top

  got = os.path.realpath(list(putting_dune.__path__)[0])
  if got != os.path.realpath(os.path.join(REPO, 'putting_dune')):
    raise RuntimeError(f'putting_dune imported from {got}, not {REPO}')

  # Generated code is built from the working tree's .proto, outside /repo.
  scratch = tempfile.mkdtemp(prefix='pdv_proto_')
  try:
    include = '/opt/venv/lib/python3.12/site-packages/tensorflow/include'
    subprocess.run(
        [
            '/usr/bin/protoc',
            f'-I={include}',
            '-I=.',
            f'--python_out={scratch}',
            'putting_dune/putting_dune.proto',
        ],
        cwd=REPO,
        check=True,
        capture_output=True,
    )
    spec = importlib.util.spec_from_file_location(
        'putting_dune.putting_dune_pb2',
        os.path.join(scratch, 'putting_dune', 'putting_dune_pb2.py'),
    )
    module = importlib.util.module_from_spec(spec)
    sys.modules['putting_dune.putting_dune_pb2'] = module
    spec.loader.exec_module(module)
    putting_dune.putting_dune_pb2 = module
  finally:
    shutil.rmtree(scratch, ignore_errors=True)

  from absl import flags  # pylint: disable=g-import-not-at-top
  from absl import logging as absl_logging  # pylint: disable=g-import-not-at-top

  if not flags.FLAGS.is_parsed():
    flags.FLAGS.mark_as_parsed()
  absl_logging.set_verbosity(absl_logging.ERROR)


# ---------------------------------------------------------------------------
# Checks


class Violation(Exception):
  """The property does not hold on this case."""


class HarnessError(Exception):
  """The machinery itself failed; never reported as a violation."""


class Part:
  """One generated-input search against one oracle."""

  def __init__(self, name, strategy, oracle, quick, thorough=None, shards=4):
    self.name = name
    self.strategy = strategy
    self.oracle = oracle
    self.quick = quick
    self.thorough = thorough if thorough is not None else quick * 10
    # How many independently seeded processes share the thorough cases.
    self.shards = shards


class Ctx:
  """Per-case recorder handed to an oracle."""

  def __init__(self):
    self.labels = []
    self.is_nontrivial = False

  def label(self, name):
    self.labels.append(str(name))

  def nontrivial(self, condition=True):
    if condition:
      self.is_nontrivial = True

  def check(self, condition, message, *args):
    if not condition:
      raise Violation(message % args if args else message)

  def close(self, got, want, what, rtol=1e-6, atol=1e-9):
    """Arrays agree in shape and, to tolerance, in value."""
    import numpy as np  # pylint: disable=g-import-not-at-top

    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
      raise Violation(f'{what}: shape {got.shape}, expected {want.shape}')
    if not np.allclose(got, want, rtol=rtol, atol=atol, equal_nan=False):
      with np.errstate(all='ignore'):
        err = float(np.max(np.abs(got.astype(float) - want.astype(float))))
      raise Violation(
          f'{what}: got {_short(got)}, expected {_short(want)}'
          f' (max abs difference {err:.3g})'
      )

  def raises(self, exc_types, fn, what):
    """fn() must raise one of exc_types."""
    try:
      result = fn()
    except exc_types as e:
      return e
    except Exception as e:  # pylint: disable=broad-except
      raise Violation(
          f'{what}: raised {type(e).__name__}: {e} instead of being rejected'
          f' with {exc_types}'
      ) from e
    raise Violation(f'{what}: accepted, returned {_short(result)}')


def _short(x, n=240):
  s = repr(x).replace('\n', ' ')
  return s if len(s) <= n else s[:n] + '...'


def _from_repo(tb):
  root = os.path.realpath(REPO) + os.sep
  while tb is not None:
    f = os.path.realpath(tb.tb_frame.f_code.co_filename)
    if f.startswith(root):
      return True
    tb = tb.tb_next
  return False


def _is_unusable_result(e):
  """Whether an oracle failed over a value, not over a changed interface."""
  if not isinstance(
      e, (TypeError, AttributeError, IndexError, KeyError, ValueError)
  ):
    return False
  text = str(e)
  if isinstance(e, AttributeError):
    # Something that is no object of the code's own where one was expected; a
    # missing attribute of those that are may just have been renamed.
    own = ('putting_dune', 'pdv', 'types', 'module')
    obj = getattr(e, 'obj', None)
    if isinstance(obj, (type, type(sys))):
      return False
    if type(obj).__module__.split('.')[0] in own:
      return False
  return not any(
      t in text
      for t in ("module '", 'type object', 'argument', '__init__', 'import')
  )


def judge(part, case):
  """Runs one oracle.  Returns its Ctx; raises Violation or HarnessError."""
  import numpy as np  # pylint: disable=g-import-not-at-top

  # The code under test draws from the global generator in places; every case
  # starts from the same state so that it replays on its own.
  np.random.seed(0)
  random.seed(0)
  ctx = Ctx()
  try:
    with warnings.catch_warnings():
      warnings.simplefilter('ignore')
      with np.errstate(all='ignore'):
        part.oracle(case, ctx)
  except Violation:
    raise
  except Exception as e:  # pylint: disable=broad-except
    if _from_repo(e.__traceback__):
      # Generators only build inputs the code documents or its callers use, so
      # an exception that comes out of the code under test is a failure.
      where = traceback.extract_tb(e.__traceback__)[-1]
      raise Violation(
          f'unexpected {type(e).__name__}: {e}'
          f' (at {os.path.basename(where.filename)}:{where.lineno})'
      ) from e
    if _is_unusable_result(e):
      # What the code returned cannot even be looked at (None, too few items).
      where = traceback.extract_tb(e.__traceback__)[-1]
      raise Violation(
          f'result cannot be judged: {type(e).__name__}: {e}'
          f' (at {os.path.basename(where.filename)}:{where.lineno})'
      ) from e
    raise HarnessError(
        f'{part.name}: {type(e).__name__}: {e}\n{traceback.format_exc()}'
    ) from e
  return ctx


class Stats:
  """Counts for the evidence file; mergeable across processes."""

  def __init__(self):
    self.evaluations = 0
    self.nontrivial = set()
    self.labels = collections.Counter()
    self.samples = []

  def add(self, part, case, ctx):
    self.evaluations += 1
    self.labels.update(f'{part.name}:{l}' for l in set(ctx.labels))
    if ctx.is_nontrivial:
      text = json.dumps(case, sort_keys=True)
      digest = hashlib.sha1(f'{part.name}|{text}'.encode()).hexdigest()[:16]
      if digest not in self.nontrivial:
        self.nontrivial.add(digest)
        # Keep an early and a later (larger) example.
        if len(self.samples) < 1 or (
            len(self.samples) < 2 and self.evaluations > 20
        ):
          if len(text) > 1500:
            text = text[:1500] + '...'
          self.samples.append({'part': part.name, 'case': text})

  def dump(self):
    return {
        'evaluations': self.evaluations,
        'nontrivial': sorted(self.nontrivial),
        'labels': dict(self.labels),
        'samples': self.samples,
    }


def run_part(part, seed, n, stats):
  """Searches one part.  Returns None or (message, minimal case)."""
  import hypothesis  # pylint: disable=g-import-not-at-top
  from hypothesis import HealthCheck, Phase, given, settings  # pylint: disable=g-import-not-at-top,g-multiple-import

  failure = {}

  @hypothesis.seed(seed)
  @settings(
      max_examples=n,
      database=None,
      deadline=None,
      derandomize=False,
      print_blob=False,
      report_multiple_bugs=False,
      phases=(Phase.generate, Phase.shrink),
      suppress_health_check=(
          HealthCheck.too_slow,
          HealthCheck.data_too_large,
          HealthCheck.large_base_example,
      ),
      verbosity=hypothesis.Verbosity.quiet,
  )
  @given(part.strategy())
  def search(case):
    try:
      ctx = judge(part, case)
    except Violation as v:
      # The last failing case Hypothesis runs is its minimal one; failures that
      # turn out not to repeat are still reported with the case first seen.
      failure['message'] = str(v)
      failure['case'] = case
      failure.setdefault('t0', time.monotonic())
      raise
    stats.add(part, case, ctx)

  try:
    search()
  except HarnessError:
    raise
  except BaseException as e:  # pylint: disable=broad-except
    if isinstance(e, (KeyboardInterrupt, SystemExit)) or not failure:
      raise
  if failure:
    return failure['message'], failure['case']
  return None


# ---------------------------------------------------------------------------
# Driver


def known_findings(prop):
  path = os.path.join(VERIF, 'known_findings.jsonl')
  out = []
  if os.path.exists(path):
    with open(path) as f:
      for line in f:
        line = line.strip()
        if line and not line.startswith('#'):
          entry = json.loads(line)
          if entry.get('property') == prop and entry.get('kind') == 'finding':
            out.append(entry)
  return out


def _module(prop):
  return importlib.import_module(f'pdv.checks.{prop.lower()}')


def worker_main(args):
  """Runs the requested (part, shard) jobs and writes their outcome."""
  bootstrap()
  module = _module(args.property)
  parts = {p.name: p for p in module.PARTS}
  order = [p.name for p in module.PARTS]
  result = {'jobs': [], 'error': None}
  for job in json.loads(args.jobs):
    part = parts[job['part']]
    stats = Stats()
    t0 = time.monotonic()
    seed = (
        int(args.seed) * 1_000_003
        + order.index(part.name) * 1009
        + job['shard'] * 100_003
    )
    error, failure = None, None
    try:
      failure = run_part(part, seed, job['n'], stats)
    except BaseException as e:  # pylint: disable=broad-except
      error = f'{type(e).__name__}: {e}\n{traceback.format_exc()}'
    result['jobs'].append({
        'part': part.name,
        'failure': failure,
        'error': error,
        'stats': stats.dump(),
        'seconds': time.monotonic() - t0,
    })
  with open(args.out, 'w') as f:
    json.dump(result, f)
  return 0


def _plan(module, tier):
  """Splits the work over processes."""
  jobs = []
  for p in module.PARTS:
    if tier == 'thorough':
      k = max(1, min(p.shards, p.thorough))
      for s in range(k):
        jobs.append({'part': p.name, 'shard': s, 'n': -(-p.thorough // k)})
    else:
      jobs.append({'part': p.name, 'shard': 0, 'n': p.quick})
  workers = getattr(module, 'WORKERS', 3) if tier == 'quick' else 8
  weights = getattr(module, 'WEIGHTS', {})
  bins = [[] for _ in range(max(1, min(workers, len(jobs))))]
  load = [0.0] * len(bins)
  for job in sorted(jobs, key=lambda j: -weights.get(j['part'], 1.0)):
    i = load.index(min(load))
    bins[i].append(job)
    load[i] += weights.get(job['part'], 1.0)
  return bins


def main(argv):
  parser = argparse.ArgumentParser()
  parser.add_argument('property')
  parser.add_argument('--replay')
  parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  parser.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
  parser.add_argument('--only', help='comma separated part names')
  parser.add_argument('--scale', type=float, default=1.0)
  parser.add_argument('--jobs')
  parser.add_argument('--out')
  args = parser.parse_args(argv)
  try:
    args.seed = str(int(args.seed))
  except ValueError:
    args.seed = str(int(hashlib.sha1(args.seed.encode()).hexdigest()[:8], 16))
  if args.tier not in ('quick', 'thorough'):
    args.tier = 'quick'
  if args.jobs:
    return worker_main(args)
  try:
    if args.replay:
      return replay(args)
    return drive(args)
  except BaseException as e:  # pylint: disable=broad-except
    print(f'ERROR: {type(e).__name__}: {e}')
    traceback.print_exc()
    return 2


def replay(args):
  bootstrap()
  with open(args.replay) as f:
    data = json.load(f)
  module = _module(args.property)
  part = {p.name: p for p in module.PARTS}[data['part']]
  try:
    judge(part, data['case'])
  except Violation as v:
    print(f'{part.name}: {v}')
    print(f'VIOLATION property={args.property} replay={args.replay}')
    return 1
  print(f'{args.property}: replayed {args.replay}, property held')
  return 0


def drive(args):
  """Runs every part of a check in worker processes and reports."""
  t0 = time.monotonic()
  sys.meta_path.append(_ToolFinder())
  evidence_path = os.path.join(VERIF, 'evidence', f'{args.property}.json')
  os.makedirs(os.path.dirname(evidence_path), exist_ok=True)
  if os.path.exists(evidence_path):
    os.remove(evidence_path)

  # Learn the list of parts in a child too: importing the check imports /repo.
  bootstrap()
  module = _module(args.property)
  if args.only:
    keep = args.only.split(',')
    module.PARTS = [p for p in module.PARTS if p.name in keep]
  for p in module.PARTS:
    p.quick = max(1, int(p.quick * args.scale))
    p.thorough = max(1, int(p.thorough * args.scale))
  bins = _plan(module, args.tier)

  scratch = tempfile.mkdtemp(prefix=f'pdv_{args.property}_')
  try:
    procs = []
    for i, jobs in enumerate(bins):
      out = os.path.join(scratch, f'{i}.json')
      wtmp = os.path.join(scratch, f'tmp{i}')
      os.makedirs(wtmp)
      env = dict(os.environ, TMPDIR=wtmp, PDV_REEXEC='1')
      log = open(os.path.join(scratch, f'{i}.log'), 'w')
      procs.append((
          subprocess.Popen(
              [
                  sys.executable,
                  os.path.join(VERIF, 'run.py'),
                  args.property,
                  '--seed',
                  args.seed,
                  '--tier',
                  args.tier,
                  '--jobs',
                  json.dumps(jobs),
                  '--out',
                  out,
              ],
              env=env,
              cwd=wtmp,
              stdout=log,
              stderr=subprocess.STDOUT,
          ),
          out,
          log,
      ))
    results, errors = [], []
    for i, (proc, out, log) in enumerate(procs):
      rc = proc.wait()
      log.close()
      if os.path.exists(out):
        with open(out) as f:
          results.extend(json.load(f)['jobs'])
      else:
        with open(log.name) as f:
          errors.append(f'worker {i} ended with {rc}:\n' + f.read()[-4000:])
  finally:
    shutil.rmtree(scratch, ignore_errors=True)

  nontrivial, labels, samples, evaluations = set(), {}, [], 0
  failures = []
  per_part = {}
  for r in results:
    s = r['stats']
    evaluations += s['evaluations']
    nontrivial.update(s['nontrivial'])
    for k, v in s['labels'].items():
      labels[k] = labels.get(k, 0) + v
    samples.extend(s['samples'])
    pp = per_part.setdefault(
        r['part'], {'evaluations': 0, 'nontrivial': 0, 'seconds': 0.0}
    )
    pp['evaluations'] += s['evaluations']
    pp['nontrivial'] += len(s['nontrivial'])
    pp['seconds'] = round(pp['seconds'] + r['seconds'], 2)
    if r['error']:
      errors.append(f"{r['part']}: {r['error']}")
    if r['failure']:
      failures.append((r['part'], r['failure'][0], r['failure'][1]))

  known = known_findings(args.property)
  for entry in known:
    print(f"KNOWN-FINDING: property={args.property} {entry['what']}")

  replays = os.path.join(VERIF, 'replays')
  seen_parts = set()
  for part_name, message, case in failures:
    if part_name in seen_parts:
      continue
    seen_parts.add(part_name)
    os.makedirs(replays, exist_ok=True)
    text = json.dumps(
        {
            'property': args.property,
            'part': part_name,
            'message': message,
            'case': case,
        },
        indent=1,
    )
    digest = hashlib.sha1(text.encode()).hexdigest()[:10]
    path = os.path.join(
        replays, f'{args.property}-{part_name}-{digest}.json'
    )
    with open(path, 'w') as f:
      f.write(text)
    print(f'[{part_name}] {message}')
    print(f'  minimal case: {json.dumps(case)[:1200]}')
    print(f'VIOLATION property={args.property} replay={path}')

  wall = time.monotonic() - t0
  evidence = {
      'property': args.property,
      'tier': args.tier,
      'seed': int(args.seed),
      'level': 'exploration',
      'coverage': {
          'evaluations': evaluations,
          'distinct_nontrivial': len(nontrivial),
          'rule': module.RULE,
          'samples': samples[:12],
          'per_part': per_part,
          'labels': dict(sorted(labels.items())),
      },
      'assumptions': getattr(module, 'ASSUMPTIONS', []),
      'wall_s': round(wall, 2),
      'violations': len(seen_parts),
  }
  with open(evidence_path, 'w') as f:
    json.dump(evidence, f, indent=1)

  for e in errors:
    print('ERROR:', e)
  if seen_parts:
    return 1
  if errors:
    return 2
  print(
      f'{args.property}: held on {evaluations} cases'
      f' ({len(nontrivial)} distinct non-trivial), {wall:.1f}s'
  )
  return 0
