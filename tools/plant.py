"""Vets a planted bug: python3 tools/plant.py ID [--no-tests] [--check].

Reads /verif/seeded/ID/edit.json (not committed) or an existing patch.diff,
applies it in a scratch copy of /repo, runs the project's tests and the demo on
both trees, and writes patch.diff.  With --check also runs the property's quick
check against the scratch copy.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = '/verif/seeded'


def run(cmd, cwd, env=None, timeout=900):
  e = dict(os.environ)
  e.update(env or {})
  return subprocess.run(
      cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout
  )


def tests(cwd):
  work = tempfile.mkdtemp(prefix='plant_t_')
  try:
    xml = os.path.join(work, 'j.xml')
    run(
        [
            'bash', '-c',
            '. /opt/vp/env.sh; cd %s; PYTHONPATH=/opt/vp/plugins'
            ' TEST_TMPDIR=%s/absl TMPDIR=%s /opt/venv/bin/python -m pytest -q'
            ' -n 8 -p putting_dune_pytest -p no:cacheprovider --timeout=300'
            ' --continue-on-collection-errors -o junit_family=xunit2'
            ' --junitxml=%s putting_dune' % (cwd, work, work, xml),
        ],
        cwd,
    )
    out = os.path.join(work, 'o.json')
    run(['/usr/bin/python3', '/opt/vp/results.py', out, 'junit:' + xml], cwd)
    with open(out) as f:
      return json.load(f)
  finally:
    shutil.rmtree(work, ignore_errors=True)


def demo(d, cwd):
  scratch = tempfile.mkdtemp(prefix='plant_d_')
  try:
    for n in os.listdir(d):
      if not n.endswith(('.diff', '.patch')) and n not in ('meta.json', 'edit.json'):
        shutil.copy(os.path.join(d, n), scratch)
    r = run(['bash', os.path.join(scratch, 'demo.sh')], cwd, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]
  finally:
    shutil.rmtree(scratch, ignore_errors=True)


def main():
  bid = sys.argv[1]
  d = os.path.join(V, bid)
  scratch = f'/tmp/plant_{bid}'
  shutil.rmtree(scratch, ignore_errors=True)
  subprocess.run(['cp', '-a', '/repo', scratch], check=True)
  ok = True
  try:
    edit = os.path.join(d, 'edit.json')
    patch = os.path.join(d, 'patch.diff')
    if os.path.exists(edit):
      with open(edit) as f:
        for e in json.load(f):
          path = os.path.join(scratch, e['file'])
          with open(path) as g:
            text = g.read()
          assert text.count(e['old']) == e.get('count', 1), (
              e['old'], text.count(e['old']))
          with open(path, 'w') as g:
            g.write(text.replace(e['old'], e['new']))
      with open(patch, 'w') as f:
        f.write(run(['git', 'diff'], scratch).stdout)
    else:
      subprocess.run(['git', 'apply', patch], cwd=scratch, check=True)
    with open(os.path.join(d, 'meta.json')) as f:
      meta = json.load(f)
    rc0, out0 = demo(d, '/repo')
    rc1, out1 = demo(d, scratch)
    print(bid, 'demo clean', rc0, 'patched', rc1)
    if rc0 != 0 or rc1 == 0:
      print(out0, '\n---\n', out1)
      ok = False
    else:
      print('   ', out1.strip().splitlines()[-1:] )
    if '--no-tests' not in sys.argv:
      with open('/opt/vp/BASELINE.json') as f:
        stable = set(json.load(f)['stable'])
      got = set(tests(scratch)['passed'])
      missing = stable - got
      print(bid, 'stable tests lost:', sorted(missing)[:5], len(missing))
      ok = ok and not missing
    if '--check' in sys.argv:
      r = run(['python3', 'run.py', meta['property'], '--tier', 'quick'],
              '/verif', {'PDV_REPO': scratch, 'VERIF_SEED': '1'})
      v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or l.startswith(('[', 'ERROR'))]
      print(bid, 'check rc', r.returncode, 'CAUGHT' if r.returncode == 1 else 'MISSED')
      for l in v[:6]:
        print('    ', l[:220])
    print(bid, 'OK' if ok else 'NOT OK')
  finally:
    shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
  main()
