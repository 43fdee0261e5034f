"""P18: following a drifting sheet."""

import math
import tempfile
import types
from unittest import mock

from etils import epath
from hypothesis import strategies as st
import numpy as np
from pdv import gen
from pdv import lattice
from pdv.core import Part
from putting_dune import alignment
from putting_dune import microscope_utils as mu

PROPERTY = 'P18'
RULE = (
    'Sequences of views of one sheet, each displaced by a generated drift, with'
    ' atoms missing or jittered, fed to one aligner in every configuration,'
    ' with resets in between; and whole trajectories corrected with an aligner'
    ' that knows the true drift, also by the program, from files and'
    ' directories of recordings. Non-trivial: at least three drifting views, or'
    ' two recordings.'
)


@st.composite
def sequence(draw):
  c = {
      'radius': draw(gen.real(7.0, 12.0)),
      'angle': draw(gen.real(0.0, 2 * math.pi)),
      'shift': draw(gen.xy(-60.0, 60.0)),
      'perm': draw(gen.seeds()),
      'clique': draw(st.booleans()),
      'accumulate': draw(st.booleans()),
      'history': draw(st.integers(1, 10)),
      'limit': draw(st.sampled_from([None, None, None, 2.0, 1.3, 0.3])),
      'trim': draw(st.sampled_from([0.0, 0.25])),
      'cutoff': draw(st.sampled_from([None, 0.71, 1.0])),
      'missing': draw(st.sampled_from([0.0, 0.0, 0.08])),
      'jitter': draw(st.sampled_from([0.0, 0.0, 0.03])),
      'noise': draw(st.sampled_from([0.0, 0.0, 0.0, 0.1])),
      # Atoms may be missing from one view after the other.
      'fading': draw(st.booleans()),
      'views': [],
  }
  reach = 0.17 if c['missing'] or c['jitter'] or c['noise'] else 0.5
  for i in range(draw(st.one_of(st.integers(2, 6), st.integers(5, 12)))):
    c['views'].append({
        # A new start, perhaps on a sheet of another orientation.
        'reset': draw(
            st.one_of(
                st.none(), st.none(), st.none(), st.none(),
                gen.real(0.0, 6.28), st.just(math.pi / 6),
            )
        )
        if i
        else None,
        'push': draw(st.one_of(st.none(), st.none(), gen.xy(-0.1, 0.1))),
        'drift': [draw(gen.real(0.0, reach)), draw(gen.real(0.0, 6.28))],
        'seed': draw(gen.seeds()),
        'si': draw(st.integers(0, 6)),
    })
  return c


def polar(v):
  return v[0] * np.array([math.cos(v[1]), math.sin(v[1])])


def check_sequence(c, ctx):
  p, kind = lattice.sites(c)
  del kind
  inner = np.argsort(np.hypot(*(p - np.asarray(c['shift'])).T))
  kwargs = {} if c['cutoff'] is None else {'merge_cutoff': c['cutoff']}
  if c['limit'] is not None:
    kwargs['max_shift'] = c['limit']
  # The atoms that are not always seen are the same ones all the time.
  frail = np.random.default_rng(c['perm']).uniform(size=len(p)) < c['missing']
  aligner = alignment.IterativeAlignmentFiltering(
      history_length=c['history'],
      accumulate_merged=c['accumulate'],
      clique_merging=c['clique'],
      trim=c['trim'],
      noise_scale=c['noise'],
      **kwargs,
  )
  base = None
  window = []
  fed = []
  angle = c['angle']
  for i, v in enumerate(c['views']):
    if v['reset'] is not None:
      aligner.reset()
      angle = angle + v['reset']
      p, _ = lattice.sites(dict(c, angle=angle))
      inner = np.argsort(np.hypot(*(p - np.asarray(c['shift'])).T))
      frail = np.resize(frail, len(p))
      base = None
      window = []
      ctx.label('reset')
    elif v['push'] is not None and base is not None and not c['noise']:
      # What was seen so far is somewhere else.
      aligner.apply_shift(np.array(v['push']))
      base = base + v['push']
      ctx.label('pushed')
    rng = np.random.default_rng([v['seed'], 9])
    keep = rng.uniform(size=len(p)) >= c['missing']
    if c['fading']:
      keep = ~frail | (rng.uniform(size=len(p)) < 0.3)
    si = inner[v['si']]
    keep[si] = True
    # Without three-fold sites the two kinds of atom cannot be told apart.
    drift = polar(v['drift'])
    noise = rng.uniform(-c['jitter'], c['jitter'], p.shape)
    index = np.nonzero(keep)[0][rng.permutation(int(keep.sum()))]
    q = (p + noise + drift)[index]
    z = np.where(index == si, 14, 6)
    grid = mu.AtomicGridMaterialFrame(mu.AtomicGrid(q, z))
    fed.append((grid, q.copy(), z.copy()))
    got, found = aligner(grid)
    got_p = np.asarray(got.atom_positions)
    got_z = np.asarray(got.atomic_numbers)
    if base is None:
      base = drift
      ctx.close(np.asarray(found), [0.0, 0.0], 'drift of the first view')
      ctx.check(
          np.array_equal(got_p, q) and np.array_equal(got_z, z),
          'the first view is not passed on as it is',
      )
      window = [index]
    else:
      want = drift - base
      tol = 1e-6 if not c['jitter'] and not c['missing'] else 0.06
      if np.hypot(*want) > (c['limit'] or 2.0) - 0.1:
        ctx.check(
            np.hypot(*found) <= (c['limit'] or 2.0) + 1e-9,
            f'view {i}: a drift of {found} is over the limit',
        )
        ctx.label('over the limit')
        break
      ctx.close(found, want, f'drift of view {i}', atol=tol, rtol=0)
      # Only what was seen recently, and now.
      seen = np.zeros(len(p), bool)
      for w in window:
        seen[w] = True
      seen[index] = True
      # One atom for every site seen, in the frame of the first view.
      d = np.hypot(*(got_p[:, None] - (p + base)[None]).transpose(2, 0, 1))
      site = d.argmin(axis=1)
      ctx.check(
          d.min(axis=1).max() < 0.05 + 4 * tol,
          f'view {i}: an atom is {d.min(axis=1).max():.3f} A off its site',
      )
      missing = set(np.nonzero(seen)[0]) - set(site.tolist())
      ctx.check(not missing, f'view {i}: {len(missing)} sites have no atom')
      extra = set(site.tolist()) - set(np.nonzero(seen)[0])
      ctx.check(
          c['accumulate'] or not extra,
          f'view {i}: {len(extra)} atoms from views long past',
      )
      ctx.check(
          len(set(site.tolist())) == len(site),
          f'view {i}: {len(site) - len(set(site.tolist()))} sites have two atoms',
      )
      ctx.check(
          got_z.shape == site.shape
          and bool(np.all((got_z == 14) == (site == si)))
          and bool(np.all((got_z == 6) == (site != si))),
          f'view {i}: silicon at {site[got_z == 14]}, expected {si}',
      )
      window.append(index if not c['accumulate'] else np.nonzero(seen)[0])
    window = window[-c['history'] :]
  for g, q, z in fed:
    ctx.check(
        np.array_equal(g.atom_positions, q)
        and np.array_equal(g.atomic_numbers, z),
        'a view that was handed in was changed',
    )
  ctx.nontrivial(len(c['views']) >= 3)


# A network's estimate, corrected.


@st.composite
def hybrid_case(draw):
  c = {
      'radius': draw(gen.real(7.0, 12.0)),
      'angle': draw(gen.real(0.0, 2 * math.pi)),
      'shift': draw(gen.xy(-60.0, 60.0)),
      'perm': draw(gen.seeds()),
      'missing': draw(st.sampled_from([0.0, 0.0, 0.08])),
      'history': draw(st.integers(2, 5)),
      'size': draw(gen.real(14.0, 40.0)),
      'lazy': draw(st.booleans()),
      'lost': draw(st.one_of(st.none(), st.none(), st.integers(1, 3))),
      'views': [],
  }
  for i in range(draw(st.integers(2, 7))):
    c['views'].append({
        # The history may get another length on the way.
        'reset': draw(st.sampled_from([None, None, None, 2, 3, 6])) if i else None,
        'at': draw(gen.xy(-3.0, 3.0)),
        'drift': [draw(gen.real(0.0, 4.0)), draw(gen.real(0.0, 6.28))],
        'error': [draw(gen.real(0.0, 0.16 if c['missing'] else 0.3)), draw(gen.real(0.0, 6.28))],
        'seed': draw(gen.seeds()),
        'si': draw(st.integers(0, 6)),
    })
  return c


def check_hybrid(c, ctx):
  """A network that is a little off, put right by the atoms themselves."""
  import tensorflow as tf  # pylint: disable=g-import-not-at-top

  p, _ = lattice.sites(c)
  inner = np.argsort(np.hypot(*(p - np.asarray(c['shift'])).T))
  aligner = alignment.ImageAligner(epath.Path('/nonexistent'), hybrid=True)
  aligner.adaptive_normalization = False
  answer = {}

  def run(image):
    steps = np.shape(image)[-1]
    return {
        'output_0': tf.zeros((512, 512, steps * 3)),
        'output_1': tf.constant(
            np.tile(np.asarray(answer['drift'], np.float32), steps)
        ),
    }

  aligner.model = types.SimpleNamespace(signatures={'serving_default': run})
  if c['lazy']:
    aligner.history_length = c['history']
  else:
    aligner.reset(c['history'])
  first = before = None
  nothing = mu.AtomicGridMicroscopeFrame(
      mu.AtomicGrid(np.zeros((0, 2)), np.zeros((0,), int))
  )
  for i, v in enumerate(c['views']):
    if v['reset']:
      aligner.reset(v['reset'])
      first = before = None
      ctx.label('reset')
    rng = np.random.default_rng([v['seed'], 9])
    keep = rng.uniform(size=len(p)) >= c['missing']
    si = inner[v['si']]
    keep[si] = True
    index = np.nonzero(keep)[0][rng.permutation(int(keep.sum()))]
    drift = polar(v['drift'])
    error = polar(v['error'])
    corner = np.asarray(c['shift']) + v['at'] - c['size'] / 2
    fov = gen.make_fov([*corner, *(corner + c['size'])])
    seen = (p[index] + drift - corner) / c['size']
    z = np.where(index == si, 14, 6)
    grid = mu.AtomicGridMicroscopeFrame(mu.AtomicGrid(seen, z))
    kept = seen.copy()
    answer['drift'] = drift + error
    lost = c['lost'] == i and first is not None
    got, found, _ = aligner(
        np.zeros((512, 512)), fov, nothing if lost else grid
    )
    ctx.check(np.array_equal(seen, kept), 'the grid that was given was changed')
    found = np.asarray(found, dtype=float)
    ctx.check(found.shape == (2,), f'view {i}: drift of shape {found.shape}')
    if lost:
      # Nothing to go by: the network's word stands, and a new start is made.
      ctx.close(found, drift + error, f'drift of empty view {i}', atol=1e-4)
      ctx.check(
          len(got.atom_positions) == 0, f'view {i}: atoms of an empty view'
      )
      first = before = None
      ctx.label('empty view')
      continue
    if first is None:
      ctx.close(found, drift + error, 'drift of the first view', atol=1e-4)
      first = error
    else:
      # The network's error is that of the first view, whatever it says now.
      tol = 1e-3 if not c['missing'] else 0.06
      ctx.close(found, drift + first, f'drift of view {i}', atol=tol, rtol=0)
    at = np.asarray(got.atom_positions) * c['size'] + corner - drift
    d = np.hypot(*(at[:, None] - p[None]).transpose(2, 0, 1))
    site = d.argmin(axis=1)
    ctx.check(
        d.min(axis=1).max() < 0.25,
        f'view {i}: an atom is {d.min(axis=1).max():.3f} A off its site',
    )
    ctx.check(
        len(set(site.tolist())) == len(site), f'view {i}: a site has two atoms'
    )
    want = set(index.tolist()) | (before or set())
    ctx.check(
        set(site.tolist()) == want,
        f'view {i}: {len(want - set(site.tolist()))} atoms lost,'
        f' {len(set(site.tolist()) - want)} made up',
    )
    ctx.check(
        set(site[np.asarray(got.atomic_numbers) == 14].tolist()) == {si},
        f'view {i}: the silicon is elsewhere',
    )
    before = set(index.tolist())
  ctx.nontrivial(len(c['views']) >= 3)


# Whole trajectories.


@st.composite
def trajectory_case(draw):
  return {
      'true': [draw(gen.xy(-3, 3)) for _ in range(draw(st.integers(1, 6)))],
      'fov': draw(gen.fov(offset=50.0, min_size=10.0, max_size=40.0)),
      'iterations': draw(st.integers(1, 4)),
      'step': draw(st.sampled_from([1.0, 1.0, 0.5, 0.25])),
      'relabel': draw(st.booleans()),
      'history': draw(st.integers(1, 7)),
      'labels': draw(st.booleans()),
      'cells': draw(gen.seeds()),
  }


class Oracle:
  """An aligner that recognises each image and knows where it was taken."""

  def __init__(self, images, true_fovs):
    self.images, self.true = images, true_fovs
    self.resets = []
    self.calls = []
    self.off = []

  def reset(self, history_length=5):
    self.resets.append((len(self.calls), history_length))

  def __call__(self, image, fov):
    i = next(k for k, x in enumerate(self.images) if np.array_equal(x, image))
    self.calls.append(i)
    self.off.append(
        np.abs(gen.fov_array(fov)[0] - gen.fov_array(self.true[i])[0]).max()
    )
    # A view moved by minus this is the true one.
    drift = gen.fov_array(fov)[0] - gen.fov_array(self.true[i])[0]
    grid = mu.AtomicGridMicroscopeFrame(
        mu.AtomicGrid(np.array([[0.1 * i, 0.5]]), np.array([14]))
    )
    return grid, drift, None


def make_trajectory(c):
  """Views that all claim to show the same place, and where they were taken."""
  rng = np.random.default_rng(c['cells'])
  n = len(c['true'])
  images = [rng.uniform(size=(8, 8, 1)).astype(np.float32) for _ in range(n)]
  claimed = gen.make_fov(c['fov'])
  f = c['fov']
  true = [
      gen.make_fov([f[0] + x, f[1] + y, f[2] + x, f[3] + y]) for x, y in c['true']
  ]
  observations = [
      mu.MicroscopeObservation(
          grid=mu.AtomicGrid(rng.uniform(size=(3, 2)), np.array([6, 6, 14])),
          fov=claimed,
          controls=(
              gen.make_control({'xy': [0.5, 0.1 * i], 'dwell': 1.0 + i, 'kv': 60.0, 'na': 0.1}),
          ),
          elapsed_time=align_dt(i + 1.0),
          image=images[i],
          label_image=rng.integers(0, 3, size=(8, 8, 1)) if c['labels'] else None,
      )
      for i in range(n)
  ]
  return images, claimed, true, observations


def check_trajectory(c, ctx):
  from putting_dune.pipeline import align_trajectories  # pylint: disable=g-import-not-at-top

  images, claimed, true, observations = make_trajectory(c)
  n = len(images)
  trajectory = mu.Trajectory(list(observations))
  args = align_trajectories.Args(
      source_path=None,
      target_path=None,
      aligner_path=None,
      history_length=c['history'],
      alignment_iterations=c['iterations'],
      base_step_size=c['step'],
      relabel=c['relabel'],
  )
  oracle = Oracle(images, true)
  out = align_trajectories.do_alignment(trajectory, args, oracle)
  ctx.check(
      oracle.calls == list(range(n)) * c['iterations'],
      f'views were looked at in the order {oracle.calls}',
  )
  ctx.check(
      oracle.resets == [(k * n, c['history']) for k in range(c['iterations'])],
      f"the aligner was reset at {oracle.resets}, {n} views each time",
  )
  ctx.check(len(out.observations) == n, f'{len(out.observations)} views')
  # Every round starts from what the round before found out.
  off = oracle.off[::n]
  ctx.check(
      all(b <= a * (1 - c['step']) + 1e-6 for a, b in zip(off, off[1:])),
      f'the first view is off by {off} in the rounds',
  )
  for i, (a, b) in enumerate(zip(out.observations, observations)):
    ctx.close(
        gen.fov_array(a.fov), gen.fov_array(true[i]), f'view {i}', atol=1e-6
    )
    if c['relabel']:
      ctx.close(a.grid.atom_positions, [[0.1 * i, 0.5]], f'atoms of view {i}')
    else:
      ctx.check(a.grid == b.grid, f'atoms of view {i} were replaced')
    ctx.check(
        a.controls == b.controls
        and a.elapsed_time == b.elapsed_time
        and np.array_equal(a.image, images[i]),
        f'view {i} is mixed up with another',
    )
    ctx.check(
        np.array_equal(a.label_image, b.label_image)
        if c['labels']
        else a.label_image is None,
        f'label image of view {i}',
    )
    ctx.close(
        gen.fov_array(trajectory.observations[i].fov),
        gen.fov_array(claimed),
        'the original trajectory',
    )
  ctx.nontrivial(n >= 3)
  ctx.label(f"{c['iterations']} iterations")


@st.composite
def program_case(draw):
  return {
      'files': draw(
          st.lists(st.lists(trajectory_case(), min_size=0, max_size=3), min_size=1, max_size=3)
      ),
      'single': draw(st.booleans()),
      'args': draw(trajectory_case()),
      'hybrid': draw(st.booleans()),
  }


def check_program(c, ctx):
  """The alignment program treats every recording it is given."""
  from putting_dune import io as pdio  # pylint: disable=g-import-not-at-top
  from putting_dune.pipeline import align_trajectories  # pylint: disable=g-import-not-at-top

  with tempfile.TemporaryDirectory(prefix='pdv_align_') as d:
    d = epath.Path(d)
    source = d / 'recordings'
    source.mkdir()
    (source / 'notes.txt').write_text('not a recording')
    files = c['files'][:1] if c['single'] else c['files']
    made = []
    for i, file in enumerate(files):
      here = []
      for k, case in enumerate(file):
        case = dict(case, cells=case['cells'] * 16 + 4 * i + k)
        here.append(make_trajectory(case))
      pdio.write_records(
          source / f'{i}.tfrecords', [mu.Trajectory(m[3]) for m in here]
      )
      made.extend(here)
    oracle = Oracle(
        [x for m in made for x in m[0]], [x for m in made for x in m[2]]
    )
    asked = {}

    def from_path(path, **kwargs):
      asked.update(kwargs, path=path)
      return oracle

    a = c['args']
    with mock.patch.object(alignment.ImageAligner, 'from_path', from_path):
      align_trajectories.main(
          align_trajectories.Args(
              source_path=source / '0.tfrecords' if c['single'] else source,
              target_path=d / 'aligned.tfrecords',
              aligner_path=d / 'aligner.zip',
              history_length=a['history'],
              alignment_iterations=a['iterations'],
              base_step_size=a['step'],
              hybrid=c['hybrid'],
              relabel=a['relabel'],
          )
      )
    ctx.check(
        asked.get('hybrid') == c['hybrid'] and asked['path'] == d / 'aligner.zip',
        f'the aligner was asked for as {asked}',
    )
    out = list(pdio.read_records(d / 'aligned.tfrecords', mu.Trajectory))
    ctx.check(
        len(out) == len(made), f'{len(made)} recordings, {len(out)} aligned'
    )
    for t in out:
      first = [
          m
          for m in made
          if np.array_equal(m[0][0], t.observations[0].image)
      ]
      ctx.check(len(first) == 1, 'an aligned recording is none of the originals')
      if not first:
        continue
      images, _, true, observations = first[0]
      ctx.check(len(t.observations) == len(images), 'views were lost')
      for i, (x, y) in enumerate(zip(t.observations, observations)):
        ctx.close(
            gen.fov_array(x.fov), gen.fov_array(true[i]), f'view {i}', atol=1e-4
        )
        ctx.check(
            np.array_equal(x.image, images[i])
            and abs(x.elapsed_time - y.elapsed_time) < align_dt(1e-3),
            f'view {i} is mixed up with another',
        )
        if a['relabel']:
          ctx.close(
              x.grid.atom_positions[:, 1], [0.5], f'atoms of view {i}', atol=1e-5
          )
        else:
          ctx.close(
              x.grid.atom_positions, y.grid.atom_positions, f'atoms of view {i}',
              atol=1e-5,
          )
    begun = [len(m[0]) for m in made for _ in range(a['iterations'])]
    ctx.check(
        [r[1] for r in oracle.resets] == [a['history']] * len(begun),
        f'the aligner was reset {oracle.resets} for {len(begun)} rounds',
    )
    ctx.nontrivial(len(made) >= 2)
    ctx.label('one file' if c['single'] else f'{len(files)} files')


def align_dt(s):
  import datetime as dt  # pylint: disable=g-import-not-at-top

  return dt.timedelta(seconds=s)


PARTS = [
    Part('sequence', sequence, check_sequence, 250, 3000),
    Part('hybrid', hybrid_case, check_hybrid, 80, 800),
    Part('trajectory', trajectory_case, check_trajectory, 150, 4000),
    Part('program', program_case, check_program, 40, 1200),
]

ASSUMPTIONS = [
    'each view is within 1 angstrom of the first one (0.35 if it is ragged)',
    'no more than 8% of the atoms are missing from a view',
    'aligners of the trajectory part report the exact drift',
]
