"""P23: from recorded trajectories to data that rates can be learned from."""

import contextlib
import datetime as dt
import io
import math
import os
import tempfile
import types

from etils import epath
from hypothesis import strategies as st
import numpy as np
from pdv import gen
from pdv import lattice
from pdv.core import Part
from putting_dune import io as pd_io
from putting_dune import microscope_utils as mu
from putting_dune.pipeline import train_rate_learner
from putting_dune.pipeline import trajectories_to_transitions

PROPERTY = 'P23'
RULE = (
    'Trajectories of numbered observations with images and controls missing or'
    ' not; and transitions on turned, jittered sheets seen through generated'
    ' fields of view in which the silicon stays, hops to a known neighbor or'
    ' does something that cannot be used. Non-trivial: at least two'
    ' observations in one trajectory (or: at least one transition can be used'
    ' and shows a hop).'
)


# Trajectories to transitions.


@st.composite
def trajectories_case(draw):
  number = st.sampled_from([0, 1, 2, 2, 3, 4, 15])
  return {
      'trajectories': draw(
          st.lists(
              number.flatmap(
                  lambda n: st.lists(
                      st.fixed_dictionaries({
                          'atoms': st.integers(0, 3),
                          'controls': st.sampled_from([0, 1, 1, 2]),
                          'image': st.booleans(),
                          'label': st.booleans(),
                          'fov': gen.fov(),
                          'still': st.booleans(),
                      }),
                      min_size=n,
                      max_size=n,
                  )
              ),
              min_size=0,
              max_size=draw(st.sampled_from([4, 4, 9])),
          )
      ),
      'previous': draw(st.booleans()),
      'files': draw(st.sampled_from(['one', 'list', 'directory', 'none'])),
      'cut': draw(st.integers(0, 4)),
  }


def make_observation(o, number):
  """An observation that carries its number in every field."""
  return mu.MicroscopeObservation(
      grid=mu.AtomicGrid(
          np.full((o['atoms'], 2), float(number)) + np.arange(2),
          np.full(o['atoms'], 6),
      ),
      fov=gen.make_fov(
          [v + number * 1000 for v in o['fov']]
      ),
      controls=tuple(
          gen.make_control({'xy': [number, i], 'dwell': 1.5, 'kv': 60, 'na': 1})
          for i in range(o['controls'])
      ),
      elapsed_time=dt.timedelta(seconds=0 if o['still'] else number),
      image=np.full((2, 3, 1), number, np.float32) if o['image'] else None,
      label_image=np.full((2, 3), number, np.int32) if o['label'] else None,
  )


def same_grid(a, b):
  return np.array_equal(a.atom_positions, b.atom_positions) and np.array_equal(
      a.atomic_numbers, b.atomic_numbers
  )


def same_fov(a, b):
  corners = lambda f: [f.lower_left.x, f.lower_left.y, f.upper_right.x,
                       f.upper_right.y]
  return np.allclose(corners(a), corners(b), rtol=1e-6, atol=1e-6)


def same_image(a, b):
  if a is None or b is None:
    return a is b
  return np.array_equal(a, b)


def same_controls(a, b):
  key = lambda c: (c.position.x, c.position.y, c.dwell_time)
  return [key(c) for c in a] == [key(c) for c in b]


def check_trajectories(c, ctx):
  number = 0
  trajectories = []
  for t in c['trajectories']:
    observations = []
    for o in t:
      number += 1
      observations.append(make_observation(o, number))
    trajectories.append(mu.Trajectory(observations=tuple(observations)))
  loaded = trajectories
  exact = True
  written = None
  if c['files'] != 'none':
    with tempfile.TemporaryDirectory(prefix='pdv_p23_') as d:
      cut = min(c['cut'], len(trajectories))
      names = [os.path.join(d, f'{i}.tfrecords') for i in range(2)]
      if c['files'] == 'one':
        pd_io.write_records(names[0], trajectories)
        # The program does this from file to file.
        trajectories_to_transitions.main(
            trajectories_to_transitions.Args(names[0], names[1])
        )
        written = list(pd_io.read_records(names[1], mu.Transition))
        loaded = train_rate_learner.load_trajectories_from_records(
            epath.Path(names[0])
        )
      else:
        pd_io.write_records(names[0], trajectories[:cut])
        pd_io.write_records(names[1], trajectories[cut:])
        path = (
            [epath.Path(n) for n in names]
            if c['files'] == 'list'
            else epath.Path(d)
        )
        loaded = train_rate_learner.load_trajectories_from_records(path)
        exact = c['files'] == 'list'
  loaded = list(loaded)
  ctx.check(
      len(loaded) == len(trajectories),
      f'{len(loaded)} of {len(trajectories)} trajectories were loaded',
  )
  stamp = lambda t: [
      (round(o.fov.lower_left.x / 1000), o.elapsed_time.total_seconds())
      for o in t.observations
  ]
  got, want = [stamp(t) for t in loaded], [stamp(t) for t in trajectories]
  if not exact:
    # Files of a directory come in any order.
    loaded = sorted(loaded, key=stamp)
    trajectories = sorted(trajectories, key=stamp)
    got, want = sorted(got), sorted(want)
  ctx.check(got == want, f'trajectories {want} were loaded as {got}')

  transitions = trajectories_to_transitions.trajectories_to_transitions(
      loaded, previous_controls_at_current_timestep=c['previous']
  )
  judge_transitions(ctx, transitions, trajectories, c['previous'], '')
  if written is not None:
    # Recordings of the instrument: each observation with what was done next.
    judge_transitions(ctx, written, trajectories, False, 'program: ')
  ctx.nontrivial(len(transitions) >= 1)
  ctx.label(c['files'])
  ctx.label('controls with the result' if c['previous'] else 'controls first')


def judge_transitions(ctx, transitions, trajectories, previous, who):
  """One for every two observations that follow each other."""
  pairs = [
      (a, b)
      for t in trajectories
      for a, b in zip(t.observations[:-1], t.observations[1:])
  ]
  ctx.check(
      len(transitions) == len(pairs),
      f'{who}{len(transitions)} transitions between {len(pairs)} pairs',
  )
  for i, (t, (a, b)) in enumerate(zip(transitions, pairs)):
    acted = b if previous else a
    for what, ok in {
        'atoms before': same_grid(t.grid_before, a.grid),
        'atoms after': same_grid(t.grid_after, b.grid),
        'view before': same_fov(t.fov_before, a.fov),
        'view after': same_fov(t.fov_after, b.fov),
        'image before': same_image(t.image_before, a.image),
        'image after': same_image(t.image_after, b.image),
        'labels before': same_image(t.label_image_before, a.label_image),
        'labels after': same_image(t.label_image_after, b.label_image),
        'controls': same_controls(t.controls, acted.controls),
    }.items():
      ctx.check(ok, f'{who}transition {i} has the wrong {what}')


# Transitions to data.

KINDS = ['hop', 'hop', 'hop', 'stay']
BAD = [
    'no control',
    'two controls',
    'no silicon before',
    'no silicon after',
    'two silicons before',
    'two silicons after',
    'jump',
    'fourfold',
    'twofold',
    'few before',
    'few after',
    'moved',
]


@st.composite
def transition_spec(draw, kinds):
  return {
      'kind': draw(kinds),
      'radius': draw(st.sampled_from([5.0, 6.0, 9.0])),
      'angle': draw(gen.real(0, 2 * math.pi)),
      'shift': draw(gen.xy(-40, 40)),
      'mirror': draw(st.booleans()),
      'seed': draw(gen.seeds()),
      'noise': draw(st.sampled_from([0.0, 0.02, 0.05])),
      'drift': [
          draw(st.one_of(st.just(0.0), gen.real(0.0, 0.3))),
          draw(gen.real(-math.pi, math.pi)),
      ],
      'beam': [
          draw(st.one_of(gen.real(0.05, 3.0), gen.real(3.0, 30.0))),
          draw(gen.real(-math.pi, math.pi)),
      ],
      'to': draw(st.integers(0, 2)),
      'before': draw(gen.fov(offset=60, min_size=5, max_size=60)),
      'after': draw(gen.fov(offset=60, min_size=5, max_size=60)),
      'dwell': draw(gen.real(0.001, 20.0)),
      'kv': draw(gen.real(0.5, 300.0)),
      'na': draw(gen.real(1e-4, 10.0)),
  }


@st.composite
def data_case(draw):
  kinds = st.one_of(st.sampled_from(KINDS), st.sampled_from(BAD))
  return {
      'transitions': draw(
          st.lists(transition_spec(kinds), min_size=1, max_size=6)
      ),
      'cutoff': draw(st.sampled_from([0.71, 0.71, 0.5, 0.2, 0.1])),
      # Or this close to the movement of the first that can be used.
      'near': draw(st.sampled_from([0.0, 0.0, 0.002, -0.002])),
  }


def to_frame(p, f):
  return (p - f[:2]) / (np.array(f[2:]) - f[:2])


def build(s):
  """The transition, and the datum it makes (None: cannot be used)."""
  rng = np.random.default_rng(s['seed'])
  p, _ = lattice.honeycomb(s['radius'], 0.0, (0.0, 0.0))
  if s['mirror']:
    p = p * [-1, 1]
  co, si = math.cos(s['angle']), math.sin(s['angle'])
  p = p @ np.array([[co, si], [-si, co]])
  home = int(np.argmin(np.hypot(*p.T)))
  near = np.argsort(np.round(np.hypot(*p.T), 6), kind='stable')
  neighbors = near[1:4]
  p = p + rng.uniform(-1, 1, p.shape) * s['noise']
  kind = s['kind']
  before, z_before = p.copy(), np.full(len(p), 6)
  z_before[home] = 14
  target = int(neighbors[s['to']]) if kind == 'hop' else home
  if kind == 'jump':
    # A site two or three bonds away.
    target = int(near[4 + s['seed'] % 9])
  step = s['drift'][0]
  if kind == 'moved':
    # Two thirds of a hexagon: no sites in common.
    step = 0.7
  after = (
      p
      + rng.uniform(-1, 1, p.shape) * s['noise']
      + step * np.array([math.cos(s['drift'][1]), math.sin(s['drift'][1])])
  )
  z_after = np.full(len(p), 6)
  z_after[target] = 14
  quad = [home, *neighbors]
  moved = float(np.hypot(*(before[quad] - after[quad]).T).mean())

  if kind == 'moved':
    close = np.argsort(np.hypot(*(after - p[home]).T))[:4]
    gaps = np.hypot(*(before[quad][:, None] - after[close][None]).T)
    moved = float(gaps.min(axis=0).mean())

  far = int(near[-1])
  if kind == 'no silicon before':
    z_before[home] = 6
  elif kind == 'no silicon after':
    z_after[target] = 6
  elif kind == 'two silicons before':
    z_before[far] = 14
  elif kind == 'two silicons after':
    z_after[far] = 14
  elif kind == 'fourfold':
    # Another atom as close as the neighbors, between two of them.
    extra = before[home] + 1.5 * np.array(
        [math.cos(s['beam'][1]), math.sin(s['beam'][1])]
    )
    before = np.concatenate([before, extra[None]])
    z_before = np.append(z_before, 6)
  elif kind == 'twofold':
    keep = np.arange(len(before)) != neighbors[s['to']]
    before, z_before = before[keep], z_before[keep]
  elif kind == 'few before':
    keep = near[: 1 + s['seed'] % 9]
    before, z_before = before[keep], z_before[keep]
  elif kind == 'few after':
    keep = near[: s['seed'] % 4]
    after, z_after = after[keep], z_after[keep]

  origin = p[home]
  beam = origin + s['beam'][0] * np.array(
      [math.cos(s['beam'][1]), math.sin(s['beam'][1])]
  )
  shift = np.array(s['shift'])
  order_b = rng.permutation(len(before))
  order_a = rng.permutation(len(after))
  control = mu.BeamControl(
      position=gen.make_point(to_frame(beam + shift, s['before'])),
      dwell_time=dt.timedelta(seconds=s['dwell']),
      voltage_kv=s['kv'],
      current_na=s['na'],
  )
  controls = {'no control': (), 'two controls': (control,) * 2}.get(
      kind, (control,)
  )
  transition = mu.Transition(
      grid_before=mu.AtomicGrid(
          to_frame(before[order_b] + shift, s['before']), z_before[order_b]
      ),
      grid_after=mu.AtomicGrid(
          to_frame(after[order_a] + shift, s['after']), z_after[order_a]
      ),
      fov_before=gen.make_fov(s['before']),
      fov_after=gen.make_fov(s['after']),
      controls=controls,
  )
  # The datum.
  ring = p[neighbors] - origin
  d = np.hypot(*(p[neighbors] - beam).T)
  first = int(np.argmin(d))
  turns = np.arctan2(ring[:, 1], ring[:, 0])
  turns = (turns - turns[first]) % (2 * math.pi)
  turns[first] = 0.0
  states = np.argsort(np.argsort(turns)) + 1
  r, a = s['beam'][0], s['beam'][1] - math.atan2(*ring[first][::-1])
  datum = {
      'state': int(states[s['to']]) if kind == 'hop' else 0,
      'beam': np.array([r * math.cos(a), r * math.sin(a)]),
      'tie': float(np.sort(d)[1] - np.sort(d)[0]),
      'moved': moved,
      'transition': transition,
      'sites': [origin + shift, p[neighbors][np.argsort(states)] + shift],
      'beam at': beam + shift,
      'after': after[target] + shift if kind == 'hop' else None,
  }
  usable = kind in KINDS or kind == 'moved'
  return transition, datum if usable else None


def args(cutoff=0.71):
  return types.SimpleNamespace(neighbor_distance_cutoff=cutoff)


def convert(transitions, cutoff, **kwargs):
  with contextlib.redirect_stdout(io.StringIO()):
    return train_rate_learner.transitions_to_datapoints(
        transitions, args(cutoff), **kwargs
    )


def check_data(c, ctx):
  built = [build(s) for s in c['transitions']]
  if c['near']:
    moved = [d['moved'] for _, d in built if d is not None]
    c = dict(c, cutoff=max(moved[:1] + [0.01]) + c['near'])
  margin = lambda d: abs(d['moved'] - c['cutoff']) > 1e-3
  # Leave out what could be judged either way.
  keep = [
      (t, d, s)
      for (t, d), s in zip(built, c['transitions'])
      if d is None
      or (
          d['tie'] > 1e-4
          and margin(d)
          and (s['kind'] != 'moved' or d['moved'] > c['cutoff'])
      )
  ]
  got = list(convert([t for t, _, _ in keep], c['cutoff']))
  want = [
      (d, s) for _, d, s in keep if d is not None and d['moved'] < c['cutoff']
  ]
  kinds = [s['kind'] for _, _, s in keep]
  ctx.check(
      len(got) == len(want),
      f'{len(got)} data from transitions {kinds}, {len(want)} expected',
  )
  for g, (d, s) in zip(got, want):
    ctx.check(
        int(g['next_state']) == d['state'],
        f"silicon ended in state {g['next_state']}, not {d['state']}",
    )
    ctx.close(
        np.asarray(g['beam_pos']).reshape(-1),
        d['beam'],
        'position of the beam',
        rtol=1e-6,
        atol=1e-6,
    )
    ctx.close(g['seconds_between'], s['dwell'], 'dwell time', atol=2e-6)
    ctx.close(g['current'], s['na'], 'current')
    ctx.close(g['voltage'], s['kv'], 'voltage')
  for k in kinds:
    ctx.label(k)
  ctx.nontrivial(any(d['state'] for d, _ in want))
  if not want:
    return
  # Stacking.
  for current in (False, True):
    for voltage in (False, True):
      for dwell in (False, True):
        data = train_rate_learner.stack_data(
            got,
            use_current=current,
            use_voltage=voltage,
            dwell_time_in_context=dwell,
        )
        ctx.close(
            data['next_state'], [d['state'] for d, _ in want], 'stacked states'
        )
        ctx.close(
            data['position'], [d['beam'] for d, _ in want],
            'stacked positions', rtol=1e-6, atol=1e-6,
        )
        ctx.close(data['dt'], [s['dwell'] for _, s in want], 'times', atol=2e-6)
        ctx.check(
            np.asarray(data['rates']).shape == (len(want), 3), 'shape of rates'
        )
        columns = [
            [s[k] for _, s in want]
            for k, on in (('na', current), ('kv', voltage), ('dwell', dwell))
            if on
        ]
        if not columns:
          ctx.check(data['context'] is None, 'context of nothing')
        else:
          ctx.close(
              data['context'], np.array(columns).T, 'context',
              rtol=1e-6, atol=2e-6,
          )


# Pictures of transitions.


@st.composite
def plot_case(draw):
  return {
      'transition': draw(
          transition_spec(st.sampled_from(['hop', 'hop', 'stay', 'twofold']))
      ),
      'size': [draw(st.integers(8, 40)), draw(st.integers(8, 40))],
      'square': draw(st.booleans()),
      'image': draw(st.sampled_from(['none', 'flat', 'channel'])),
      'label': draw(st.booleans()),
  }


def check_plot(c, ctx):
  import matplotlib.figure  # pylint: disable=g-import-not-at-top
  import matplotlib.pyplot as plt  # pylint: disable=g-import-not-at-top

  t, d = build(c['transition'])
  if d is not None and (d['tie'] < 1e-4 or d['moved'] > 0.7):
    return
  h, w = c['size']
  if c['square']:
    w = h
  image = None
  if c['image'] != 'none':
    image = np.random.default_rng(0).uniform(
        size=(h, w) if c['image'] == 'flat' else (h, w, 1)
    ).astype(np.float32)
  else:
    h = w = None
  label = np.eye(9, dtype=np.int32) if c['label'] else None
  t = mu.Transition(
      grid_before=t.grid_before,
      grid_after=t.grid_after,
      fov_before=t.fov_before,
      fov_after=t.fov_after,
      controls=t.controls,
      image_before=image,
      label_image_before=label,
  )
  drawn = []
  save = matplotlib.figure.Figure.savefig

  def record(self, target, *a, **k):
    points = {}
    shape = None
    for ax in self.axes:
      if ax.images:
        shape = np.asarray(ax.images[0].get_array()).shape[:2]
      for s in ax.collections:
        points[s.get_label()] = np.asarray(s.get_offsets())
    drawn.append((shape, points))
    k['dpi'] = 20
    return save(self, target, *a, **k)

  open_before = len(plt.get_fignums())
  with tempfile.TemporaryDirectory(prefix='pdv_p23_') as folder:
    folder = os.path.join(folder, 'plots')
    matplotlib.figure.Figure.savefig = record
    try:
      got = convert([t], 0.71, plot_transitions=True, save_path=folder)
    finally:
      matplotlib.figure.Figure.savefig = save
      leaked = len(plt.get_fignums()) - open_before
      plt.close('all')
    files = [
        (os.path.basename(r), f) for r, _, fs in os.walk(folder) for f in fs
    ]
  ctx.check(leaked == 0, f'{leaked} figures were left open')
  ctx.check(len(got) == (d is not None), f'{len(got)} data')
  if d is None:
    ctx.check(not files, f'files {files} for a transition that was skipped')
    return
  ctx.check(
      len(files) == 1 + c['label']
      and all(r.endswith(str(d['state'])) for r, _ in files),
      f"files {files} for a transition to {d['state']}",
  )
  pictures = [p for s, p in drawn if p]
  ctx.check(len(pictures) == 1, f'{len(pictures)} pictures of the transition')
  points = pictures[0]
  shape = [s for s, p in drawn if p][0]
  if h is None:
    h, w = shape
  ctx.check(shape == (h, w), f'image of {(h, w)} is shown as {shape}')
  f = c['transition']['before']

  def pixel(p):
    x, y = to_frame(np.asarray(p), f).reshape(-1, 2).T
    return np.stack([x * w, h - y * h], axis=1)

  def at(what, names, want):
    found = [v for k, v in points.items() if k in names]
    ctx.check(len(found) == 1, f'{what}: not in {sorted(points)}')
    ctx.close(
        found[0], pixel(want), f'{what} in the picture', rtol=1e-5,
        atol=1e-3 * max(h, w),
    )

  at('beam', ['Beam position'], d['beam at'])
  at('silicon', ['Si position (before)'], d['sites'][0])
  for i in range(3):
    at(f'neighbor {i + 1}', [f'Neighbor {i + 1}'], d['sites'][1][i])
  if d['after'] is not None:
    at('silicon afterwards', ['Si position (after)'], d['after'])
  ctx.nontrivial(True)
  ctx.label(c['image'])


PARTS = [
    Part('trajectories', trajectories_case, check_trajectories, 150, 4000),
    Part('data', data_case, check_data, 300, 8000),
    Part('plot', plot_case, check_plot, 12, 300),
]

ASSUMPTIONS = [
    'outcomes closer to a threshold than 0.001 angstroms are not judged',
    'the sheet drifts by less than 0.3 angstroms or by half a bond',
]
