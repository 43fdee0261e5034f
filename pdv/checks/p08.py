"""P08: the simulated microscope: time, field of view, observers."""

import datetime as dt
import functools
import inspect
from unittest import mock

from hypothesis import strategies as st
import numpy as np
from pdv import gen
from pdv import simkit
from pdv.core import Part
from putting_dune import graphene
from putting_dune import imaging
from putting_dune import microscope_utils as mu
from putting_dune import simulator
from putting_dune import simulator_observers

PROPERTY = 'P08'
RULE = (
    'Histories of resets and steps with zero to three controls, with materials'
    ' that push the silicon in a generated direction; after each step an'
    ' independent account of time, view, transitions and notifications is'
    ' compared. Non-trivial: at least one step moved the field of view and one'
    ' did not.'
)


@st.composite
def op(draw):
  kind = draw(st.sampled_from(['step'] * 8 + ['reset', 'attach', 'attach']))
  if kind == 'step':
    return {
        'op': 'step',
        'controls': draw(st.lists(
                gen.control(-0.5, 1.5),
                max_size=draw(st.sampled_from([3] * 9 + [12])),
            )
        ),
        'image': draw(st.integers(0, 7)) == 0,
    }
  if kind == 'reset':
    return {'op': 'reset', 'image': draw(st.integers(0, 5)) == 0}
  return {'op': kind}


@st.composite
def history(draw):
  longest = draw(st.sampled_from([8] * 5 + [30]))
  ops = draw(st.lists(op(), min_size=2, max_size=longest))
  rate = draw(st.sampled_from([0.0, 0.7, 2.0, 3.0]))
  for o in ops:
    for c in o.get('controls', ()):
      c['dwell'] = draw(
          st.one_of(
              st.sampled_from([0.0, min(c['dwell'], 0.7), 1.5, 2.5, 2.5]),
              gen.real(0.0, 2.5),
              gen.real(0.0, 2.5 if rate else 400.0),
          )
      )
  return {
      'seed': draw(gen.seeds()),
      'rate': rate,
      'angle': draw(gen.real(0, 6.28)),
      'other': draw(st.sampled_from([0.0, 0.2])),
      'duration': draw(gen.real(0.1, 6.0)),
      'ops': [{'op': 'reset', 'image': False}] + ops,
      'observer': draw(st.booleans()),
  }


def build(case, observers):
  material = graphene.PristineSingleDopedGraphene(
      rate_function=simkit.DriftRates(
          case['rate'], case['angle'], case['other']
      ),
      grid_columns=50,
  )
  duration = dt.timedelta(seconds=case['duration'])
  return (
      simulator.PuttingDuneSimulator(
          material, image_duration=duration, observers=observers
      ),
      duration,
  )


def same_fov(ctx, a, b, what, atol=1e-9):
  ctx.close(gen.fov_array(a), gen.fov_array(b), what, atol=atol, rtol=1e-9)


EVENT = simulator_observers.SimulatorEventType
KIND = {
    EVENT.RESET: 'reset',
    EVENT.TRANSITION: 'transition',
    EVENT.APPLY_CONTROL: 'control',
    EVENT.TAKE_IMAGE: 'take',
    EVENT.GENERATED_IMAGE: 'image',
}


def same_events(ctx, events, log):
  """The event recorder tells the same story as the notifications."""
  log = [e for e in log if e[0] != 'fov']
  got = [KIND[e.event_type] for e in events]
  ctx.check(
      got == simkit.kinds(log),
      f'recorded events {got}, notified {simkit.kinds(log)}',
  )
  for e, l in zip(events, log):
    data = e.event_data
    if l[0] == 'reset':
      ctx.check(data['grid'] is l[1] or data['grid'] == l[1], 'reset grid')
      same_fov(ctx, data['fov'], l[2], 'reset fov')
    elif l[0] == 'control':
      ctx.close(gen.pt(data['position']), gen.pt(l[1].position), 'position')
      ctx.check(data['dwell_time'] == l[1].dwell_time, 'dwell time')
    elif l[0] == 'transition':
      ctx.check(data['time_since_control_was_applied'] == l[1], 'event time')
      ctx.check(
          np.array_equal(data['grid'].atomic_numbers, l[2].atomic_numbers),
          'event grid',
      )
    elif l[0] == 'take':
      ctx.check(data['duration'] == l[1], 'image duration')
      same_fov(ctx, data['fov'], l[2], 'image fov')
    else:
      ctx.check(np.array_equal(data['image'], l[1]), 'event image')


def frozen(obs):
  """A copy of all an observation says."""
  return [
      np.array(obs.grid.atom_positions),
      np.array(obs.grid.atomic_numbers),
      gen.fov_array(obs.fov),
      [
          (c.position.x, c.position.y, c.dwell_time, c.voltage_kv, c.current_na)
          for c in obs.controls
      ],
      obs.elapsed_time,
      None if obs.image is None else np.array(obs.image),
  ]


def frozen_event(e):
  grids = [x for x in e if isinstance(x, mu.AtomicGrid)]
  images = [x for x in e if isinstance(x, np.ndarray)]
  return [
      np.array(a) for g in grids for a in (g.atom_positions, g.atomic_numbers)
  ] + [np.array(i) for i in images]


def unchanged(a, b):
  if isinstance(a, np.ndarray):
    return np.array_equal(a, b)
  if isinstance(a, list):
    return len(a) == len(b) and all(unchanged(x, y) for x, y in zip(a, b))
  return a == b


def watching_images(seen):
  """Notes what images are made of."""
  real = imaging.generate_stem_image
  sig = inspect.signature(real)

  @functools.wraps(real)
  def generate(*args, **kwargs):
    got = sig.bind(*args, **kwargs).arguments
    image = real(*args, **kwargs)
    seen.append((
        [v for v in got.values() if isinstance(v, mu.AtomicGrid)],
        [v for v in got.values() if isinstance(v, mu.MicroscopeFieldOfView)],
        image,
    ))
    return image

  return mock.patch.object(imaging, 'generate_stem_image', generate)


def check_history(case, ctx):
  seen = []
  with watching_images(seen):
    account(case, ctx, seen)


def account(case, ctx, made):
  """Step by step against an independent account."""
  rec = simkit.Recorder()
  late = simkit.Recorder()
  book = simulator_observers.EventObserver()
  first = [rec, book] if case['observer'] else [rec]
  sim, duration = build(case, first)
  first.clear()  # The list is ours; the simulator keeps its own.
  rng = np.random.default_rng(case['seed'])
  ctx.raises(
      RuntimeError,
      lambda: sim.step_and_image(rng, []),
      'stepping a simulator that was never reset',
  )
  rec.log.clear()
  fov = None
  stayed = moved = 0
  attached = False
  since_reset = []
  told = []
  for o in case['ops']:
    rec.log.clear()
    late.log.clear()
    if o['op'] == 'attach':
      if attached:
        sim.remove_observer(late)
      else:
        sim.add_observer(late)
      attached = not attached
      continue
    z_before = (
        np.array(sim.material.grid.atomic_numbers) if fov is not None else None
    )
    if o['op'] == 'reset':
      obs = sim.reset(rng, return_image=o['image'])
      controls = []
    else:
      controls = [gen.make_control(c) for c in o['controls']]
      obs = sim.step_and_image(rng, controls, return_image=o['image'])
    log = list(rec.log)
    p = np.array(sim.material.grid.atom_positions)
    z = np.array(sim.material.grid.atomic_numbers)
    si = p[z == 14][0]

    if o['op'] == 'reset':
      since_reset = []
      f = gen.fov_array(obs.fov)
      w, h = f[1] - f[0]
      ctx.check(abs(w - h) < 1e-9, 'reset: view is not square')
      ctx.check(15 - 1e-9 <= w <= 30 + 1e-9, f'reset: view is {w} A wide')
      ctx.close(f.mean(axis=0), si, 'reset: view centre', atol=1e-9)
      want = ['reset', 'fov', 'take'] + (['image'] if o['image'] else [])
      ctx.check(
          simkit.kinds(log) == want, f'reset: notified {simkit.kinds(log)}'
      )
      same_fov(ctx, log[0][2], obs.fov, 'reset: notified view')
      same_fov(ctx, log[1][1], obs.fov, 'reset: notified view change')
      ctx.check(
          np.array_equal(log[0][1].atom_positions, p)
          and np.array_equal(log[0][1].atomic_numbers, z),
          'reset: notified material',
      )
      expected_time = duration
      views = [obs.fov]
    else:
      # Where is the silicon in the old view, once the exposures are over?
      old = gen.fov_array(fov)
      rel = (si - old[0]) / (old[1] - old[0])
      slack = np.minimum(np.abs(rel - 0.25), np.abs(rel - 0.75)).min()
      out = bool(np.any((rel < 0.25) | (rel > 0.75)))
      if slack < 1e-9:
        out = not np.allclose(gen.fov_array(obs.fov), old)
      n_images = 2 if out else 1
      moved += out
      stayed += not out
      expected_time = sum(
          (c.dwell_time for c in controls), start=dt.timedelta()
      ) + n_images * duration
      if out:
        size = old[1] - old[0]
        ctx.close(
            gen.fov_array(obs.fov),
            np.stack([si - size / 2, si + size / 2]),
            'step: view re-centred on the silicon at the same scale',
            atol=1e-8,
        )
      else:
        same_fov(ctx, obs.fov, fov, 'step: view moved without need')
      # Notifications.
      i = 0
      for c in controls:
        ctx.check(
            i < len(log) and log[i][0] == 'control',
            f'step: notifications {simkit.kinds(log)}',
        )
        m = log[i][1]
        where = np.array([c.position.x, c.position.y]) * (old[1] - old[0])
        ctx.close(
            gen.pt(m.position), where + old[0], 'step: beam position', atol=1e-8
        )
        ctx.check(
            (m.dwell_time, m.voltage_kv, m.current_na)
            == (c.dwell_time, c.voltage_kv, c.current_na),
            'step: dwell time, voltage or current of the applied control',
        )
        i += 1
        last = dt.timedelta(0)
        while i < len(log) and log[i][0] == 'transition':
          ctx.check(
              last <= log[i][1] <= c.dwell_time, 'step: transition time'
          )
          last = log[i][1]
          zz = np.asarray(log[i][2].atomic_numbers)
          ctx.check(
              int((zz != z_before).sum()) == 2, 'step: transition not a swap'
          )
          z_before = zz
          i += 1
      ctx.check(
          np.array_equal(z_before, z), 'step: a transition was not notified'
      )
      tail = ['take'] + (['fov', 'take'] if out else [])
      tail += ['image'] if o['image'] else []
      ctx.check(
          simkit.kinds(log[i:]) == tail,
          f'step: notified {simkit.kinds(log[i:])} at the end, not {tail}',
      )
      views = [fov] + ([obs.fov] if out else [])
      if out:
        same_fov(ctx, log[i + 1][1], obs.fov, 'step: notified view change')

    # What holds for every observation.
    takes = [e for e in log if e[0] == 'take']
    ctx.check(len(takes) == len(views), 'number of images')
    for t, v in zip(takes, views):
      ctx.check(t[1] == duration, 'notified image duration')
      same_fov(ctx, t[2], v, 'notified image view')
    ctx.check(
        obs.elapsed_time == expected_time,
        f'elapsed {obs.elapsed_time}, expected {expected_time}',
    )
    ctx.check(
        tuple(obs.controls) == tuple(controls), 'observation lists the controls'
    )
    fov = obs.fov
    simkit.same_view(ctx, obs.grid, p, z, fov, o['op'])
    seen = np.asarray(obs.grid.atom_positions)[
        np.asarray(obs.grid.atomic_numbers) == 14
    ]
    ctx.check(len(seen) == 1, f'{len(seen)} silicon atoms in view')
    ctx.check(
        bool(np.all((seen >= 0.25 - 1e-7) & (seen <= 0.75 + 1e-7))),
        f'silicon at {seen[0]} is outside the central area of the view',
    )
    if o['image']:
      ctx.check(
          obs.image is not None
          and log[-1][0] == 'image'
          and np.array_equal(obs.image, log[-1][1]),
          'image delivered and notified',
      )
      ctx.check(
          bool(np.all(np.isfinite(obs.image))), 'image has invalid pixels'
      )
      for grids, fovs, image in made[-1:]:
        if not np.array_equal(image, obs.image):
          continue
        ctx.check(
            all(unchanged(gen.fov_array(f), gen.fov_array(fov)) for f in fovs),
            'the image is of another field of view than the observation',
        )
        for g in grids:
          simkit.same_view(ctx, g, p, z, fov, o['op'] + ', imaged')
    else:
      ctx.check(obs.image is None, 'image although none was requested')
    since_reset += log
    told.append((obs, frozen(obs), log, [frozen_event(e) for e in log]))
    if attached:
      ctx.check(
          simkit.kinds(late.log) == simkit.kinds(log),
          'an added observer is not told the same',
      )
    else:
      ctx.check(not late.log, 'a removed observer is still told')
    if case['observer']:
      same_events(ctx, book.events, since_reset)
  for i, (obs, was, log, logged) in enumerate(told):
    ctx.check(
        unchanged(frozen(obs), was), f'observation {i} of {len(told)} changed'
    )
    for e, copied in zip(log, logged):
      ctx.check(
          unchanged(frozen_event(e), copied),
          f'what was notified as {e[0]} changed afterwards',
      )
  ctx.nontrivial(moved >= 1 and stayed >= 1)
  ctx.label('moved' if moved else 'never moved')


@st.composite
def twin_case(draw):
  c = draw(history())
  c['ops'] = [o for o in c['ops'] if o['op'] in ('reset', 'step')]
  c['rate'] = draw(st.sampled_from([0.7, 2.0]))
  return c


def check_twin(case, ctx):
  """Observers do not influence what happens; same seed, same history."""
  runs = []
  for observers in ((), (simkit.Recorder(), simulator_observers.EventObserver())):
    sim, _ = build(case, observers)
    rng = np.random.default_rng(case['seed'])
    out = []
    for o in case['ops']:
      if o['op'] == 'reset':
        obs = sim.reset(rng, return_image=o['image'])
      else:
        obs = sim.step_and_image(
            rng,
            [gen.make_control(c) for c in o['controls']],
            return_image=o['image'],
        )
      out.append(obs)
    runs.append(out)
  steps = sum(o['op'] == 'step' for o in case['ops'])
  ctx.nontrivial(steps >= 1)
  for a, b in zip(*runs):
    ctx.check(
        np.array_equal(a.grid.atom_positions, b.grid.atom_positions)
        and np.array_equal(a.grid.atomic_numbers, b.grid.atomic_numbers),
        'grids differ between identically seeded runs',
    )
    ctx.check(a.elapsed_time == b.elapsed_time, 'elapsed times differ')
    same_fov(ctx, a.fov, b.fov, 'views differ')
    ctx.check((a.image is None) == (b.image is None), 'image presence')
    if a.image is not None:
      ctx.check(np.array_equal(a.image, b.image), 'images differ')


PARTS = [
    Part('history', history, check_history, 160, 4000),
    Part('twin', twin_case, check_twin, 40, 1000),
]
WEIGHTS = {'history': 3}
ASSUMPTIONS = [
    'the sheet (70 angstrom across) is not left by the silicon in view'
]
