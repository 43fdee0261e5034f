"""P11: agent actions become beam controls."""

import datetime as dt

from hypothesis import strategies as st
import numpy as np
from pdv import gen
from pdv import obskit
from pdv.core import Part
from putting_dune import action_adapters as aa

PROPERTY = 'P11'
RULE = (
    'Actions inside and beyond the advertised range, as 32- or 64-bit arrays,'
    ' on observations with square and oblong views; several steps per adapter'
    ' so that accumulated state shows. Non-trivial: an oblong view or at least'
    ' two steps.'
)


def _component(lo, hi):
  span = hi - lo
  return st.one_of(
      gen.real(lo, hi),
      gen.real(lo - 2 * span, hi + 2 * span),
      gen.real(lo - 5 * span, hi + 5 * span),
      gen.real(lo - 20 * span, hi + 20 * span),
      st.sampled_from([lo, hi, 0.0]),
  )


@st.composite
def dwell_range(draw):
  lo = draw(gen.real(0.0, 5.0))
  return [
      lo,
      draw(
          st.one_of(
              st.just(lo),
              gen.real(lo, lo + 10.0),
              gen.real(0.001, 0.1).map(lambda d: lo + d),
              gen.real(10.0, 200.0).map(lambda d: lo + d),
          )
      ),
  ]


@st.composite
def case_(draw):
  kind = draw(st.sampled_from(['direct', 'delta', 'relative', 'material']))
  n = draw(st.integers(1, 6))
  limit = {'direct': 1.0, 'delta': 0.1, 'relative': 1.0, 'material': 3.0}[kind]
  low = 0.0 if kind == 'direct' else -limit
  c = {
      'kind': kind,
      'seed': draw(gen.seeds()),
      'f32': draw(st.booleans()),
      'dwell': draw(dwell_range()),
      'max': draw(st.sampled_from([1.42, 2.84, 4.26, 0.7])),
      'default': draw(st.integers(0, 3)) == 0,
      'steps': [],
  }
  for _ in range(n):
    if c['steps'] and draw(st.booleans()):
      obs = draw(obskit.changed(c['steps'][-1]['obs']))
    else:
      obs = draw(obskit.obs_case())
    c['steps'].append({
        'obs': obs,
        'a': [
            draw(_component(low, limit)),
            draw(_component(low, limit)),
            draw(_component(0.0, 1.0)),
        ],
        'reset': draw(st.integers(0, 5)) == 0,
    })
  return c


def make(c):
  if c['kind'] == 'direct':
    return aa.DirectActionAdapter()
  if c['kind'] == 'delta':
    return aa.DeltaPositionActionAdapter(np.random.default_rng(c['seed']))
  cls = (
      aa.RelativeToSiliconActionAdapter
      if c['kind'] == 'relative'
      else aa.RelativeToSiliconMaterialFrameActionAdapter
  )
  if c['default']:
    return cls()
  return cls(
      dwell_time_range=tuple(dt.timedelta(seconds=s) for s in c['dwell']),
      max_distance_angstroms=c['max'],
  )


def check(c, ctx):
  adapter = make(c)
  timed = c['kind'] in ('relative', 'material') and not c['default']
  lo, hi = (
      [dt.timedelta(seconds=s).total_seconds() for s in c['dwell']]
      if timed
      else [1.5, 1.5]
  )
  variable = timed and lo != hi
  reach = c['max'] if timed else 1.42
  spec = adapter.action_spec
  size = 3 if variable else 2
  ctx.check(spec.shape == (size,), f'action spec shape {spec.shape}')
  where = None
  ctx.label(c['kind'] + (' variable dwell' if variable else ''))
  for s in c['steps']:
    v = obskit.View(s['obs'])
    ctx.nontrivial(
        len(c['steps']) > 1 or abs(v.size[0] - v.size[1]) > 0.5
    )
    action = np.array(
        s['a'][:size], dtype=np.float32 if c['f32'] else np.float64
    )
    kept = action.copy()
    obs = v.observation()
    before = obs.grid.atom_positions.copy()
    if s['reset']:
      adapter.reset()
      where = None
    controls = adapter.get_action(obs, action)
    ctx.check(len(controls) == 1, f'{len(controls)} controls')
    control = controls[0]
    got = gen.pt(control.position)
    ctx.check(np.array_equal(action, kept), 'the action was changed in place')
    ctx.check(
        np.array_equal(obs.grid.atom_positions, before),
        'the observation was changed',
    )
    ctx.check(
        bool(np.all((got >= 0) & (got <= 1))),
        f'beam at {got}, outside the view',
    )
    a = action.astype(float)
    if c['kind'] == 'direct':
      want = np.clip(a[:2], 0, 1)
    elif c['kind'] == 'delta':
      if where is None:
        # Wherever the reset put it, some starting place must explain it.
        start_lo, start_hi = np.clip(a[:2], 0, 1), np.clip(a[:2] + 1, 0, 1)
        ctx.check(
            bool(np.all((got >= start_lo - 1e-6) & (got <= start_hi + 1e-6))),
            f'beam at {got} after a first move of {a}',
        )
        want = got
      else:
        want = np.clip(where + a[:2], 0, 1)
      where = got
    elif c['kind'] == 'relative':
      want = v.rel[v.si] + np.clip(a[:2], -1, 1) * reach / v.size
      want = np.clip(want, 0, 1)
    else:
      want = np.clip(v.rel[v.si] + a[:2] / v.size, 0, 1)
    ctx.close(got, want, c['kind'] + ': beam position', rtol=0, atol=2e-6)
    expected = lo + np.clip(a[2], 0, 1) * (hi - lo) if variable else lo
    ctx.close(
        control.dwell_time.total_seconds(),
        expected,
        c['kind'] + ': dwell time',
        rtol=1e-6,
        atol=2e-6,
    )
    ctx.check(
        lo - 2e-6 <= control.dwell_time.total_seconds() <= hi + 2e-6,
        'dwell time outside its range',
    )
    ctx.check(
        (control.voltage_kv, control.current_na) == (60, 0.1),
        'beam voltage or current is not the default',
    )


@st.composite
def start_case(draw):
  return {'seed': draw(gen.seeds()), 'n': 60}


def check_start(c, ctx):
  """A reset puts the accumulated beam position anywhere in the view."""
  v = None
  starts = []
  adapter = aa.DeltaPositionActionAdapter(np.random.default_rng(c['seed']))
  for _ in range(c['n']):
    adapter.reset()
    starts.append(gen.pt(adapter.get_action(v, np.zeros(2))[0].position))
  s = np.array(starts)
  ctx.check(bool(np.all((s >= 0) & (s <= 1))), 'start outside the view')
  # 60 uniform draws: each quarter of each axis is missed with p ~ 3e-8.
  for k in range(2):
    h = np.histogram(s[:, k], bins=4, range=(0, 1))[0]
    ctx.check(bool(np.all(h > 0)), f'starting places {h} along axis {k}')
  twin = aa.DeltaPositionActionAdapter(np.random.default_rng(c['seed']))
  twin.reset()
  ctx.close(
      gen.pt(twin.get_action(v, np.zeros(2))[0].position), s[0], 'same seed'
  )
  ctx.nontrivial()


@st.composite
def bad_case(draw):
  c = draw(obskit.obs_case(max_silicon=3, min_silicon=0))
  c['material'] = draw(st.booleans())
  c['a'] = [draw(gen.real(-1, 1)), draw(gen.real(-1, 1))]
  return c


def check_bad(c, ctx):
  """Relative adapters refuse scenes without a definite silicon."""
  v = obskit.View(c)
  cls = (
      aa.RelativeToSiliconMaterialFrameActionAdapter
      if c['material']
      else aa.RelativeToSiliconActionAdapter
  )
  n = len(v.silicons)
  call = lambda: cls().get_action(v.observation(), np.array(c['a']))
  if n == 1:
    call()
  else:
    ctx.nontrivial()
    ctx.label(f'{n} silicon')
    ctx.raises(RuntimeError, call, f'{n} silicon atoms')


def check_spec(c, ctx):
  """The advertised range is what the actions are understood in."""
  adapter = make(c)
  spec = adapter.action_spec
  lo = np.broadcast_to(np.asarray(spec.minimum, float), spec.shape)
  hi = np.broadcast_to(np.asarray(spec.maximum, float), spec.shape)
  want = {
      'direct': (0.0, 1.0),
      'delta': (-0.1, 0.1),
      'relative': (-1.0, 1.0),
      'material': (-1.0, 1.0),
  }[c['kind']]
  ctx.close(lo[:2], [want[0]] * 2, 'lower limit', atol=1e-6)
  ctx.close(hi[:2], [want[1]] * 2, 'upper limit', atol=1e-6)
  if len(lo) == 3:
    ctx.close(lo[2], 0.0, 'lower dwell limit')
    ctx.close(hi[2], 1.0, 'upper dwell limit')
    ctx.nontrivial()
  ctx.check(spec.dtype == np.float32, f'spec type {spec.dtype}')


PARTS = [
    Part('controls', case_, check, 250, 8000),
    Part('start', start_case, check_start, 20, 400),
    Part('silicon', bad_case, check_bad, 60, 1500),
    Part('spec', case_, check_spec, 40, 400),
]

ASSUMPTIONS = [
    'actions are finite arrays of the advertised shape',
    'relative adapters see exactly one silicon, otherwise they must refuse',
]
