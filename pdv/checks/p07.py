"""P07: what a beam exposure does to the material."""

import datetime as dt
import math

from hypothesis import strategies as st
import numpy as np
from pdv import gen
from pdv.core import Part
from putting_dune import geometry
from putting_dune import graphene
from putting_dune import microscope_utils as mu

PROPERTY = 'P07'
RULE = (
    'Sequences of exposures (position, dwell) on a material whose rate function'
    ' is a generated table by bond direction; every transition reported to'
    ' observers is judged, and event counts, waiting times and destinations are'
    ' compared with the prescribed rates with thresholds beyond 5.5 standard'
    ' deviations. Non-trivial: at least one transition happened (statistics:'
    ' at least 200 expected).'
)


class Recorder(mu.SimulatorObserver):
  """Observer keeping everything it is told."""

  def __init__(self):
    self.events = []

  def observe_transition(self, time_since_control_was_applied, grid):
    self.events.append((
        time_since_control_was_applied,
        np.array(grid.atom_positions),
        np.array(grid.atomic_numbers),
    ))


class TableRates:
  """Rates by bond direction: rank of the angle among the three bonds."""

  def __init__(self, table, plain=False):
    self.table = table
    self.plain = plain
    self.calls = []

  def __call__(self, grid, beam_position):
    p = np.asarray(grid.atom_positions)
    z = np.asarray(grid.atomic_numbers)
    si = int(np.nonzero(z == 14)[0][0])
    self.calls.append((p, z, (beam_position.x, beam_position.y), si))
    d = np.hypot(*(p - p[si]).T)
    nb = np.argsort(d)[1:4]
    v = p[nb] - p[si]
    ang = np.arctan2(v[:, 1], v[:, 0]) % (2 * math.pi)
    order = nb[np.argsort(ang)]
    states = []
    for rank, k in enumerate(order):
      zz = np.full_like(z, 6)
      zz[k] = 14
      rate = float(self.table[rank])
      states.append(
          graphene.SuccessorState(
              mu.AtomicGridMaterialFrame(mu.AtomicGrid(p, zz)),
              rate if self.plain else np.float32(rate),
          )
      )
    return graphene.Rates(states)


@st.composite
def history_case(draw):
  return {
      'seed': draw(gen.seeds()),
      'cols': draw(st.sampled_from([14, 24])),
      'table': [
          draw(st.one_of(gen.real(0.05, 4), st.just(0.0))) for _ in range(3)
      ],
      'plain': draw(st.booleans()),
      'exposures': draw(
          st.lists(
              st.tuples(
                  st.one_of(gen.xy(-5, 5), gen.xy(-200, 200)), gen.real(0, 2)
              ).map(list),
              min_size=1,
              max_size=8,
          )
      ),
      'reset': draw(st.one_of(st.none(), st.integers(1, 4))),
      'observers': draw(st.integers(0, 4)),
  }


def check_history(case, ctx):
  """Each exposure, transition by transition."""
  rates = TableRates(case['table'], case['plain'])
  m = graphene.PristineSingleDopedGraphene(
      rate_function=rates, grid_columns=case['cols']
  )
  rng = np.random.default_rng(case['seed'])
  ctx.raises(
      RuntimeError,
      lambda: m.apply_control(
          rng, gen.make_control({'xy': [0, 0], 'dwell': 1, 'kv': 60, 'na': 1})
      ),
      'exposing a material that was never reset',
  )
  m.reset(rng)
  p0 = np.array(m.grid.atom_positions)
  hops = 0
  for i, (pos, dwell) in enumerate(case['exposures']):
    if case['reset'] == i:
      m.reset(rng)
      p0 = np.array(m.grid.atom_positions)
      ctx.label('reset')
    z_now = np.array(m.grid.atomic_numbers)
    recorders = [Recorder() for _ in range(case['observers'])]
    control = gen.make_control(
        {'xy': pos, 'dwell': dwell, 'kv': 60.0, 'na': 0.1}
    )
    rates.calls.clear()
    m.apply_control(rng, mu.BeamControlMaterialFrame(control), recorders)
    for c in rates.calls:
      ctx.close(c[2], pos, 'beam position given to the rate function')
      ctx.check(np.array_equal(c[0], p0), 'rates evaluated on a moved grid')
    z_end = np.array(m.grid.atomic_numbers)
    ctx.check(
        np.array_equal(m.grid.atom_positions, p0), 'an atom position changed'
    )
    ctx.check(
        int((z_end == 14).sum()) == 1 and bool(np.all((z_end == 14) | (z_end == 6))),
        'the number of silicon or carbon atoms changed',
    )
    if dwell == 0:
      ctx.check(
          np.array_equal(z_now, z_end), 'a transition without any exposure'
      )
    if sum(case['table']) == 0:
      ctx.check(np.array_equal(z_now, z_end), 'a transition at zero rates')
    for r in recorders:
      last = dt.timedelta(0)
      z_prev = z_now
      for when, p, z in r.events:
        ctx.check(
            last <= when <= control.dwell_time,
            f'transition at {when} after one at {last},'
            f' exposure lasts {control.dwell_time}',
        )
        ctx.check(when > dt.timedelta(0), 'transition before the exposure')
        ctx.check(np.array_equal(p, p0), 'observed grid has moved atoms')
        a, b = int(np.nonzero(z_prev == 14)[0][0]), np.nonzero(z == 14)[0]
        ctx.check(len(b) == 1, 'observed grid has several silicon atoms')
        b = int(b[0])
        changed = set(np.nonzero(z != z_prev)[0].tolist())
        ctx.check(
            changed == {a, b} and a != b, 'a transition is not a single swap'
        )
        d = np.hypot(*(p0 - p0[a]).T)
        near = np.argsort(d)[1:4]
        ctx.check(b in near, 'the silicon jumped past its neighbors')
        v = p0[near] - p0[a]
        ang = np.arctan2(v[:, 1], v[:, 0]) % (2 * math.pi)
        rank = int(np.nonzero(near[np.argsort(ang)] == b)[0][0])
        ctx.check(
            case['table'][rank] > 0, 'a transition along a bond of zero rate'
        )
        last, z_prev = when, z
        hops += 1
      ctx.check(
          np.array_equal(z_prev, z_end),
          'the transitions reported do not lead to the final state',
      )
    if len(recorders) == 2:
      ctx.check(
          [e[0] for e in recorders[0].events]
          == [e[0] for e in recorders[1].events],
          'observers were told different histories',
      )
    if recorders:
      # One evaluation of the rates per state visited, on that state.
      visited = [z_now] + [e[2] for e in recorders[0].events]
      for c in rates.calls:
        ctx.check(
            any(np.array_equal(c[1], v) for v in visited),
            'rates evaluated on a state the material was never in',
        )
  ctx.nontrivial(hops >= 1)
  ctx.label(f'hops>={min(hops, 3)}')


@st.composite
def stat_case(draw):
  table = [draw(gen.real(0.1, 2.0)) for _ in range(3)]
  return {
      'seed': draw(gen.seeds()),
      'table': table,
      'dwell': draw(gen.real(0.2, 1.5)),
      'split': draw(st.integers(1, 3)),
      # The same at another pace, from milliseconds to months.
      'pace': draw(st.sampled_from([1.0, 1e3, 1e-3, 1e-5, 1e-7])),
  }


def check_stat(case, ctx):
  """Counts, times and destinations follow the rates."""
  n = 150
  table = [x * case['pace'] for x in case['table']]
  lam = sum(table)
  t = case['dwell'] / case['pace']
  rates = TableRates(table)
  m = graphene.PristineSingleDopedGraphene(rate_function=rates, grid_columns=30)
  rng = np.random.default_rng(case['seed'])
  m.reset(rng)
  start = m.grid
  total = 0
  sq = 0.0
  times = []
  dest = np.zeros(3)
  mean = lam * t
  for _ in range(n):
    # The same total exposure given in one or several pieces is equivalent.
    m.grid = start
    k = 0
    for _ in range(case['split']):
      r = Recorder()
      z = np.array(m.grid.atomic_numbers)
      control = mu.BeamControl(
          geometry.Point(0.0, 0.0), dt.timedelta(seconds=t / case['split'])
      )
      m.apply_control(rng, mu.BeamControlMaterialFrame(control), [r])
      for when, p, z2 in r.events:
        a, b = int(np.nonzero(z == 14)[0][0]), int(np.nonzero(z2 == 14)[0][0])
        d = np.hypot(*(p - p[a]).T)
        near = np.argsort(d)[1:4]
        v = p[near] - p[a]
        ang = np.arctan2(v[:, 1], v[:, 0]) % (2 * math.pi)
        hit = np.nonzero(near[np.argsort(ang)] == b)[0]
        ctx.check(len(hit) == 1, 'the silicon jumped past its neighbors')
        dest[int(hit[0])] += 1
        times.append(when.total_seconds() / (t / case['split']))
        z = z2
        k += 1
    total += k
    sq += (k - mean) ** 2
  expected = n * mean
  ctx.nontrivial(expected >= 200)
  limit = 5.5
  zc = (total - expected) / math.sqrt(expected)
  ctx.check(
      abs(zc) < limit + 3 / math.sqrt(expected),
      f'{total} transitions, the rates prescribe {expected:.1f} ({zc:+.1f} sd)',
  )
  # Poisson counts: variance equals the mean.
  var = sq / n
  sd = math.sqrt((mean + 2 * mean**2) / n)
  ctx.check(
      abs(var - mean) < 6.5 * sd + 1e-9,
      f'counts have variance {var:.3f}, expected {mean:.3f} (sd {sd:.3f})',
  )
  if total:
    zt = (np.mean(times) - 0.5) * math.sqrt(12 * total)
    ctx.check(
        abs(zt) < limit, f'transition times are not spread evenly ({zt:+.1f} sd)'
    )
  for i in range(3):
    e = n * t * table[i]
    zd = (dest[i] - e) / math.sqrt(e)
    ctx.check(
        abs(zd) < limit + 4 / math.sqrt(e),
        f'{dest[i]:.0f} transitions along bond {i}, expected {e:.1f}'
        f' ({zd:+.1f} sd)',
    )


@st.composite
def slow_case(draw):
  return {
      'seed': draw(gen.seeds()),
      'rate': draw(st.sampled_from([0.0, 1e-30, 1e-12])),
      'plain': draw(st.booleans()),
      'hours': draw(gen.real(0.0, 30.0)),
  }


def check_slow(case, ctx):
  """Impossible or astronomically slow transitions do not happen."""
  rates = TableRates([case['rate']] * 3, case['plain'])
  m = graphene.PristineSingleDopedGraphene(rate_function=rates, grid_columns=10)
  rng = np.random.default_rng(case['seed'])
  m.reset(rng)
  z = np.array(m.grid.atomic_numbers)
  r = Recorder()
  control = mu.BeamControl(
      geometry.Point(0.0, 0.0), dt.timedelta(hours=case['hours'])
  )
  m.apply_control(rng, mu.BeamControlMaterialFrame(control), [r])
  ctx.nontrivial(case['hours'] > 0)
  ctx.check(
      not r.events and np.array_equal(z, m.grid.atomic_numbers),
      f"{len(r.events)} transitions at a rate of {case['rate']} per second",
  )


@st.composite
def physics_case(draw):
  return {
      'seed': draw(gen.seeds()),
      'aim': draw(st.integers(0, 2)),
      'dwell': draw(gen.real(0.5, 3.0)),
  }


def check_physics(case, ctx):
  """The default material: aiming at a neighbor usually moves silicon there."""
  m = graphene.PristineSingleDopedGraphene(grid_columns=14)
  rng = np.random.default_rng(case['seed'])
  m.reset(rng)
  start = m.grid
  p, z = np.array(start.atom_positions), np.array(start.atomic_numbers)
  si = int(np.nonzero(z == 14)[0][0])
  near = np.argsort(np.hypot(*(p - p[si]).T))[1:4]
  target = int(near[case['aim']])
  first = {}
  n = 60
  hopped = 0
  rate = [
      1 / (1 + (4 * np.hypot(*(p[target] - p[k])) / 1.42) ** 2) for k in near
  ]
  lam = sum(rate)
  for _ in range(n):
    m.grid = start
    r = Recorder()
    control = mu.BeamControl(
        gen.make_point(p[target]), dt.timedelta(seconds=case['dwell'])
    )
    m.apply_control(rng, mu.BeamControlMaterialFrame(control), [r])
    if r.events:
      hopped += 1
      k = int(np.nonzero(r.events[0][2] == 14)[0][0])
      first[k] = first.get(k, 0) + 1
  ctx.nontrivial(hopped > 10)
  q = 1 - math.exp(-lam * case['dwell'])
  sd = math.sqrt(n * q * (1 - q)) + 0.7
  ctx.check(
      abs(hopped - n * q) < 6 * sd, f'{hopped} of {n} moved, expected {n * q:.1f}'
  )
  share = rate[case['aim']] / lam
  got = first.get(target, 0)
  sd = math.sqrt(hopped * share * (1 - share)) + 0.7
  ctx.check(
      abs(got - hopped * share) < 6 * sd,
      f'{got} of {hopped} first moves to the target, expected'
      f' {hopped * share:.1f}',
  )


PARTS = [
    Part('history', history_case, check_history, 300, 8000),
    Part('statistics', stat_case, check_stat, 30, 800),
    Part('slow', slow_case, check_slow, 60, 1000),
    Part('physics', physics_case, check_physics, 12, 300),
]
WEIGHTS = {'statistics': 3, 'history': 2}
ASSUMPTIONS = [
    'rate tables depend on bond direction only, so that transition counts are'
    ' Poisson; long exposures with substantial rates are left out because the'
    ' silicon would reach the edge of the sheet'
]
