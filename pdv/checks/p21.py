"""P21: rate data and the symmetry of the site."""

import math

from hypothesis import strategies as st
import jax
from jax import numpy as jnp
import numpy as np
from pdv import gen
from pdv.core import Part
from putting_dune.rate_learning import data_utils

PROPERTY = 'P21'
RULE = (
    'Data sets of transitions with generated positions, outcomes, rates and'
    ' context; silicon with three neighbors in every orientation and order with'
    ' the beam anywhere; whole synthetic data sets from generated seeds.'
    ' Non-trivial: at least one datum with a transition and one without (or:'
    ' the nearest neighbor is not the first one).'
)


def turn(v, angle):
  c, s = math.cos(angle), math.sin(angle)
  return np.asarray(v) @ np.array([[c, s], [-s, c]])


# Augmentation.


@st.composite
def data_case(draw):
  n_states = draw(st.sampled_from([3, 3, 3, 2, 4, 5, 6]))
  n = draw(st.integers(1, 6))
  width = draw(st.sampled_from([None, 1, 2, 3]))
  if draw(st.integers(0, 3)) == 3:
    rng = np.random.default_rng(draw(st.integers(0, 99)))
    rows = [
        {
            'state': int(rng.integers(0, n_states + 1)),
            'dt': float(rng.uniform(0, 100)),
            'rates': rng.uniform(0, 5, n_states).tolist(),
            'position': rng.uniform(-3, 3, 2).tolist(),
            'context': rng.uniform(-9, 9, width or 0).tolist(),
        }
        for _ in range(draw(st.integers(7, 150)))
    ]
    return {
        'n_states': n_states,
        'reflect': n_states == 3 and draw(st.booleans()),
        'column': draw(st.booleans()),
        'width': width,
        'rows': rows,
    }
  return {
      'n_states': n_states,
      'reflect': n_states == 3 and draw(st.booleans()),
      'column': draw(st.booleans()),
      'width': width,
      'rows': [
          {
              'state': draw(st.integers(0, n_states)),
              'dt': draw(gen.real(0.0, 100.0)),
              'rates': [draw(gen.real(0.0, 5.0)) for _ in range(n_states)],
              'position': draw(gen.xy(-3, 3)),
              'context': [draw(gen.real(-9, 9)) for _ in range(width or 0)],
          }
          for _ in range(n)
      ],
  }


def orbit(row, n, reflect):
  """All images of a datum, by where its neighbors end up."""
  angles = 2 * math.pi * np.arange(n) / n
  out = []
  for mirror in (False, True) if reflect else (False,):
    for k in range(n):
      extra = 2 * math.pi * k / n
      p = np.array(row['position'])
      if mirror:
        p = p * [1, -1]
      p = turn(p, extra)
      # Where neighbor i goes to.
      new = (-angles if mirror else angles) + extra
      slot = np.round(new / (2 * math.pi / n)).astype(int) % n
      rates = np.zeros(n)
      rates[slot] = row['rates']
      state = slot[row['state'] - 1] + 1 if row['state'] else 0
      out.append([state, row['dt'], *rates, *p, *row['context']])
  return out


def check_augment(c, ctx):
  rows, n, reflect = c['rows'], c['n_states'], c['reflect']
  shape = (-1, 1) if c['column'] else (-1,)
  pick = lambda k: np.array([r[k] for r in rows])
  data = dict(
      next_state=jnp.asarray(pick('state').reshape(shape)),
      dt=jnp.asarray(pick('dt').reshape(shape)),
      rates=jnp.asarray(pick('rates')),
      position=jnp.asarray(pick('position')),
      context=None
      if c['width'] is None
      else jnp.asarray(pick('context').reshape(len(rows), c['width'])),
  )
  out = data_utils.augment_data(**data, reflect=reflect, num_states=n)
  ctx.check(set(out) == set(data), f'fields {sorted(out)}')
  count = len(rows) * n * (2 if reflect else 1)
  for k, v in data.items():
    if v is None:
      ctx.check(out[k] is None, 'context appeared')
      continue
    ctx.check(
        out[k].shape == (count, *v.shape[1:]),
        f'{k}: shape {out[k].shape}, {count} data expected',
    )
  ctx.check(
      jnp.issubdtype(out['next_state'].dtype, jnp.integer),
      f"outcomes have type {out['next_state'].dtype}",
  )
  table = lambda o: np.concatenate(
      [np.asarray(o['next_state']).reshape(-1, 1),
       np.asarray(o['dt']).reshape(-1, 1),
       np.asarray(o['rates']), np.asarray(o['position'])]
      + ([] if o['context'] is None else [np.asarray(o['context'])]),
      axis=1,
  )
  got = table(out)
  want = np.array([x for r in rows for x in orbit(r, n, reflect)])
  # Every datum there is, once: the smallest assignment of got to want.
  left = list(range(len(got)))
  for w in want:
    d = np.abs(got[left] - w).max(axis=1)
    i = int(d.argmin())
    ctx.check(
        d[i] < 1e-4,
        f'no datum is close to {np.round(w, 4).tolist()}, an image of one of the'
        f' data; closest {np.round(got[left[i]], 4).tolist()}',
    )
    left.pop(i)
  states = {r['state'] > 0 for r in rows}
  ctx.nontrivial(len(states) == 2)
  ctx.label(f'{n} states')
  ctx.label('mirrored' if reflect else 'turned only')


# Standard orientation.


@st.composite
def site_case(draw):
  return {
      'spin': draw(gen.real(-math.pi, math.pi)),
      'swing': [draw(gen.real(-0.4, 0.4)) for _ in range(3)],
      'length': [draw(gen.real(1.2, 1.9)) for _ in range(3)],
      'order': draw(st.permutations([0, 1, 2])),
      'beam': draw(st.one_of(gen.xy(-4, 4), gen.xy(-60, 60))),
      'turn': draw(gen.real(-math.pi, math.pi)),
      'again': draw(st.permutations([0, 1, 2])),
      'table': draw(st.booleans()),
  }


def check_site(c, ctx):
  angles = c['spin'] + np.array(c['swing']) + 2 * math.pi * np.arange(3) / 3
  p = np.stack([np.cos(angles), np.sin(angles)], 1) * np.array(c['length'])[:, None]
  p = p[c['order']]
  beam = np.array(c['beam'])
  d = np.hypot(*(p - beam).T)
  if np.diff(np.sort(d))[0] < 1e-6:
    return
  near = int(d.argmin())
  shape = (1, 2) if c['table'] else (2,)
  kept = p.copy()
  b, q, order = data_utils.standardize_beam_and_neighbors(beam.reshape(shape), p)
  ctx.check(np.array_equal(p, kept), 'the neighbors were changed')
  ctx.check(np.shape(b) == shape, f'beam {np.shape(b)}, was {shape}')
  ctx.check(np.shape(q) == (3, 2), f'neighbors {np.shape(q)}')
  # The nearest lies to the right; all were turned by the same angle.
  ctx.close(q[near], [np.hypot(*p[near]), 0.0], 'nearest neighbor', atol=1e-9)
  angle = -math.atan2(p[near][1], p[near][0])
  ctx.close(np.reshape(b, 2), turn(beam, angle), 'beam', atol=1e-9)
  ctx.close(q, turn(p, angle), 'neighbors', atol=1e-9)
  # Listed counter-clockwise from there.
  order = [int(i) for i in order]
  ctx.check(sorted(order) == [0, 1, 2], f'order {order}')
  ctx.check(order[0] == near, f'{order} does not start with the nearest, {near}')
  phi = lambda v: math.atan2(v[1], v[0]) % (2 * math.pi)
  second, third = (phi(turn(p[i], angle)) for i in order[1:])
  ctx.check(second < third, f'order {order} is clockwise')
  # Another view of the same site.
  p2 = turn(p, c['turn'])[list(c['again'])]
  b2, q2, order2 = data_utils.standardize_beam_and_neighbors(
      turn(beam, c['turn']), p2
  )
  ctx.close(b2, np.reshape(b, 2), 'beam, seen from elsewhere', atol=1e-9)
  ctx.close(q2, q[list(c['again'])], 'neighbors, seen from elsewhere', atol=1e-9)
  ctx.check(
      [c['again'][int(i)] for i in order2] == order,
      f'order {order2}, seen from elsewhere',
  )
  ctx.nontrivial(near != 0)


# Synthetic data.


@st.composite
def synthetic_case(draw):
  mode = draw(st.sampled_from(['network', 'prior']))
  return {
      'mode': mode,
      'seed': draw(st.integers(0, 2**31 - 1)),
      'n_states': draw(st.sampled_from([3, 3, 4, 6])),
      'context': draw(st.integers(1, 3)),
      'time': draw(
          st.sampled_from([[0.0, 5.0], [1.0, 3.0], [0.0, 1.0], [2.0, 20.0]])
      ),
      'n': draw(st.sampled_from([30000, 50000])),
  }


def check_synthetic(c, ctx):
  n = c['n_states']

  def make(seed):
    return data_utils.generate_synthetic_data(
        num_data=c['n'],
        data_seed=seed,
        num_states=n,
        context_dim=c['context'],
        actual_time_range=tuple(c['time']),
        mode=c['mode'],
    )

  train, test = make(c['seed'])
  ctx.check(
      not np.array_equal(np.asarray(train['dt']), np.asarray(test['dt'])),
      'testing data are the training data',
  )
  for what, data in (('training', train), ('testing', test)):
    data = {k: np.asarray(v, dtype=float) for k, v in data.items()}
    shapes = {k: v.shape for k, v in data.items()}
    ctx.check(
        shapes
        == {
            'next_state': (c['n'], 1),
            'dt': (c['n'], 1),
            'rates': (c['n'], n),
            'context': (c['n'], c['context']),
            'position': (c['n'], 2),
        },
        f'{what} data {shapes}',
    )
    state, t = data['next_state'][:, 0].astype(int), data['dt'][:, 0]
    rates = data['rates']
    lo, hi = c['time']
    ctx.check(bool(np.all((t >= lo) & (t <= hi))), f'{what}: times out of range')
    ctx.check(
        bool(np.all((state >= 0) & (state <= n))), f'{what}: unknown outcomes'
    )
    z = (t.mean() - (lo + hi) / 2) / ((hi - lo) / math.sqrt(12 * len(t)))
    ctx.check(abs(z) < 6, f'{what}: times are not uniform, {z:.1f} sd')
    # Contexts are random and tell nothing about the time or the place.
    around = np.concatenate([data['context'], data['position'], t[:, None]], 1)
    ctx.check(bool(np.all(np.isfinite(around))), f'{what}: not finite')
    first = c['context']
    ctx.check(
        bool(np.all(around[:, :first].std(axis=0) > 0.05))
        and bool(np.all(np.abs(around[:, :first]) < 100)),
        f'{what}: contexts of spread {around[:, :first].std(axis=0)}',
    )
    # Also as seen from the neighbor nearest to the beam.
    angle = np.arctan2(data['position'][:, 1], data['position'][:, 0])
    sector = np.round(angle * n / (2 * math.pi))
    folded = np.stack([
        turn(p, -2 * math.pi * k / n) for p, k in zip(data['position'], sector)
    ])
    around = np.concatenate([around, folded], 1)
    r = np.corrcoef(around.T)[:first] - np.eye(first, around.shape[1])
    ctx.check(
        np.abs(r).max() < 6.5 / math.sqrt(len(t)),
        f'{what}: contexts correlate with {np.abs(r).max(axis=0).round(3)}',
    )
    if c['mode'] == 'prior':
      # A rate peaks 0.85 bond lengths along the bond it belongs to.
      want = np.stack(
          [
              math.log(2) / 3
              * np.exp(
                  -((turn(data['position'], -2 * math.pi * k / n) - [0.85, 0]) ** 2)
                  .sum(axis=1) / 0.2
              )
              for k in range(n)
          ],
          axis=1,
      )
      ctx.close(rates, want, f'{what}: rates', atol=1e-5, rtol=1e-3)
      # Each direction is seen equally often.
      slot = np.round(
          np.arctan2(*data['position'].T[::-1]) / (2 * math.pi / n)
      ).astype(int) % n
      freq = np.bincount(slot, minlength=n) / len(slot)
      z = (freq - 1 / n) / math.sqrt((1 / n) * (1 - 1 / n) / len(slot))
      ctx.check(np.abs(z).max() < 6, f'{what}: directions {freq.tolist()}')
    # Outcomes follow the rates that are stated.
    total = rates.sum(axis=1)
    p = 1 - np.exp(-total * t)
    moved = (state > 0).astype(float)
    for weight in (np.ones(len(p)), t, total):
      sd = math.sqrt((weight**2 * p * (1 - p)).sum())
      z = (weight * (moved - p)).sum() / max(sd, 1e-9)
      ctx.check(abs(z) < 6.5 or sd < 1, f'{what}: transitions off by {z:.1f} sd')
    some = moved > 0
    share = rates / np.maximum(total, 1e-30)[:, None]
    for k in range(n):
      hit = (state == k + 1).astype(float)[some]
      q = share[some, k]
      for weight in (np.ones(len(q)), q, 1 - p[some], q * (1 - p[some])):
        sd = math.sqrt((weight**2 * q * (1 - q)).sum())
        z = (weight * (hit - q)).sum() / max(sd, 1e-9)
        ctx.check(
            abs(z) < 6.5 or sd < 1,
            f'{what}: outcome {k + 1} off by {z:.1f} sd from its rate',
        )
    ctx.nontrivial(bool(some.any()))
  ctx.label(c['mode'])
  if c['seed'] % 3 == 0:
    again, _ = make(c['seed'])
    ctx.check(
        all(np.array_equal(again[k], train[k]) for k in train),
        'same seed, other data',
    )
  jax.clear_caches()


PARTS = [
    Part('augment', data_case, check_augment, 100, 2500),
    Part('site', site_case, check_site, 400, 20000),
    Part('synthetic', synthetic_case, check_synthetic, 8, 200),
]

ASSUMPTIONS = [
    'mirror images are asked for with three neighbors (as the code states)',
    'the beam is not equally far from its two nearest neighbors',
]
