"""P22: splitting and bootstrapping of data sets."""

import collections
import math

from hypothesis import strategies as st
import jax
from jax import numpy as jnp
import numpy as np
from pdv import gen
from pdv.core import Part
from putting_dune.rate_learning import data_utils
from putting_dune.rate_learning import learn_rates

PROPERTY = 'P22'
RULE = (
    'Data sets of generated length in which every entry of a row carries the'
    ' number of the row, split, bootstrapped and augmented with generated keys.'
    ' Non-trivial: both parts hold data.'
)


@st.composite
def rows_case(draw):
  return {
      'n': draw(
          st.one_of(
              st.integers(1, 8), st.integers(9, 60), st.integers(200, 700)
          )
      ),
      'seed': draw(gen.seeds()),
      'fraction': draw(
          st.one_of(st.sampled_from([0.0, 0.1, 0.5, 0.99]), gen.real(0, 1))
      ),
      'jax': draw(st.booleans()),
      'column': draw(st.booleans()),
      'context': draw(st.booleans()),
  }


def dataset(c):
  """Row i holds i, in every field."""
  i = np.arange(c['n'], dtype=np.float32)
  column = i[:, None] if c['column'] else i
  data = {
      'next_state': np.asarray(column, np.int32) % 4,
      'dt': column + 0.25,
      'rates': np.stack([i, i + 0.5, i + 0.75], axis=1),
      # All at one angle, so that a datum can be told from its images.
      'position': (i + 1)[:, None] * np.array([np.cos(0.1), np.sin(0.1)]),
  }
  if c['context']:
    data['context'] = np.stack([i * 2, -i], axis=1)
  if c['jax']:
    data = {k: jnp.asarray(v) for k, v in data.items()}
  return data


def numbers(ctx, data, n, what):
  """The rows there are; every field must agree on it."""
  dt = np.asarray(data['dt'], dtype=float).reshape(-1)
  i = np.round(dt - 0.25).astype(int)
  ctx.check(
      bool(np.all((i >= 0) & (i < n))) and np.allclose(dt, i + 0.25),
      f'{what}: rows that are not in the data',
  )
  size = np.hypot(*np.asarray(data['position'], dtype=float).reshape(-1, 2).T)
  rates = np.sort(np.asarray(data['rates'], dtype=float).reshape(-1, 3), axis=1)
  state = np.asarray(data['next_state']).reshape(-1)
  ok = (
      len(size) == len(rates) == len(state) == len(i)
      and np.allclose(size, i + 1, rtol=1e-4)
      and np.allclose(rates, i[:, None] + [0, 0.5, 0.75])
      and np.array_equal(state == 0, i % 4 == 0)
  )
  if 'context' in data:
    context = np.asarray(data['context'], dtype=float)
    ok = ok and np.allclose(context, np.stack([i * 2, -i], axis=1))
  ctx.check(bool(ok), f'{what}: rows are torn apart')
  return i.tolist()


def check_rows(c, ctx):
  n = c['n']
  data = dataset(c)
  key = jax.random.PRNGKey(c['seed'])
  train, test = data_utils.bootstrap_dataset(data, key)
  ctx.check(set(train) == set(test) == set(data), 'fields went missing')
  a = numbers(ctx, train, n, 'drawn')
  b = numbers(ctx, test, n, 'left over')
  ctx.check(len(a) == n, f'{len(a)} rows were drawn from {n}')
  ctx.check(
      sorted(b) == sorted(set(range(n)) - set(a)),
      f'drawn {sorted(set(a))}, left over {sorted(b)} of {n}',
  )
  again, _ = data_utils.bootstrap_dataset(data, key)
  ctx.check(
      numbers(ctx, again, n, 'drawn again') == a, 'same key, other rows'
  )
  f = c['fraction']
  train, test = data_utils.split_dataset(data, key, f)
  a = numbers(ctx, train, n, 'training')
  b = numbers(ctx, test, n, 'testing')
  ctx.check(
      sorted(a + b) == list(range(n)),
      f'training {sorted(a)} and testing {sorted(b)} do not make up {n} rows',
  )
  ctx.check(
      abs(len(b) - n * f) < 1 + 1e-9, f'{len(b)} of {n} rows for a share of {f}'
  )
  ctx.nontrivial(bool(a and b))


@st.composite
def fair_case(draw):
  return {
      'n': draw(st.integers(3, 12)),
      'seed': draw(gen.seeds()),
      'fraction': draw(st.sampled_from([0.34, 0.5])),
      'jax': True,
      'column': False,
      'context': False,
  }


def check_fair(c, ctx):
  """No row is drawn more often than another."""
  n, times = c['n'], 250
  data = dataset(c)
  drawn, tested = np.zeros(n), np.zeros(n)
  for key in jax.random.split(jax.random.PRNGKey(c['seed']), times):
    train, _ = data_utils.bootstrap_dataset(data, key)
    for i in numbers(ctx, train, n, 'drawn'):
      drawn[i] += 1
    _, test = data_utils.split_dataset(data, key, c['fraction'])
    for i in numbers(ctx, test, n, 'testing'):
      tested[i] += 1
  z = (drawn - times) / math.sqrt(times * (1 - 1 / n))
  ctx.check(np.abs(z).max() < 6, f'rows were drawn {drawn.tolist()} times')
  p = int(n * c['fraction']) / n
  z = (tested - times * p) / math.sqrt(times * p * (1 - p))
  ctx.check(np.abs(z).max() < 6, f'rows were tested {tested.tolist()} times')
  ctx.nontrivial(True)


@st.composite
def splits_case(draw):
  way = draw(st.sampled_from(['bootstrap', 'split', 'all']))
  return {
      'n': draw(st.integers(4, 20)),
      'seed': draw(gen.seeds()),
      'way': way,
      'fraction': draw(gen.real(0.2, 0.8)) if way == 'split' else 0.0,
      'splits': draw(st.integers(1, 3)),
      'augment': draw(st.booleans()),
      'jax': True,
      'column': draw(st.booleans()),
      'context': draw(st.sampled_from([True, True, False])),
      'none': draw(st.booleans()),
  }


def check_splits(c, ctx):
  n = c['n']
  data = dataset(c)
  if not c['context'] and c['none']:
    data['context'] = None
  train, test = learn_rates.create_dataset_splits(
      data,
      c['splits'],
      jax.random.PRNGKey(c['seed']),
      bootstrap=c['way'] == 'bootstrap',
      augment_data=c['augment'],
      test_fraction=c['fraction'],
  )
  want = {'next_state', 'dt', 'rates', 'context'}
  ctx.check(
      set(train) == want and set(test) == want,
      f'fields {sorted(train)} and {sorted(test)}',
  )
  width = 4 if c['context'] else 2
  sizes = []
  seen = []
  for s in range(c['splits']):
    parts = []
    for what, whole in (('training', train), ('testing', test)):
      ctx.check(
          all(v.shape[0] == c['splits'] for v in whole.values()),
          f'{what}: not one data set per split',
      )
      d = {k: np.asarray(v[s]) for k, v in whole.items()}
      ctx.check(
          d['context'].shape[1:] == (width,), f"context {d['context'].shape}"
      )
      d['position'] = d['context'][:, -2:]
      d['context'] = d['context'][:, :-2]
      if not c['context']:
        del d['context']
      i = numbers(ctx, d, n, what)
      parts.append(i)
      if c['augment']:
        # The images of a row differ in their angle.
        angles = np.round(np.arctan2(*d['position'].T[::-1]), 3)
        count = collections.Counter(i)
        if what == 'training':
          kinds = collections.Counter(zip(i, angles.tolist()))
          ctx.check(
              all(k % 6 == 0 for k in count.values())
              and all(
                  len({a for j, a in kinds if j == r}) == 6
                  and len({v for (j, _), v in kinds.items() if j == r}) == 1
                  for r in count
              ),
              f'{what}: images are missing',
          )
    a, b = parts
    sizes.append(len(b))
    seen.append(sorted(a))
    copies = 6 if c['augment'] else 1
    if c['way'] == 'all':
      ctx.check(
          sorted(a) == sorted(list(range(n)) * copies)
          and sorted(b) == sorted(a),
          'not all rows are used',
      )
    else:
      ctx.check(not set(a) & set(b), f'rows {set(a) & set(b)} are in both parts')
      if c['way'] == 'split':
        ctx.check(
            len(a) == copies * (n - int(n * c['fraction']))
            and len(b) == copies * int(n * c['fraction']),
            f"{len(a)} and {len(b)} rows, {c['fraction']} of {n} for tests",
        )
      else:
        ctx.check(len(a) == n * copies, f'{len(a)} rows, {n * copies} expected')
  if c['way'] == 'bootstrap' and c['splits'] > 1 and n >= 12:
    ctx.check(
        any(x != seen[0] for x in seen[1:]), 'all splits draw the same rows'
    )
  ctx.nontrivial(c['way'] != 'all' and min(sizes) > 0)
  ctx.label(c['way'])
  ctx.label('context' if c['context'] else 'no context')


PARTS = [
    Part('rows', rows_case, check_rows, 90, 5000),
    Part('fair', fair_case, check_fair, 2, 40),
    Part('splits', splits_case, check_splits, 40, 1000),
]

ASSUMPTIONS = ['testing shares are below 1']
