"""P24: learned rates: loss, training, prediction, saving and drawing."""

import contextlib
import io
import math
import os
import tempfile

from hypothesis import strategies as st
import jax
from jax import numpy as jnp
from ml_collections import config_dict
import numpy as np
from pdv import gen
from pdv import lattice
from pdv.core import Part
from putting_dune import microscope_utils as mu
from putting_dune.rate_learning import learn_rates

PROPERTY = 'P24'
RULE = (
    'Batches of network outputs with generated outcomes; predictors of'
    ' generated shape, trained or not, asked about silicon in turned sheets,'
    ' saved, loaded, trained again and distilled; data sets in which the beam'
    ' position decides the outcome. Non-trivial: outcomes with and without a'
    ' transition (or: the nearest neighbor of the beam is not the first one'
    ' asked for).'
)


# The loss.


@st.composite
def loss_case(draw):
  n = draw(st.one_of(st.integers(1, 12), st.integers(13, 60)))
  s = draw(st.sampled_from([3, 3, 2, 4]))
  return {
      'outputs': [
          [draw(gen.real(0.0, 6.0)) for _ in range(s)]
          + [draw(st.one_of(gen.real(0.001, 3.0), gen.real(3.0, 20.0)))]
          for _ in range(n)
      ],
      'state': [draw(st.integers(0, s)) for _ in range(n)],
      'dt': [draw(gen.real(0.01, 20.0)) for _ in range(n)],
      'column': draw(st.booleans()),
      'weights': [draw(gen.real(0.0, 2.0)), draw(gen.real(0.0, 2.0))],
      'training': draw(st.booleans()),
  }


def reference_loss(shares, total, state, dt):
  """Rate loss and class loss of every row, from numpy."""
  still = np.minimum(np.exp(-total * dt), 1 - 1e-6)
  rate = np.where(state > 0, -np.log(1 - still), total * dt)
  rows = np.arange(len(state))
  label = np.where(state > 0, -np.log(shares[rows, state - 1]), 0.0)
  return rate, label


def check_loss(c, ctx):
  outputs = np.array(c['outputs'], np.float32)
  state, dt = np.array(c['state']), np.array(c['dt'], np.float32)
  e = np.exp(outputs[:, :-1].astype(float))
  shares = e / e.sum(axis=1, keepdims=True)
  total = outputs[:, -1].astype(float)
  shape = (-1, 1) if c['column'] else (-1,)
  seen = []

  def network(params, net_state, key, x, training):
    del key
    seen.append((net_state, bool(training)))
    return x * params, {'n': net_state['n'] + 1}

  loss, (net_state, rates, rate_loss, class_loss) = learn_rates.batched_loss_fn(
      jnp.float32(1.0),
      {'n': 4},
      network,
      jnp.asarray(state.reshape(shape)),
      jnp.asarray(dt.reshape(shape)),
      jnp.asarray(state.reshape(shape) != 0),
      jnp.asarray(outputs),
      jax.random.PRNGKey(0),
      c['training'],
      *c['weights'],
  )
  want_rate, want_class = reference_loss(shares, total, state, dt.astype(float))
  ctx.check(int(net_state['n']) == 5, 'state of the network is not passed on')
  ctx.check(
      all(t == c['training'] for _, t in seen), 'training flag is not passed on'
  )
  tol = dict(rtol=3e-3, atol=2e-4)
  ctx.close(rate_loss, want_rate, 'loss of the total rate', **tol)
  ctx.close(class_loss, want_class, 'loss of the outcome', **tol)
  want = want_class * c['weights'][0] + want_rate * c['weights'][1]
  ctx.close(loss, want.mean(), 'loss', **tol)
  ctx.close(rates, shares * total[:, None], 'rates', rtol=1e-4, atol=1e-5)
  ctx.nontrivial(0 < np.count_nonzero(state) < len(state))
  ctx.label('columns' if c['column'] else 'rows')


# Predictors.


@st.composite
def config_case(draw, models=(1, 2, 3), data=False):
  del data
  return {
      'batch_size': draw(st.sampled_from([4, 16, 256])),
      'epochs': draw(st.integers(1, 4)),
      'num_models': draw(st.sampled_from(models)),
      'hidden_dimensions': draw(st.sampled_from([[8], [8, 4]])),
      'weight_decay': 1e-3,
      'learning_rate': draw(st.sampled_from([0.01, 0.1])),
      'val_frac': draw(st.sampled_from([0.0, 0.3])),
      'use_voltage': draw(st.booleans()),
      'use_current': draw(st.booleans()),
      'class_loss_weight': draw(st.sampled_from([0.1, 1.0])),
      'rate_loss_weight': 1.0,
      'augment_data': draw(st.booleans()),
      'batchnorm': draw(st.sampled_from([True, True, False])),
      'dropout_rate': draw(st.sampled_from([0.0, 0.3])),
      'bootstrap': True,
      'dwell_time_in_context': False,
  }


@st.composite
def site_spec(draw):
  return {
      'sheet': draw(lattice.sheet()),
      'order': draw(st.permutations([0, 1, 2])),
      'beam': [draw(gen.real(0.05, 4.0)), draw(gen.real(-math.pi, math.pi))],
      'kv': draw(gen.real(20.0, 300.0)),
      'na': draw(gen.real(0.01, 3.0)),
      'turn': draw(gen.real(-math.pi, math.pi)),
  }


@st.composite
def predictor_case(draw):
  return {
      'config': draw(config_case()),
      'seed': draw(gen.seeds()),
      'sites': [draw(site_spec()) for _ in range(4)],
      'first': draw(st.sampled_from(['nothing', 'nothing', 'predict'])),
      'train': draw(st.sampled_from(['no', 'bootstrap', 'split', 'split'])),
      'rows': draw(st.integers(4, 24)),
      'distill': draw(st.booleans()),
      'save': draw(st.sampled_from(['no', 'whole', 'whole', 'fixed', 'fixed'])),
      'step': draw(st.integers(0, 3)),
      'load config': draw(st.booleans()),
  }


def make_predictor(config, seed):
  return learn_rates.LearnedTransitionRatePredictor(
      init_key=jax.random.PRNGKey(seed),
      config=config_dict.FrozenConfigDict(config),
  )


def make_data(config, rows, seed):
  rng = np.random.default_rng(seed)
  width = config['use_voltage'] + config['use_current']
  data = {
      'next_state': rng.integers(0, 4, rows),
      'dt': rng.uniform(0.1, 3.0, rows).astype(np.float32),
      'rates': np.zeros((rows, 3), np.float32),
      'position': rng.normal(size=(rows, 2)).astype(np.float32),
  }
  if width:
    data['context'] = rng.normal(size=(rows, width)).astype(np.float32)
  return {k: jnp.asarray(v) for k, v in data.items()}


def features(data):
  parts = [data['context']] if 'context' in data else []
  return np.concatenate([np.asarray(p) for p in parts + [data['position']]], -1)


def site(s):
  """Positions, silicon, neighbors, beam: and the canonical beam and order."""
  p, z = lattice.build(s['sheet'])
  home = int(np.flatnonzero(z == 14)[0])
  neighbors = lattice.neighbors3(p, home)[list(s['order'])]
  beam = p[home] + s['beam'][0] * np.array(
      [math.cos(s['beam'][1]), math.sin(s['beam'][1])]
  )
  ring = p[neighbors] - p[home]
  d = np.hypot(*(p[neighbors] - beam).T)
  first = int(np.argmin(d))
  turns = np.arctan2(ring[:, 1], ring[:, 0])
  turns = (turns - turns[first]) % (2 * math.pi)
  turns[first] = 0.0
  places = np.argsort(np.argsort(turns))
  a = s['beam'][1] - math.atan2(*ring[first][::-1])
  canonical = s['beam'][0] * np.array([math.cos(a), math.sin(a)])
  gap = float(np.sort(d)[1] - np.sort(d)[0])
  return p, z, home, neighbors, beam, canonical, places, gap


def ask(predictor, s, p=None, beam=None):
  """What the predictor says of a site, as the rate function would ask it."""
  p0, z, home, neighbors, beam0, *_ = site(s)
  p = p0 if p is None else p
  beam = beam0 if beam is None else beam
  return np.asarray(
      predictor.predict(
          mu.AtomicGrid(p, z),
          gen.make_point(beam),
          p[home],
          neighbors,
          voltage_kv=s['kv'],
          current_na=s['na'],
      )
  )


def inputs(config, s):
  canonical = site(s)[5]
  return np.array(
      [[s['na']]] * config['use_current'] + [[s['kv']]] * config['use_voltage']
      + [[v] for v in canonical],
      np.float32,
  ).T


def compare(ctx, config, predictor, applied, sites, what, fixed=None):
  """Predictions are the rates of the networks at the canonical beam."""
  for s in sites:
    if fixed is not None:
      s = dict(s)
      for k, v in zip(
          ['na'] * config['use_current'] + ['kv'] * config['use_voltage'], fixed
      ):
        s[k] = float(v)
    *_, places, gap = site(s)
    if gap < 1e-4:
      continue
    want = np.asarray(applied(inputs(config, s)))
    ctx.check(want.shape == (1, 3), f'{what}: rates of shape {want.shape}')
    want = want[0][places]
    # With a fixed context, whatever is passed has no influence.
    asked = dict(s, na=s['na'] * 2, kv=s['kv'] * 2) if fixed is not None else s
    got = ask(predictor, asked)
    ctx.check(got.shape == (3,), f'{what}: predicted {got.shape} rates')
    ctx.close(
        got, want, f'{what}: predicted rates', rtol=2e-3,
        atol=1e-4 * (float(np.abs(want).max()) + 1e-3),
    )


def check_predictor(c, ctx):
  config, sites = c['config'], c['sites']
  predictor = make_predictor(config, c['seed'])
  if c['first'] == 'predict':
    compare(ctx, config, predictor, predictor.apply_model, sites[:1], 'new')
  data = make_data(config, c['rows'], c['seed'] // 3)
  x = features(data)
  if c['train'] != 'no':
    metrics = predictor.train(
        data, jax.random.PRNGKey(c['seed'] // 2),
        bootstrap=c['train'] == 'bootstrap',
    )
    for k, v in metrics.items():
      ctx.check(
          np.shape(v) == (config['num_models'], config['epochs']),
          f'{k}: {np.shape(v)} for {config["num_models"]} models and'
          f' {config["epochs"]} epochs',
      )
    if c['train'] == 'split' and not config['augment_data']:
      final_losses(c, ctx, predictor, data, metrics)
  # The ensemble.
  singles = [
      np.asarray(predictor.apply_model(x, model_index=i))
      for i in range(config['num_models'])
  ]
  whole = np.asarray(predictor.apply_model(x))
  scale = float(np.abs(whole).max())
  ctx.check(whole.shape == (c['rows'], 3), f'rates of shape {whole.shape}')
  ctx.check(
      np.all(np.isfinite(whole)) and np.all(whole >= 0), 'rates below zero'
  )
  ctx.close(
      whole, np.mean(singles, axis=0), 'rates of the ensemble', rtol=1e-3,
      atol=1e-4 * scale,
  )
  if config['num_models'] > 1:
    ctx.check(
        not np.allclose(singles[0], singles[1], rtol=1e-3),
        'the models of the ensemble are all the same',
    )
  ctx.close(
      predictor.apply_model(x[:1], key=jax.random.PRNGKey(c['seed'] // 7)),
      whole[:1], 'rates of one row alone, with another key', rtol=1e-3,
      atol=1e-4 * scale,
  )
  compare(ctx, config, predictor, predictor.apply_model, sites, 'in memory')
  # Turning sheet and beam changes nothing.
  s = sites[0]
  p, z, home, neighbors, beam, _, _, gap = site(s)
  if gap > 1e-4:
    co, si = math.cos(s['turn']), math.sin(s['turn'])
    m = np.array([[co, si], [-si, co]])
    base = ask(predictor, s)
    ctx.close(
        ask(predictor, s, p @ m, beam @ m), base, 'rates of a turned sheet',
        rtol=2e-3, atol=1e-4 * (float(base.max()) + 1e-3),
    )
  if c['distill']:
    predictor.distill(
        data,
        config=config_dict.FrozenConfigDict(
            {'batch_size': 16, 'epochs': 2, 'batches_per_epoch': 2}
        ),
    )
    compare(
        ctx, config, predictor, predictor.apply_model, sites[:2], 'distilled'
    )
  if c['save'] != 'no':
    width = config['use_current'] + config['use_voltage']
    fixed = None
    if c['save'] == 'fixed' and width:
      fixed = np.array([0.7, 45.0][:width], np.float32)
      if width == 1 and config['use_voltage']:
        fixed = np.array([45.0], np.float32)
    before = np.asarray(predictor.apply_model(x))
    other = make_predictor(config, c['seed'] // 2 + 1)
    with tempfile.TemporaryDirectory(prefix='pdv_p24_') as folder:
      folder = os.path.join(folder, 'model')
      predictor.save(folder, step=c['step'], fixed_context=fixed)
      other.load(
          folder, step=c['step'], load_params=True, load_config=c['load config']
      )
      compare(
          ctx, config, other, other.apply_model, sites, 'loaded', fixed
      )
    for who, what in ((predictor, 'after saving'), (other, 'after loading')):
      ctx.close(
          who.apply_model(x), before, f'rates {what}', rtol=1e-3,
          atol=1e-4 * scale,
      )
  ctx.nontrivial(any(site(s)[6][0] != 0 for s in sites))
  ctx.label(f"training: {c['train']}")
  ctx.label(f"saved: {c['save']}")
  ctx.label('distilled' if c['distill'] else 'not distilled')


# Metrics.


@st.composite
def metrics_case(draw):
  config = draw(config_case(models=(1, 2)))
  config['augment_data'] = False
  return {
      'config': config,
      'rows': draw(st.integers(5, 24)),
      'seed': draw(gen.seeds()),
  }


def check_metrics(c, ctx):
  config = c['config']
  predictor = make_predictor(config, c['seed'])
  data = make_data(config, c['rows'], c['seed'] // 3)
  metrics = predictor.train(
      data, jax.random.PRNGKey(c['seed'] // 2), bootstrap=False
  )
  held = final_losses(c, ctx, predictor, data, metrics)
  ctx.nontrivial(held > 0)
  ctx.label('held out' if held else 'all')


def final_losses(c, ctx, predictor, data, metrics):
  """The final losses are those of the final networks on all of the data."""
  config = c['config']
  x = features(data)
  held = int(c['rows'] * config['val_frac'])
  for i in range(config['num_models']):
    rates = np.asarray(predictor.apply_model(x, model_index=i), dtype=float)
    total = rates.sum(axis=1)
    both = reference_loss(
        rates / total[:, None],
        total,
        np.asarray(data['next_state']),
        np.asarray(data['dt'], dtype=float),
    )
    last = {k: float(np.asarray(v)[i, -1]) for k, v in metrics.items()}
    for name, want in zip(
        ('rate_loss', 'class_loss', 'loss'), (*both, both[0] + both[1])
    ):
      train, test = last[f'train_{name}'], last[f'test_{name}']
      tol = dict(rtol=1e-2, atol=2e-3)
      if held:
        ctx.close(
            (train * (c['rows'] - held) + test * held) / c['rows'],
            want.mean(), f'final {name} of model {i} on both parts', **tol,
        )
        # Some rows of that number have this loss.
        rows = np.sort(want)
        ctx.check(
            rows[:held].mean() - 0.01 - 0.01 * rows.max() <= test
            <= rows[-held:].mean() + 0.01 + 0.01 * rows.max(),
            f'test {name} {test} of {held} of the rows {rows.tolist()}',
        )
      else:
        ctx.close(train, want.mean(), f'final {name} of model {i}', **tol)
        ctx.close(test, want.mean(), f'final test {name} of model {i}', **tol)
  return held


# Learning.


@st.composite
def learn_case(draw):
  return {
      'order': draw(st.permutations([1, 2, 3])),
      'rows': draw(st.sampled_from([90, 150])),
      'models': draw(st.sampled_from([1, 2])),
      'seed': draw(gen.seeds()),
      'column': draw(st.booleans()),
      'batchnorm': draw(st.booleans()),
      'rate': draw(st.sampled_from([0.1, 0.6])),
  }


def check_learn(c, ctx):
  rng = np.random.default_rng(c['seed'])
  n = c['rows']
  where = rng.integers(0, 3, n)
  angle = 2 * math.pi * where / 3 + rng.normal(size=n) * 0.15
  position = np.stack([np.cos(angle), np.sin(angle)], axis=1) * 1.4
  position += rng.normal(size=(n, 2)) * 0.1
  dt = rng.uniform(0.5, 2.0, n)
  # A fixed share moves at this rate; none of it left to chance.
  moves = (np.arange(n) % 20) / 20 + 0.025 < 1 - np.exp(-c['rate'] * dt)
  state = np.where(moves, np.array(c['order'])[where], 0)
  shape = (-1, 1) if c['column'] else (-1,)
  data = {
      'next_state': jnp.asarray(state.reshape(shape)),
      'dt': jnp.asarray(dt.reshape(shape), jnp.float32),
      'rates': jnp.zeros((n, 3)),
      'position': jnp.asarray(position, jnp.float32),
      'context': jnp.asarray(rng.uniform(size=(n, 2)), jnp.float32),
  }
  config = {
      'batch_size': 32,
      'epochs': 150,
      'num_models': c['models'],
      'hidden_dimensions': [16, 16],
      'weight_decay': 1e-4,
      'learning_rate': 5e-3,
      'val_frac': 0.0,
      'use_voltage': True,
      'use_current': True,
      'class_loss_weight': 1.0,
      'rate_loss_weight': 1.0,
      'augment_data': False,
      'batchnorm': c['batchnorm'],
      'dropout_rate': 0.0,
  }
  predictor = make_predictor(config, c['seed'] // 2)
  metrics = predictor.train(
      data, jax.random.PRNGKey(c['seed'] // 3), bootstrap=False
  )
  loss = np.asarray(metrics['train_loss'])
  ctx.check(
      bool(np.all(loss[:, -1] < loss[:, 0])),
      f'training took the loss from {loss[:, 0]} to {loss[:, -1]}',
  )
  corners = np.array(
      [[math.cos(a), math.sin(a)] for a in 2 * math.pi * np.arange(3) / 3]
  ) * 1.4
  x = np.concatenate([np.full((3, 2), 0.5), corners], axis=1).astype(np.float32)
  rates = np.asarray(predictor.apply_model(x))
  best = rates.argmax(axis=1) + 1
  ctx.check(
      best.tolist() == list(c['order']),
      f"the beam at the corners moved silicon to {list(c['order'])}, learned"
      f' {best.tolist()}: {rates.tolist()}',
  )
  # Maximum likelihood: expected transitions match those seen.
  everywhere = np.asarray(predictor.apply_model(features(data))).sum(axis=1)
  expected = float((1 - np.exp(-everywhere * dt)).mean())
  seen = float(moves.mean())
  ctx.check(
      abs(expected - seen) < 0.12,
      f'{seen:.3f} of the rows move, the learned rates make it {expected:.3f}',
  )
  ctx.nontrivial(list(c['order']) != [1, 2, 3])
  ctx.label('columns' if c['column'] else 'rows')


@st.composite
def dwell_case(draw):
  return {
      'pairs': draw(st.permutations([[0.1, 3.0], [3.0, 0.1], [1.0, 1.0]])),
      'rows': draw(st.sampled_from([96, 144])),
      'batch': draw(st.sampled_from([16, 24, 48])),
      'seed': draw(gen.seeds()),
      'column': draw(st.booleans()),
  }


def check_dwell(c, ctx):
  """Each row is learned with its own time, wherever the rows are shuffled to."""
  rng = np.random.default_rng(c['seed'])
  n = c['rows']
  order = rng.permutation(n)
  where = (np.arange(n) % 3)[order]
  moves = (np.arange(n) // 3 % 2 == 0)[order]
  angle = 2 * math.pi * where / 3
  position = np.stack([np.cos(angle), np.sin(angle)], axis=1) * 1.4
  times = np.array(c['pairs'])
  dt = times[where, np.where(moves, 0, 1)]
  shape = (-1, 1) if c['column'] else (-1,)
  data = {
      'next_state': jnp.asarray(np.where(moves, where + 1, 0).reshape(shape)),
      'dt': jnp.asarray(dt.reshape(shape), jnp.float32),
      'rates': jnp.zeros((n, 3)),
      'position': jnp.asarray(position, jnp.float32),
      'context': jnp.zeros((n, 2), jnp.float32),
  }
  config = {
      'batch_size': c['batch'],
      'epochs': 150,
      'num_models': 1,
      'hidden_dimensions': [16, 16],
      'weight_decay': 0.0,
      'learning_rate': 5e-3,
      'val_frac': 0.0,
      'use_voltage': True,
      'use_current': True,
      'class_loss_weight': 1.0,
      'rate_loss_weight': 1.0,
      'augment_data': False,
      'batchnorm': False,
      'dropout_rate': 0.0,
  }
  predictor = make_predictor(config, c['seed'] // 2)
  predictor.train(data, jax.random.PRNGKey(c['seed'] // 3), bootstrap=False)
  angle = 2 * math.pi * np.arange(3) / 3
  corners = np.stack([np.cos(angle), np.sin(angle)], axis=1) * 1.4
  x = np.concatenate([np.zeros((3, 2)), corners], axis=1).astype(np.float32)
  rates = np.asarray(predictor.apply_model(x)).sum(axis=1)
  # Maximum likelihood if as many move after t1 as stay for t2.
  t1, t2 = times.T
  want = np.log(1 + t1 / t2) / t1
  off = np.abs(np.log(rates / want))
  ctx.check(
      bool(np.all(off < math.log(1.35))),
      f'rates {rates} at the corners, most likely are {want}',
  )
  ctx.nontrivial(True)
  ctx.label('columns' if c['column'] else 'rows')
  ctx.label(f'off {int(np.max(off) * 20) / 20}')


@st.composite
def distill_case(draw):
  return {
      'models': draw(st.sampled_from([1, 3])),
      'seed': draw(gen.seeds()),
      'batchnorm': draw(st.sampled_from([True, True, False])),
      'context': draw(st.sampled_from([True, True, False])),
  }


def check_distill(c, ctx):
  config = {
      'batch_size': 64,
      'epochs': 30,
      'num_models': c['models'],
      'hidden_dimensions': [16, 16],
      'weight_decay': 1e-4,
      'learning_rate': 5e-3,
      'val_frac': 0.0,
      'use_voltage': c['context'],
      'use_current': c['context'],
      'class_loss_weight': 1.0,
      'rate_loss_weight': 1.0,
      'augment_data': False,
      'batchnorm': c['batchnorm'],
      'dropout_rate': 0.0,
  }
  data = make_data(config, 120, c['seed'])
  # The outcome depends on where the beam is.
  p = np.asarray(data['position'])
  data['next_state'] = jnp.asarray(
      np.where(p[:, 0] > 0.3, 1, np.where(p[:, 1] > 0, 2, 0))
  )
  predictor = make_predictor(config, c['seed'] // 2)
  predictor.train(data, jax.random.PRNGKey(c['seed'] // 3), bootstrap=True)
  # Distilled where it is asked to, not only where it was trained.
  rng = np.random.default_rng(c['seed'] // 5)
  width = 4 if c['context'] else 2
  mean = rng.uniform(2.0, 3.5, width) * rng.choice([-1, 1], width)
  scale = rng.uniform(0.3, 1.0, width)
  x = rng.normal(size=(400, width)) * scale + mean
  x = x.astype(np.float32)
  data = dict(make_data(config, 400, 0), position=jnp.asarray(x[:, -2:]))
  if c['context']:
    data['context'] = jnp.asarray(x[:, :-2])
  before = np.asarray(predictor.apply_model(x))
  metrics = predictor.distill(
      data,
      config=config_dict.FrozenConfigDict(
          {'batch_size': 128, 'epochs': 40, 'batches_per_epoch': 10}
      ),
  )
  loss = np.asarray(metrics['distill_loss'])
  ctx.check(loss.shape == (40,), f'losses of shape {loss.shape}')
  ctx.check(
      loss[-5:].mean() < 0.6 * loss[0],
      f'distilling took the loss from {loss[0]} to {loss[-5:].mean()}',
  )
  after = np.asarray(predictor.apply_model(x))
  error = float(((after - before) ** 2).sum(axis=1).mean())
  spread = float(((before - before.mean(axis=0)) ** 2).sum(axis=1).mean())
  ctx.check(
      error < 0.4 * spread,
      f'the distilled network is off by {error}; the ensemble varies by'
      f' {spread}',
  )
  ctx.nontrivial(c['models'] > 1)
  ctx.label(f"error/spread {error / spread:.2f}")


@st.composite
def target_case(draw):
  n = draw(st.integers(2, 4))
  return {
      'mean': [draw(gen.real(-3, 3)) for _ in range(n)],
      'scale': [draw(gen.real(0.1, 2)) for _ in range(n)],
      'teachers': draw(st.lists(gen.real(-2, 2), min_size=1, max_size=3)),
      'student': draw(gen.real(-2, 2)),
      'seed': draw(gen.seeds()),
  }


def check_target(c, ctx):
  """Totals are p x0 for teachers and q x1 for the student, shared equally."""

  def network(params, state, key, x, training):
    del key
    # Only the student is in training.
    total = params['p'] * x[:, 0] * (3 if training else 1)
    total += params['q'] * x[:, 1] * (1 if training else 3)
    return (
        jnp.concatenate([jnp.zeros((x.shape[0], 3)), total[:, None]], axis=1),
        {'n': state['n'] + 1},
    )

  k = len(c['teachers'])
  size = 20000
  loss, state = learn_rates.distill_loss(
      {'p': jnp.float32(0), 'q': jnp.float32(c['student'])},
      {'n': jnp.int32(3)},
      {'p': jnp.asarray(c['teachers'], jnp.float32), 'q': jnp.zeros(k)},
      {'n': jnp.zeros(k, jnp.int32)},
      jax.random.PRNGKey(c['seed']),
      size,
      network,
      jnp.asarray(c['mean'], jnp.float32),
      jnp.asarray(c['scale'], jnp.float32),
  )
  ctx.check(int(state['n']) == 4, 'state of the student is not passed on')
  # The difference is normal, and three shares of it are squared.
  p, q = float(np.mean(c['teachers'])), c['student']
  m = q * c['mean'][1] - p * c['mean'][0]
  v = (q * c['scale'][1]) ** 2 + (p * c['scale'][0]) ** 2
  want = (m * m + v) / 3
  sigma = math.sqrt((2 * v * v + 4 * m * m * v) / size) / 3
  ctx.check(
      abs(float(loss) - want) < 6 * sigma + 1e-4 * want + 1e-6,
      f'loss {float(loss)}, expected {want} +- {sigma}',
  )
  ctx.nontrivial(k > 1 and v > 0 and abs(m) > 0.1)


# Drawing.


@st.composite
def draw_case(draw):
  return {
      'points': draw(st.one_of(st.integers(9, 200), st.sampled_from([9, 100]))),
      'range': draw(gen.real(0.5, 10.0)),
      'context': draw(st.one_of(st.none(), st.lists(gen.real(-5, 5), min_size=1, max_size=3))),
      'peaks': [draw(gen.xy(-1, 1)) for _ in range(3)],
      'height': [draw(gen.real(0.1, 3.0)) for _ in range(3)],
      'file': draw(st.booleans()),
  }


def check_draw(c, ctx):
  import matplotlib.pyplot as plt  # pylint: disable=g-import-not-at-top

  asked = []

  def rates(x):
    asked.append(np.asarray(x))
    p = np.asarray(x)[:, -2:]
    return np.stack(
        [
            h * np.exp(-((p - np.array(m) * c['range']) ** 2).sum(axis=1) / 9)
            for m, h in zip(c['peaks'], c['height'])
        ],
        axis=1,
    )

  context = None if c['context'] is None else np.array(c['context'])
  with tempfile.TemporaryDirectory(prefix='pdv_p24_') as folder:
    path = os.path.join(folder, 'x.png') if c['file'] else None
    try:
      with contextlib.redirect_stdout(io.StringIO()):
        figure, most = learn_rates.visualize_rates(
            path, rates, grid_range=c['range'], num_points=c['points'],
            fixed_context=context,
        )
      ctx.check(figure is not None, 'no figure')
    finally:
      plt.close('all')
    if c['file']:
      ctx.check(os.path.getsize(path) > 0, 'no picture')
  x = np.concatenate(asked)
  side = math.isqrt(c['points'])
  width = len(c['context'] or [])
  ctx.check(
      x.shape == (side * side, 2 + width),
      f"asked for {x.shape}, {c['points']} points with {width} more inputs",
  )
  if width:
    ctx.close(x[:, :width], np.tile(context, (len(x), 1)), 'fixed inputs')
  line = np.linspace(-c['range'], c['range'], side)
  want = {(round(a, 6), round(b, 6)) for a in line for b in line}
  got = {(round(float(a), 6), round(float(b), 6)) for a, b in x[:, -2:]}
  ctx.check(got == want, 'points do not cover the range')
  asked_x = x
  asked.clear()
  ctx.close(most, rates(asked_x).max(axis=0), 'greatest rates')
  ctx.nontrivial(width > 0 and side * side != c['points'])


PARTS = [
    Part('loss', loss_case, check_loss, 150, 5000),
    Part('predictor', predictor_case, check_predictor, 10, 200),
    Part('metrics', metrics_case, check_metrics, 5, 100),
    Part('learn', learn_case, check_learn, 4, 60),
    Part('dwell', dwell_case, check_dwell, 4, 60),
    Part('distill', distill_case, check_distill, 2, 30),
    Part('target', target_case, check_target, 15, 300),
    Part('draw', draw_case, check_draw, 15, 200),
]

ASSUMPTIONS = [
    'beams equally close to two neighbors are not judged',
    'networks of up to two hidden layers of 16 units',
]
