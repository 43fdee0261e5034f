"""P25: from recorded trajectories to saved models that predict rates."""

import contextlib
import datetime as dt
import io
import math
import os
import tempfile

from etils import epath
from hypothesis import strategies as st
import jax
import joblib
from ml_collections import config_dict
import numpy as np
from pdv import gen
from pdv import lattice
from pdv.checks import p23
from pdv.core import Part
from putting_dune import io as pd_io
from putting_dune import microscope_utils as mu
from putting_dune.pipeline import train_rate_learner
from putting_dune.rate_learning import learn_rates

PROPERTY = 'P25'
RULE = (
    'Classifiers of every kind on data sets in which generated inputs decide'
    ' the outcome; and whole runs of the training program on recorded'
    ' trajectories in which the silicon follows (or avoids) the beam, with'
    ' every learner, whose saved models are loaded and asked about other'
    ' sheets. Non-trivial: at least two outcomes are in the data.'
)

SKLEARN = ['random_forest', 'svm', 'knn', 'gp', 'sklearn_mlp']


# Classifiers.


@st.composite
def classifier_case(draw):
  return {
      'kind': draw(st.sampled_from(SKLEARN)),
      'enum': draw(st.booleans()),
      'states': draw(
          st.sampled_from([[0, 1, 2, 3], [1, 2, 3], [0, 2], [1, 3], [0, 1, 3]])
      ),
      'rows': draw(st.integers(30, 70)),
      'wrong': draw(st.integers(0, 5)),
      'width': draw(st.integers(2, 5)),
      'scale': draw(st.sampled_from([1.0, 0.01, 100.0])),
      'shift': draw(gen.real(-50, 50)),
      'seed': draw(gen.seeds()),
      'invalid': draw(st.sampled_from(['', 'rate_network', 'tree', 'KNN '])),
  }


def make_classifier(kind, c):
  config = config_dict.FrozenConfigDict(
      {'weight_decay': 1e-3, 'epochs': 300, 'learning_rate': 0.01}
  )
  extra = {} if kind == 'knn' else {'random_state': c['seed'] % 1000}
  return train_rate_learner.get_sklearn_classifier(
      train_rate_learner.LearnerType(kind) if c['enum'] else kind,
      config,
      **extra,
  )


def check_classifier(c, ctx):
  rng = np.random.default_rng(c['seed'])
  states = np.array(c['states'])
  centres = rng.permutation(4)[: len(states)]
  corner = np.array([[1, 1], [1, -1], [-1, 1], [-1, -1]])[centres] * 3.0

  def rows(n):
    which = rng.permutation(np.arange(n) % len(states))
    x = rng.normal(size=(n, c['width'])) * 0.4
    x[:, :2] += corner[which]
    return x * c['scale'] + c['shift'], states[which]

  x, y = rows(max(c['rows'], 30 * len(states)))
  test_x, test_y = rows(21)
  wrong = min(c['wrong'], len(test_y))
  # Some of the test labels are made wrong.
  marked = test_y.copy()
  marked[:wrong] = np.roll(states, 1)[
      np.searchsorted(states, test_y[:wrong])
  ]
  model = make_classifier(c['kind'], c)
  model, train, test = train_rate_learner.train_sklearn_classifier(
      model,
      {'context': x, 'next_state': y},
      {'context': test_x, 'next_state': marked},
  )
  got = np.asarray(model.predict(test_x))
  ctx.check(
      (got == test_y).mean() > 0.85,
      f"{c['kind']} predicts {got.tolist()} for {test_y.tolist()}",
  )
  ctx.close(
      test, (got == marked).mean(), 'accuracy on the test data', atol=1e-9
  )
  ctx.close(
      train, (np.asarray(model.predict(x)) == y).mean(),
      'accuracy on the training data', atol=1e-9,
  )
  # The units of the inputs do not matter.
  other, _, _ = train_rate_learner.train_sklearn_classifier(
      make_classifier(c['kind'], c),
      {'context': x * 7 - 3, 'next_state': y},
      {'context': test_x * 7 - 3, 'next_state': marked},
  )
  ctx.check(
      (np.asarray(other.predict(test_x * 7 - 3)) == got).mean() > 0.85,
      'other units, other predictions',
  )
  # Probabilities, as an ensemble makes rates of them.
  chance = np.asarray(model.predict_proba(test_x))
  ctx.check(
      chance.shape == (len(test_x), len(states))
      and np.allclose(chance.sum(axis=1), 1)
      and chance.min() >= 0,
      'probabilities of the states',
  )
  try:
    train_rate_learner.get_sklearn_classifier(
        c['invalid'], config_dict.FrozenConfigDict({})
    )
    ctx.check(False, f"learner {c['invalid']!r} was accepted")
  except ValueError:
    pass
  ctx.nontrivial(True)
  ctx.label(c['kind'])


# Whole runs.


@st.composite
def run_case(draw, learners):
  return {
      'learner': draw(learners),
      'rule': draw(st.sampled_from(['nearest', 'nearest', 'farthest'])),
      'rows': draw(st.sampled_from([36, 48])),
      'models': draw(st.sampled_from([1, 2])),
      'bootstrap': draw(st.booleans()),
      'augment': draw(st.sampled_from([True, True, False])),
      'voltage': draw(st.booleans()),
      'current': draw(st.booleans()),
      'previous': draw(st.booleans()),
      'directory': draw(st.booleans()),
      'draw': draw(st.sampled_from([False, False, False, True])),
      'stays': draw(st.sampled_from([True, True, False])),
      'seed': draw(gen.seeds()),
  }


def network_case():
  return run_case(
      st.sampled_from(['rate_network', 'classification_network'])
  )


def sklearn_case():
  return run_case(st.sampled_from(['random_forest', 'svm', 'knn', 'sklearn_mlp']))


def make_trajectories(c, rng):
  """One hop (or none) per trajectory; the rule decides where to."""
  trajectories = []
  counts = [0, 0]
  for i in range(c['rows']):
    stay = c['stays'] and i % 6 == 5
    angle, spin = rng.uniform(0, 2 * math.pi, 2)
    lower = rng.uniform(-30, -15, 2)
    s = {
        'kind': 'stay' if stay else 'hop',
        'radius': 6.0,
        'angle': float(angle),
        'shift': rng.uniform(-5, 5, 2).tolist(),
        'mirror': bool(rng.integers(2)),
        'seed': int(rng.integers(2**31)),
        'noise': 0.02,
        'drift': [0.1, float(spin)],
        'beam': [float(rng.uniform(1.0, 1.8)), 0.0],
        'to': 0,
        'before': [*lower.tolist(), 20.0, 25.0],
        'after': [*(lower - 2).tolist(), 22.0, 20.0],
        'dwell': float(rng.uniform(1.0, 2.0)),
        'kv': float(rng.choice([40.0, 60.0, 80.0])),
        'na': float(rng.uniform(0.1, 0.3)),
    }
    # Find the neighbors, then aim at one of them and hop by the rule.
    _, d = p23.build(dict(s, kind='stay'))
    ring = np.asarray(d['sites'][1]) - d['sites'][0]
    aim = int(rng.integers(3))
    if stay:
      # Pointing nowhere near.
      s['beam'][0] = float(rng.uniform(8.0, 10.0))
    offset = float(rng.uniform(0.1, 0.35) * rng.choice([-1, 1]))
    s['beam'][1] = math.atan2(*ring[aim][::-1]) + offset
    if not stay:
      target = 1 if c['rule'] == 'nearest' else None
      for to in range(3):
        _, d = p23.build(dict(s, to=to))
        far = 3 if offset > 0 else 2
        if d['state'] == (target or far):
          s['to'] = to
          break
    t, d = p23.build(s)
    counts[d['state'] > 0] += 1
    late = c['previous']
    trajectories.append(
        mu.Trajectory(
            observations=tuple(
                mu.MicroscopeObservation(
                    grid=g, fov=f, controls=a,
                    elapsed_time=dt.timedelta(seconds=1),
                )
                for g, f, a in (
                    (t.grid_before, t.fov_before, () if late else t.controls),
                    (t.grid_after, t.fov_after, t.controls if late else ()),
                )
            )
        )
    )
  return trajectories, counts


def probes(c, rng):
  """Sites with the beam aimed at a neighbor, and the one to be favoured."""
  out = []
  for _ in range(6):
    spec = {
        'radius': 4.5,
        'angle': float(rng.uniform(0, 2 * math.pi)),
        'shift': rng.uniform(-5, 5, 2).tolist(),
        'si': int(rng.integers(4)),
        'perm': int(rng.integers(1000)),
    }
    p, z = lattice.build(spec)
    home = int(np.flatnonzero(z == 14)[0])
    neighbors = rng.permutation(lattice.neighbors3(p, home))
    ring = p[neighbors] - p[home]
    aim = int(rng.integers(3))
    offset = float(rng.uniform(0.15, 0.3) * rng.choice([-1, 1]))
    angle = math.atan2(*ring[aim][::-1]) + offset
    vector = 1.4 * np.array([math.cos(angle), math.sin(angle)])
    d = np.hypot(*(ring - vector).T)
    favourite = int(d.argmin() if c['rule'] == 'nearest' else d.argmax())
    canonical = 1.4 * np.array([math.cos(offset), math.sin(offset)])
    state = 1 if c['rule'] == 'nearest' else (3 if offset > 0 else 2)
    out.append((p, z, home, neighbors, p[home] + vector, favourite, canonical,
                state))
  return out


def check_drawn(c, ctx, trajectories, drawn, width):
  """Pictures are of the greatest, least and middle context."""
  want = {'max': np.max, 'min': np.min, 'avg': np.median}
  names = {k: f'{k}_context_rates.png' for k in want}
  ctx.check(
      sorted(n for n, _, _ in drawn) == sorted(names.values()),
      f'pictures {[n for n, _, _ in drawn]}',
  )
  controls = [
      a for t in trajectories for o in t.observations for a in o.controls
  ]
  columns = (
      [[a.current_na for a in controls]] * c['current']
      + [[a.voltage_kv for a in controls]] * c['voltage']
      + [[a.dwell_time.total_seconds() for a in controls]]
  )[:width]
  for k, f in want.items():
    got = [fixed for n, _, fixed in drawn if n == names[k]][0]
    if width:
      ctx.close(
          got, [f(v) for v in columns], f'{k} context', rtol=1e-5, atol=1e-5
      )
    else:
      ctx.check(got is None, f'{k} context {got} of nothing')


def check_run(c, ctx):
  import matplotlib.pyplot as plt  # pylint: disable=g-import-not-at-top

  if c['learner'] == 'knn' or not c['stays']:
    # Many neighbors and more than one outcome are needed.
    c = dict(c, augment=True)
  rng = np.random.default_rng(c['seed'])
  trajectories, counts = make_trajectories(c, rng)
  network = c['learner'].endswith('network')
  with tempfile.TemporaryDirectory(prefix='pdv_p25_') as folder:
    folder = epath.Path(folder)
    source = folder / 'data'
    source.mkdir()
    cut = len(trajectories) // 2
    if c['directory']:
      pd_io.write_records(source / 'a.tfrecords', trajectories[:cut])
      pd_io.write_records(source / 'b.tfrecords', trajectories[cut:])
    else:
      pd_io.write_records(source / 'a.tfrecords', trajectories)
      source = source / 'a.tfrecords'
    work = folder / 'work'
    args = train_rate_learner.Args(
        source_path=source,
        workdir=work,
        plot_metrics=c['draw'],
        visualize_rates=c['draw'],
        batch_size=64,
        epochs=150,
        num_models=c['models'],
        bootstrap=c['bootstrap'],
        hidden_dimensions=(16, 16),
        weight_decay=1e-4,
        learning_rate=5e-3,
        distill=False,
        augment_data=c['augment'],
        use_voltage=c['voltage'],
        use_current=c['current'],
        class_loss_weight=1.0,
        previous_controls_at_current_timestep=c['previous'],
        learner_type=c['learner'],
        seed=c['seed'] % 1000,
    )
    drawn = []
    visualize = learn_rates.visualize_rates
    if not c['draw']:
      # Instead of drawing, keep what would be drawn.
      args.visualize_rates = True
      learn_rates.visualize_rates = lambda path, rates, **k: drawn.append(
          (os.path.basename(path), rates, k['fixed_context'])
      )
    try:
      with contextlib.redirect_stdout(io.StringIO()):
        train_rate_learner.main(args)
    finally:
      learn_rates.visualize_rates = visualize
      plt.close('all')
    files = {f.name for f in work.iterdir()}
    if c['draw']:
      pictures = {f'{k}_context_rates.png' for k in ('min', 'max', 'avg')}
      ctx.check(pictures <= files, f'no pictures of the rates in {files}')
    metrics = dict(np.load((work / 'metrics.npz').as_posix()))
    ctx.check(
        bool(metrics) and all(v.size >= c['models'] for v in metrics.values()),
        'metrics of the training',
    )
    wrong = []
    width = c['voltage'] + c['current'] + (c['learner'] != 'rate_network')
    if not c['draw']:
      check_drawn(c, ctx, trajectories, drawn, width)
    if network:
      config = config_dict.FrozenConfigDict({
          'num_models': c['models'],
          'hidden_dimensions': (16, 16),
          'batchnorm': True,
          'dropout_rate': 0.0,
          'use_voltage': c['voltage'],
          'use_current': c['current'],
      })
      predictor = learn_rates.LearnedTransitionRatePredictor(
          init_key=jax.random.PRNGKey(5), config=config
      )
      predictor.load(work.as_posix())
      for p, z, home, neighbors, beam, favourite, canonical, _ in probes(c, rng):
        rates = np.asarray(
            predictor.predict(
                mu.AtomicGrid(p, z), gen.make_point(beam), p[home], neighbors
            )
        )
        ctx.check(
            rates.shape == (3,) and bool(np.all(rates >= 0)), f'rates {rates}'
        )
        # What was saved is what was drawn for the middle context.
        for name, draw, fixed in drawn:
          if name == 'avg_context_rates.png':
            x = np.concatenate([[] if fixed is None else fixed, canonical])
            ctx.close(
                np.sort(rates),
                np.sort(np.asarray(draw(x[None])).reshape(-1)),
                'rates of the saved model for the middle context, sorted',
                rtol=2e-3,
                atol=1e-5,
            )
        wrong.append(int(rates.argmax()) != favourite)
      ctx.check(
          metrics['train_loss'].shape == (c['models'], 150), 'shape of metrics'
      )
    else:
      models = [
          joblib.load((work / f"{c['learner']}_{i}.joblib").as_posix())
          for i in range(c['models'])
      ]
      ensemble = joblib.load((work / f"{c['learner']}_ensemble.joblib").as_posix())
      turned = []
      for *_, canonical, state in probes(c, rng):
        x = np.array(
            [[0.2] * c['current'] + [60.0] * c['voltage'] + [1.5, *canonical]]
        )
        each = [
            dict(zip(np.asarray(m.classes_).tolist(), m.predict_proba(x)[0]))
            for m in models
        ]
        chance = {
            k: float(np.mean([e.get(k, 0.0) for e in each])) for k in range(4)
        }
        for _, rates, _ in drawn:
          ctx.close(
              rates(x), [[chance[k] for k in (1, 2, 3)]], 'rates that are drawn',
              atol=1e-6,
          )
        if len({tuple(e) for e in each}) == 1:
          known = list(each[0])
          ctx.check(
              hasattr(ensemble, 'predict_proba'),
              'the saved ensemble has no probabilities',
          )
          ctx.close(
              ensemble.predict_proba(x)[0], [chance[k] for k in known],
              'probabilities of the saved ensemble', atol=1e-6,
          )
          order = sorted(chance.values())
          if order[-1] - order[-2] > 1e-6:
            ctx.check(
                int(ensemble.predict(x)[0]) == max(chance, key=chance.get),
                f'the saved ensemble predicts {ensemble.predict(x)[0]},'
                f' probabilities are {chance}',
            )
        wrong.append(max((1, 2, 3), key=chance.get) != state)
        # The same by symmetry, which augmented data teach.
        turn = int(rng.integers(1, 3))
        a = turn * 2 * math.pi / 3
        x[0, -2:] = np.array(
            [[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]]
        ) @ canonical
        mean = {
            k: np.mean([
                dict(zip(np.asarray(m.classes_).tolist(),
                         m.predict_proba(x)[0])).get(k, 0.0)
                for m in models
            ])
            for k in (1, 2, 3)
        }
        turned.append(max(mean, key=mean.get) != (state - 1 + turn) % 3 + 1)
      ctx.check(
          not c['augment'] or sum(turned) <= 3,
          f'{sum(turned)} of 6 predictions are lost when the scene is turned,'
          ' although the data were augmented',
      )
  ctx.check(
      sum(wrong) <= 1,
      f"silicon always went to the {c['rule']} neighbor of the beam, but"
      f" {sum(wrong)} of {len(wrong)} predictions of the {c['learner']} favour"
      ' another',
  )
  ctx.nontrivial(min(counts) > 0)
  ctx.label(c['learner'])
  ctx.label(c['rule'])


PARTS = [
    Part('classifier', classifier_case, check_classifier, 24, 500),
    Part('networks', network_case, check_run, 3, 60),
    Part('classifiers', sklearn_case, check_run, 6, 120),
]

ASSUMPTIONS = [
    'distillation in the pipeline is switched off, which takes hours',
    'at least 30 transitions',
]
