"""P28: the training programs learn from, and report on, the data they read."""

import dataclasses
import json
import pathlib
import tempfile
from unittest import mock

from etils import epath
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
from orbax import checkpoint
from pdv import gen
from pdv import trainkit
from pdv.core import Part
from pdv.trainkit import log_softmax
import optax
import tensorflow as tf

from putting_dune.atom_detection import dataset as detection_data  # pylint: disable=g-bad-import-order
from putting_dune.atom_detection import train as detection
from putting_dune.graph_alignment import model as graph_model
from putting_dune.graph_alignment import train as graph
from putting_dune.image_alignment import dataset as alignment_data
from putting_dune.image_alignment import train as alignment

PROPERTY = 'P28'
RULE = (
    'Generated labelled images are put through the preprocessing; generated'
    ' batches through the training and evaluation steps of the three programs'
    ' with a linear model whose losses and gradient are computed separately;'
    ' and whole (tiny) training runs are made, stopped somewhere, and resumed.'
    ' Non-trivial: more than one class, more than one batch, and (runs) the'
    ' run was stopped before its end.'
)
ELEMENTS = np.array([0, 6, 14], dtype=np.uint8)


# ---------------------------------------------------------------------------
# Preprocessing


@st.composite
def data_case(draw):
  return {
      'which': draw(st.sampled_from(['detection', 'alignment'])),
      'n': draw(st.sampled_from([1, 2, 3, 7])),
      'time': draw(st.sampled_from([1, 2, 3, 4, 8])),
      'size': draw(
          st.sampled_from([[8, 8], [8, 12], [16, 16], [5, 7], [30, 8]])
      ),
      'target': draw(st.sampled_from([4, 8, 16])),
      'final': draw(st.booleans()),
      'seed': draw(gen.seeds()),
  }


def source_rows(n_in, n_out):
  """Which input rows an output row may come from (either convention)."""
  i = np.arange(n_out)
  scale = n_in / n_out
  a = np.floor(i * scale).astype(int)
  b = np.floor((i + 0.5) * scale).astype(int)
  return np.stack([a, np.minimum(b, n_in - 1)])


def check_data(c, ctx):
  rng = np.random.default_rng(c['seed'])
  h, w = c['size']
  n, t, out = c['n'], c['time'], c['target']
  # Every pixel of an image is unique, so that its source can be recognised.
  if c['which'] == 'detection':
    image = rng.permutation(n * h * w).reshape(n, h, w, 1).astype(np.float32)
    mask = rng.choice(ELEMENTS, (n, h, w, 1))
    records = {'image': image, 'mask': mask}
    with trainkit.serving('atom_detection', records, records):
      sets = detection_data.make_dataset(
          detection_data.AtomDetectionDatasetConfig(
              data_dir='/nowhere', batch_size=n, image_size=out
          ),
          seed=1,
      )
      batches = [next(s.as_numpy_iterator()) for s in sets]
    images = image[:, None]
    masks = mask[:, None]
  else:
    images = np.stack([
        np.stack([rng.permutation(256)[: h * w].reshape(h, w, 1)] * 1)
        for _ in range(n * t)
    ]).reshape(n, t, h, w, 1).astype(np.uint8)
    masks = rng.choice(ELEMENTS, (n, t, h, w, 1))
    drift = rng.normal(size=(n, t, 2)).astype(np.float32)
    records = {'images': images, 'mask': masks, 'drift': drift}
    with trainkit.serving('image_alignment', records, records):
      sets = alignment_data.make_dataset(
          alignment_data.ImageAlignmentDatasetConfig(
              data_dir='/nowhere',
              batch_size=n,
              image_size=out,
              final_only=c['final'],
          ),
          seed=1,
      )
      batches = [next(s.as_numpy_iterator()) for s in sets]
  rows, cols = source_rows(h, out), source_rows(w, out)
  for batch in batches:
    if c['which'] == 'detection':
      x = np.moveaxis(batch['image'], -1, 1)
      y = batch['mask'][:, None]
      labelled = range(1)
    else:
      x = np.moveaxis(batch['images'], -1, 1)
      y = np.moveaxis(batch['mask'], 3, 1)
      labelled = range(t)[-1:] if c['final'] else range(t)
      ctx.check(
          np.array_equal(batch['drift'], drift[:, -1:] if c['final'] else drift),
          'the drift was changed',
      )
      ctx.check(
          x.min() >= 0 and x.max() <= 1, f'images in [{x.min()}, {x.max()}]'
      )
      x = x * 255
    times = images.shape[1]
    ctx.check(
        x.shape == (n, times, out, out), f'images of shape {x.shape}'
    )
    ctx.check(
        y.shape == (n, len(labelled), out, out, 3), f'labels of shape {y.shape}'
    )
    ctx.check(
        bool(np.all((y == 0) | (y == 1)) and np.all(y.sum(-1) == 1)),
        'labels are not one class per pixel',
    )
    for b in range(n):
      for time in range(times):
        source = images[b, time, ..., 0].astype(float)
        for i in range(out):
          for j in range(out):
            near = np.argwhere(np.abs(source - x[b, time, i, j]) < 1e-2)
            ctx.check(
                len(near) == 1,
                f'pixel {x[b, time, i, j]} of image {time} is not of the input',
            )
            r, s = near[0]
            ctx.check(
                r in rows[:, i] and s in cols[:, j],
                f'pixel ({i}, {j}) of {out}x{out} is from ({r}, {s}) of'
                f' {h}x{w}',
            )
            if time in labelled:
              k = labelled.index(time)
              got = ELEMENTS[int(np.argmax(y[b, k, i, j]))]
              ctx.check(
                  got == masks[b, time, r, s, 0],
                  f'image {time}, pixel ({r}, {s}) is of element'
                  f' {masks[b, time, r, s, 0]}, labelled {got}',
              )
  ctx.nontrivial(out not in (h, w) or t > 1)
  ctx.label(c['which'])


# ---------------------------------------------------------------------------
# Steps


@st.composite
def step_case(draw):
  return {
      'which': draw(st.sampled_from(['detection', 'alignment', 'graph'])),
      'batch': draw(st.sampled_from([1, 3])),
      'time': draw(st.sampled_from([2, 3])),
      'batches': draw(st.integers(1, 3)),
      'final': draw(st.booleans()),
      'cut': draw(st.booleans()),
      'weight': draw(st.sampled_from([0.0, 0.5, 1.0, 3.0])),
      'start': draw(st.integers(0, 1)),
      'rate': draw(st.sampled_from([0.1, 1.0])),
      'seed': draw(gen.seeds()),
  }


def classify(params, image):
  return image * params['w'] + params['b']


def classify_and_align(params, images):
  logits = images @ params['w'] + params['b']
  return logits, images.mean((0, 1)) @ params['v']


def align_atoms(params, positions, neighbor, nodes):
  del neighbor
  n_times = params['g'].shape[0]
  x = positions.reshape(n_times, -1, 3)
  f = nodes.reshape(n_times, -1, nodes.shape[-1])
  return (
      params['g'] * x[..., :2].mean(1),
      x[..., :2] * params['l'] + f[..., 1:2],
  )


def numeric_grad(loss, params, step=1e-5):
  """Central differences, in double precision."""
  out = {}
  for k, v in params.items():
    g = np.zeros_like(v)
    for i in np.ndindex(v.shape):
      ends = []
      for sign in (1, -1):
        q = {n: p.copy() for n, p in params.items()}
        q[k][i] += sign * step
        ends.append(loss(q))
      g[i] = (ends[0] - ends[1]) / (2 * step)
    out[k] = g
  return out


def judge_steps(c, ctx, state, train, evaluate, batches, report):
  """Runs the batches; `report(params, batch)` is (loss, every metric)."""
  params = {k: np.asarray(v, dtype=float) for k, v in state.params.items()}
  # Evaluation first: it must not change what is learned.
  got, after = evaluate(state, batches)
  want = [report(params, b)[1] for b in batches]
  for k in got:
    ctx.close(
        got[k],
        np.mean([m[k] for m in want]),
        f'evaluation: {k}',
        rtol=2e-4,
        atol=2e-5,
    )
  if after is not None:
    for k in params:
      ctx.close(after.params[k], params[k], f'{k} after evaluation', rtol=1e-6)
    ctx.check(int(after.step) == 0, 'evaluation counts as training')
  want = []
  for i, b in enumerate(batches):
    want.append(report(params, b)[1])
    grad = numeric_grad(lambda q: report(q, b)[0], params)  # pylint: disable=cell-var-from-loop
    params = {k: v - c['rate'] * grad[k] for k, v in params.items()}
    state = train(state, b)
    ctx.check(int(state.step) == i + 1, f'{state.step} steps after {i + 1}')
    for k in params:
      ctx.close(
          state.params[k],
          params[k],
          f'{k} after {i + 1} steps',
          rtol=2e-3,
          atol=2e-4,
      )
      # Differences between the two would otherwise add up.
      params[k] = np.asarray(state.params[k], dtype=float)
  got = {k: float(v) for k, v in state.metrics.compute().items()}
  for k, v in got.items():
    ctx.close(
        v,
        np.mean([m[k] for m in want]),
        f'training: {k}',
        rtol=2e-4,
        atol=2e-5,
    )


def one_hot(rng, shape):
  return np.eye(3, dtype=np.float32)[rng.integers(0, 3, shape)]


def check_steps(c, ctx):
  rng = np.random.default_rng(c['seed'])
  n, t = c['batch'], c['time']
  tx = optax.sgd(c['rate'])
  f32 = lambda *s: jnp.asarray(rng.normal(size=s), jnp.float32)
  if c['which'] == 'detection':
    state = detection.TrainState.create(
        apply_fn=classify,
        params={'w': f32(3), 'b': f32(3)},
        tx=tx,
        metrics=detection.TrainMetrics.empty(),
    )
    batches = [
        {
            'image': rng.normal(size=(n, 4, 5, 1)).astype(np.float32),
            'mask': one_hot(rng, (n, 4, 5)),
        }
        for _ in range(c['batches'])
    ]

    def report(params, b):
      logits = b['image'].astype(float) * params['w'] + params['b']
      loss = -(b['mask'] * log_softmax(logits)).sum(-1).mean()
      right = logits.argmax(-1) == b['mask'].argmax(-1)
      return loss, {'loss': loss, 'accuracy': right.mean()}

    def evaluate(state, batches):
      metrics = detection.EvalMetrics.empty()
      for b in batches:
        metrics = detection.eval_step(metrics, b, state=state)
      return {k: float(v) for k, v in metrics.compute().items()}, None

    # The step consumes the state it is given.
    judge_steps(
        c, ctx, state, detection.train_step, evaluate, batches, report
    )
  elif c['which'] == 'alignment':
    # Records of every time step may be given although only the last counts.
    labels = 1 if c['final'] and c['cut'] else t
    drifts = 1 if c['final'] and c['cut'] else t - 1
    state = alignment.TrainState.create(
        apply_fn=classify_and_align,
        params={
            'w': f32(t, 3 * labels),
            'b': f32(3 * labels),
            'v': f32(t, 2 * drifts),
        },
        tx=tx,
        metrics=alignment.Metrics.empty(),
    )
    batches = [
        {
            'images': rng.random((n, 4, 3, t)).astype(np.float32),
            'mask': one_hot(rng, (n, 4, 3, labels)),
            'drift': rng.normal(size=(n, drifts, 2)).astype(np.float32),
        }
        for _ in range(c['batches'])
    ]

    def report(params, b):
      x = b['images'].astype(float)
      logits = (x @ params['w'] + params['b']).reshape(b['mask'].shape)
      drift = (x.mean((1, 2)) @ params['v']).reshape(b['drift'].shape)
      ce = -(b['mask'] * log_softmax(logits)).sum(-1)
      right = logits.argmax(-1) == b['mask'].argmax(-1)
      off = ((b['drift'] - drift) ** 2).sum(-1)
      last = {
          'accuracy': right[..., -1].mean(),
          'loss': ce[..., -1].mean(),
          'drift_loss': off[..., -1].mean(),
          'drift_error': np.sqrt(off)[..., -1].mean(),
      }
      every = {
          'accuracy': right.mean(),
          'loss': ce.mean(),
          'drift_loss': off.mean(),
          'drift_error': np.sqrt(off).mean(),
      }
      main = last if c['final'] else every
      metrics = dict(main)
      metrics.update({f'final_step_{k}': v for k, v in last.items()})
      return main['loss'] + c['weight'] * main['drift_loss'], metrics

    def evaluate(state, batches):
      for b in batches:
        state = alignment.eval_step(state, b, c['final'])
      return {k: float(v) for k, v in state.metrics.compute().items()}, state

    judge_steps(
        c,
        ctx,
        state,
        lambda s, b: alignment.train_step(s, b, c['weight'], c['final']),
        evaluate,
        batches,
        report,
    )
  else:
    atoms = 4
    state = graph.TrainState.create(
        apply_fn=None,
        params={'g': f32(t, 2), 'l': f32(2)},
        tx=tx,
        metrics=graph.Metrics.empty(),
    )
    batches = []
    for _ in range(c['batches']):
      features = rng.normal(size=(n, t, atoms, 2)).astype(np.float32)
      features[..., 0] = rng.random((n, t, atoms)) < 0.7
      batches.append({
          'positions': rng.normal(size=(n, t, atoms, 3)).astype(np.float32),
          'features': features,
          'local_labels': rng.normal(size=(n, t, atoms, 2)).astype(np.float32),
          'global_labels': rng.normal(size=(n, t, 2)).astype(np.float32),
      })

    def report(params, b):
      x = b['positions'].astype(float)[..., :2]
      glob = params['g'] * x.mean(2)
      local = x * params['l'] + b['features'][..., 1:2]
      real = b['features'][..., 0]
      g = ((b['global_labels'] - glob) ** 2).sum(-1)
      l = ((b['local_labels'] - local) ** 2).sum(-1)
      metrics = {
          'global_loss': g[:, c['start'] :].mean(),
          'local_loss': (l * real)[:, c['start'] :].mean(),
          'global_error': np.sqrt(g).mean(),
          'local_error': np.sqrt(l).mean(),
      }
      loss = metrics['global_loss'] + c['weight'] * metrics['local_loss']
      metrics['total_loss'] = loss
      return loss, metrics

    def run(state, b, learn):
      return STEP(
          state,
          # Records carry bookkeeping besides.
          dict(b, _record_key=np.zeros(n)),
          apply_fn=align_atoms,
          neighbor_update_fn=leave,
          local_loss_weight=c['weight'],
          loss_start_timestep=c['start'],
          neighbor_list_capacity=8,
          do_grad_step=learn,
      )

    def evaluate(state, batches):
      for b in batches:
        state = run(state, b, False)
      return {k: float(v) for k, v in state.metrics.compute().items()}, state

    judge_steps(
        c,
        ctx,
        state,
        lambda s, b: run(s, b, True),
        evaluate,
        batches,
        report,
    )
  ctx.nontrivial(c['batches'] > 1)
  ctx.label(c['which'])


def leave(positions, neighbor):
  del positions
  return neighbor


# The program replaces its own step once it runs.
STEP = graph.train_step


# ---------------------------------------------------------------------------
# Runs


@st.composite
def run_case(draw, which):
  batch = draw(st.sampled_from([2, 1, 3]))
  epochs = draw(st.integers(2, 4))
  c = {
      'which': which,
      'batch': batch,
      'epochs': epochs,
      'steps': draw(st.integers(1, 3)),
      'extra': draw(st.integers(0, batch - 1)),
      'eval': draw(st.integers(1, 2)),
      # Where the first run stops: after this epoch's checkpoint, or within it.
      'stop': draw(st.integers(1, epochs - 1)),
      'within': draw(st.booleans()),
      'final': draw(st.booleans()),
      'seed': draw(gen.seeds()),
  }
  return c


class Stopped(Exception):
  pass


def stop_when(c, module):
  """Ends the run like a crash would."""
  real = module.metric_writers.write_values
  calls = []

  def write_values(writer, step, metrics):
    calls.append(step)
    if len(calls) == c['stop'] and not c['within']:
      raise Stopped()
    real(writer, step, metrics)

  return mock.patch.object(module.metric_writers, 'write_values', write_values)


def stop_within(c, module):
  """Ends the run during evaluation, before the epoch's checkpoint."""
  real = module.etqdm.tqdm
  calls = []

  def tqdm(it, **kwargs):
    if kwargs.get('desc') == 'Test':
      calls.append(1)
      if len(calls) == c['stop'] + 1 and c['within']:
        raise Stopped()
    return real(it, **kwargs)

  return mock.patch.object(module.etqdm, 'tqdm', tqdm)


def records(c, n, rng):
  t = 3
  if c['which'] == 'detection':
    return {
        'image': rng.random((n, 16, 16, 1)).astype(np.float32),
        'mask': rng.choice(ELEMENTS, (n, 16, 16, 1)),
    }
  if c['which'] == 'alignment':
    return {
        'images': rng.integers(0, 255, (n, t, 16, 16, 1)).astype(np.uint8),
        'mask': rng.choice(ELEMENTS, (n, t, 16, 16, 1)),
        'drift': rng.normal(size=(n, t - 1, 2)).astype(np.float32),
    }
  features = np.ones((n, t, 5, 2), np.float32)
  return {
      'positions': rng.random((n, t, 5, 3)).astype(np.float32) * 4,
      'features': features,
      'global_labels': rng.normal(size=(n, t, 2)).astype(np.float32),
      'local_labels': rng.normal(size=(n, t, 5, 2)).astype(np.float32),
  }


MODULES = {
    'detection': (detection, 'atom_detection'),
    'alignment': (alignment, 'image_alignment'),
    'graph': (graph, 'graph_alignment'),
}


def small_graph(*args, **kwargs):
  kwargs['mlp_sizes'] = (16,)
  kwargs['n_recurrences'] = 1
  return REAL_GRAPH(*args, **kwargs)


REAL_GRAPH = graph_model.graph_network_neighbor_list


def flat(tree):
  return {
      jax.tree_util.keystr(k): np.asarray(v)
      for k, v in jax.tree_util.tree_flatten_with_path(tree)[0]
  }


def own_accuracy(c, state, data, size):
  """Accuracy over the test set, from the network's own outputs."""
  right = []
  if c['which'] == 'detection':
    for x, m in zip(data['image'], data['mask']):
      x = tf.image.resize(x, (256, 256), 'nearest').numpy()
      m = tf.image.resize(m, (256, 256), 'nearest').numpy()[..., 0]
      got = np.asarray(state.apply_fn(state.params, x)).argmax(-1)
      right.append((ELEMENTS[got] == m).mean())
    return float(np.mean(right))
  del size
  for x, m in zip(data['images'], data['mask']):
    x = np.moveaxis(x[..., 0], 0, -1).astype(np.float32) / 255
    logits, _ = state.apply_fn(state.params, x)
    m = np.moveaxis(m[..., 0], 0, -1)
    if c['final']:
      m = m[..., -1:]
    got = np.asarray(logits).reshape(*m.shape, 3).argmax(-1)
    right.append((ELEMENTS[got] == m).mean())
  return float(np.mean(right))


def check_run(c, ctx):
  module, name = MODULES[c['which']]
  rng = np.random.default_rng(c['seed'])
  per_test = c['eval'] * c['batch']
  train_data = records(c, 6, rng)
  test_data = records(c, per_test, rng)
  extra = {}
  if c['which'] == 'alignment':
    extra = {'image_size': 16, 'final_step_only': c['final']}
  if c['which'] == 'graph':
    extra = {'neighbor_capacity': 225, 'box_size': 30.0}
  seen = []
  patches = (
      trainkit.narrow(module)
      if c['which'] != 'graph'
      else mock.patch.object(
          module.graph_model, 'graph_network_neighbor_list', small_graph
      )
  )
  with tempfile.TemporaryDirectory(prefix='pdv_p28_') as tmp, patches:
    workdir = pathlib.Path(tmp) / 'work'
    config = module.Config(
        workdir=epath.Path(workdir),
        data_dir=epath.Path(tmp),
        seed=c['seed'] % 1000,
        train_steps_per_epoch=c['steps'] * c['batch'] + c['extra'],
        eval_steps_per_epoch=per_test,
        batch_size=c['batch'],
        epochs=c['epochs'],
        **extra,
    )

    real_loader = trainkit.Loader.__init__

    def loader(self, **kwargs):
      seen.append((kwargs['split'], kwargs['batch_size']))
      real_loader(self, **kwargs)

    def run(config):
      if c['which'] == 'graph':
        module.train_step = STEP
      try:
        with trainkit.serving(
            name, train_data, test_data
        ), trainkit.quiet(), mock.patch.object(
            trainkit.Loader, '__init__', loader
        ):
          return module.train(config)
      finally:
        if c['which'] == 'graph':
          module.train_step = STEP

    with stop_when(c, module), stop_within(c, module):
      try:
        run(config)
        stopped = False
      except Stopped:
        stopped = True
    ctx.check(stopped, 'the run was not stopped where it should be')
    kept = trainkit.steps(workdir)
    ctx.check(
        len(kept) == c['stop'],
        f"{c['stop']} epochs were completed, checkpoints {kept}",
    )
    state = run(config)
    want = c['epochs'] * c['steps']
    where = f"stopped {'in' if c['within'] else 'after'} epoch {c['stop']}"
    ctx.check(
        int(state.step) == want,
        f'{int(state.step)} training steps, expected {want} ({where})',
    )
    kept = trainkit.steps(workdir)
    ctx.check(
        len(kept) == c['epochs'],
        f"{c['epochs']} epochs, checkpoints {kept} ({where})",
    )
    ctx.check(
        {b for _, b in seen} == {c['batch']},
        f"batches of {seen}, {c['batch']} were asked for",
    )
    values = [
        json.loads((workdir / str(k) / 'metrics' / 'metrics').read_text())
        for k in kept
    ]
    manager = checkpoint.CheckpointManager(
        epath.Path(workdir), checkpointers=checkpoint.PyTreeCheckpointer()
    )
    with trainkit.quiet():
      saved = [manager.restore(k) for k in kept]
    counts = [int(s['step']) for s in saved]
    ctx.check(
        counts == [c['steps'] * (i + 1) for i in range(c['epochs'])],
        f'checkpoints of steps {counts} ({where})',
    )
    last = {
        k.replace('dummy_slash', '/').replace('dummy_tilde', '~'): v
        for k, v in flat(saved[-1]['params']).items()
    }
    now = flat(state.params)
    ctx.check(set(last) == set(now), 'other parameters were saved')
    for k, v in now.items():
      ctx.check(np.array_equal(last[k], v), f'{k} was not saved as it is')
    for k in now:
      first = np.asarray(
          {
              q.replace('dummy_slash', '/').replace('dummy_tilde', '~'): v
              for q, v in flat(saved[0]['params']).items()
          }[k]
      )
      ctx.check(first.shape == now[k].shape, f'{k} changes its shape')
    # Nothing is left to be done.
    again = run(config)
    ctx.check(int(again.step) == want, f'{int(again.step)} steps, run again')
    for k, v in flat(again.params).items():
      ctx.check(np.array_equal(now[k], v), f'{k} changed, run again')
    ctx.check(trainkit.steps(workdir) == kept, 'more checkpoints, run again')
    # A run that was never stopped reads the data from its start, as does one
    # that is resumed, so what is comparable is what is reported.
    if c['which'] != 'graph':
      own = own_accuracy(c, state, test_data, 16)
      ctx.close(
          values[-1]['eval/accuracy'],
          own,
          'accuracy on the test set',
          atol=2e-3 if c['which'] == 'detection' else 5e-3,
          rtol=0,
      )
      want_best = max(v['eval/accuracy'] for v in values)
      key = 'eval/accuracy'
    else:
      want_best = min(v['eval/total_loss'] for v in values)
      key = 'eval/total_loss'
    best = BEST[-1]
    ctx.check(
        values[kept.index(best)][key] == want_best,
        f'best checkpoint {best}, {key}: {[v[key] for v in values]}',
    )
  ctx.nontrivial(stopped)
  ctx.label('within an epoch' if c['within'] else 'between epochs')


BEST = []
_REAL_MANAGER = checkpoint.CheckpointManager


class Manager(_REAL_MANAGER):
  """Notes what the programs take for the best checkpoint."""

  def latest_step(self):
    if len(self.all_steps()):
      best = self.best_step()
      if best is not None:
        BEST.append(best)
    return super().latest_step()


for _module in (detection, alignment, graph):
  _module.checkpoint.CheckpointManager = Manager


PARTS = [
    Part('data', data_case, check_data, quick=60, thorough=1500),
    Part('steps', step_case, check_steps, quick=45, thorough=900),
    Part('detection', lambda: run_case('detection'), check_run, 3, 60),
    Part('alignment', lambda: run_case('alignment'), check_run, 3, 60),
    Part('graph', lambda: run_case('graph'), check_run, 2, 40),
]
WEIGHTS = {'data': 2, 'steps': 5, 'detection': 8, 'alignment': 6, 'graph': 9}
WORKERS = 4
del dataclasses

ASSUMPTIONS = [
    'records are served by a stand-in for the data loader, which is not installed',
    'the networks are narrow, or linear where steps are judged',
    'jax.tree, which the installed checkpoint library needs, is provided for the installed jax',
]
