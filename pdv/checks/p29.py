"""P29: a saved network is, once loaded, the best one that was trained."""

import contextlib
import functools
import io
import os
import pathlib
import tempfile
from unittest import mock
import urllib.error
import urllib.request
import zipfile

import dm_env
from etils import epath
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
from orbax import checkpoint
from pdv import gen
from pdv import trainkit
from pdv.core import Part
import tensorflow as tf

from putting_dune import alignment  # pylint: disable=g-bad-import-order
from putting_dune import atom_detector
from putting_dune import geometry
from putting_dune import microscope_utils as mu
from putting_dune.atom_detection import model as detection_net
from putting_dune.atom_detection import save_model as save_detector
from putting_dune.atom_detection import train as detection
from putting_dune.experiments import registry
from putting_dune.image_alignment import model as alignment_net
from putting_dune.image_alignment import save_model as save_aligner
from putting_dune.image_alignment import train as alignment_train

PROPERTY = 'P29'
RULE = (
    'Generated networks are kept as checkpoints with generated scores, saved'
    ' as a model and loaded again, and the loaded model is compared with the'
    ' network of the best checkpoint on random images; models are fetched from'
    ' files that are missing, cut short or damaged, and then from good ones.'
    ' Non-trivial: several checkpoints, the best of which is not the last; or'
    ' a failure before the good model.'
)


@contextlib.contextmanager
def scratch():
  """A directory to work in, which also stands in for the installed package."""
  here = os.getcwd()
  with tempfile.TemporaryDirectory(prefix='pdv_p29_') as tmp:
    tmp = pathlib.Path(tmp)
    (tmp / 'package').mkdir()
    (tmp / 'cwd').mkdir()
    os.chdir(tmp / 'cwd')
    try:
      with mock.patch.object(
          epath, 'resource_path', lambda name: epath.Path(tmp / 'package')
      ):
        yield tmp
    finally:
      os.chdir(here)


@functools.lru_cache(maxsize=None)
def shapes(which, local, out, channels):
  if which == 'detector':
    model = detection_net.UNet(features=(2, 3))
    x = jnp.zeros((8, 8, 1))
  else:
    model = alignment_net.GlobalLocalUNet(
        local_output_size=local, global_output_size=out, features=(2, 3)
    )
    x = jnp.zeros((8, 8, channels))
  return model, jax.eval_shape(model.init, jax.random.PRNGKey(0), x)


def network(which, seed, local=3, out=2, channels=1):
  model, tree = shapes(which, local, out, channels)
  rng = np.random.default_rng(seed)
  # Larger than they start, so that networks differ in what they predict.
  params = jax.tree_util.tree_map(
      lambda s: jnp.asarray(rng.normal(size=s.shape), jnp.float32), tree
  )
  return model, params


@st.composite
def save_case(draw, which):
  n = draw(st.integers(2, 4))
  scores = draw(
      st.lists(st.integers(0, 50), min_size=n, max_size=n, unique=True)
  )
  return {
      'which': which,
      'scores': scores,
      'drifts': draw(
          st.lists(
              st.sampled_from([0.25, 0.5]), min_size=n, max_size=n
          )
      ),
      'seed': draw(gen.seeds()),
      'relative': draw(st.booleans()),
      'named': draw(st.sampled_from([True, True, False])),
      'again': draw(st.booleans()),
      'final': draw(st.booleans()),
      'time': draw(st.sampled_from([3, 2])),
      'large': draw(st.sampled_from([False, False, True])),
  }


def keep(c, workdir, make, state_class, empty):
  """Writes the checkpoints a training run would."""
  import optax  # pylint: disable=g-import-not-at-top

  manager = checkpoint.CheckpointManager(
      epath.Path(workdir),
      checkpointers=checkpoint.PyTreeCheckpointer(),
      options=checkpoint.CheckpointManagerOptions(
          best_fn=lambda metrics: metrics['eval/accuracy'], create=True
      ),
  )
  for i, score in enumerate(c['scores']):
    model, params = make(c['seed'] + i)
    state = state_class.create(
        apply_fn=model.apply, params=params, tx=optax.sgd(0.1), metrics=empty()
    )
    metrics = {
        'eval/accuracy': score / 64,
        'eval/loss': (100 - score) / 8,
        'eval/drift_error': c['drifts'][i] / 8,
        'train/accuracy': -score / 64,
        'train/loss': score / 8,
    }
    manager.save(i + 1, state, metrics=metrics)


def file_in(c, tmp):
  folder = tmp / 'cwd' / 'saved'
  folder.mkdir(parents=True, exist_ok=True)
  return epath.Path('saved') if c['relative'] else epath.Path(folder)


def the_zip(c, tmp, ctx):
  folder = tmp / 'cwd' / 'saved'
  found = sorted(folder.iterdir())
  ctx.check(
      len(found) == 1 and found[0].suffix == '.zip',
      f'saved: {[f.name for f in found]}',
  )
  if c['named']:
    ctx.check(found[0].name == 'my-model.zip', f'saved as {found[0].name}')
  return found[0]


def save(c, tmp, ctx, program, config):
  here = os.getcwd()
  if c['again']:
    # Something of that name is there already.
    target = tmp / 'cwd' / 'saved' / 'my-model.zip'
    target.write_bytes(b'older')
    refused = dict(config, overwrite=False, model_name='my-model.zip')
    try:
      program.save(program.Config(**refused))
      done = True
    except Exception:  # pylint: disable=broad-except
      done = False
    ctx.check(
        not done and target.read_bytes() == b'older',
        'an existing model was overwritten',
    )
    config = dict(config, overwrite=True, model_name='my-model.zip')
  program.save(program.Config(**config))
  ctx.check(os.getcwd() == here, 'the working directory was changed')


def alike(got, want, what, ctx):
  """The same outputs, up to rounding that the networks blow up in places."""
  ctx.check(got.shape == want.shape, f'{what}: {got.shape}, {want.shape}')
  off = float(np.mean(np.abs(got - want)) / np.mean(np.abs(want)))
  ctx.check(off < 0.02, f'{what}: off by {off:.3g} of its size on average')


def check_save(c, ctx):
  rng = np.random.default_rng(c['seed'])
  best = int(np.argmax(c['scores']))
  with scratch() as tmp, trainkit.quiet():
    workdir = tmp / 'work'
    config = {
        'workdir': epath.Path(workdir),
        'save_path': file_in(c, tmp),
        'model_name': 'my-model.zip' if c['named'] else None,
        'overwrite': True,
    }
    if c['which'] == 'detector':
      make = lambda seed: network('detector', seed)
      keep(
          c, workdir, make, detection.TrainState, detection.TrainMetrics.empty
      )
      with trainkit.narrow(save_detector):
        save(c, tmp, ctx, save_detector, config)
      path = the_zip(c, tmp, ctx)
      detector = atom_detector.AtomDetector.from_url(path.as_uri())
      # The zip is no longer needed.
      path.rename(path.with_suffix('.gone'))
      image = rng.random((256, 256, 1)).astype(np.float32)
      image -= image.min()
      image /= image.max()
      outputs = detector.model.signatures['serving_default'](
          preprocessed_inputs_0=tf.constant(image)
      )
      model, params = make(c['seed'] + best)
      want = np.asarray(model.apply(params, image))
      got = outputs['output_0'].numpy()
      alike(got, want, 'what the loaded detector sees', ctx)
      frame = detector((image * 255).astype(np.uint8))
      ctx.check(
          np.shape(frame.atom_positions) == (len(frame.atomic_numbers), 2),
          f'the loaded detector finds {frame}',
      )
    else:
      t = c['time']
      local, out = (3, 2) if c['final'] else (3 * t, 2 * (t - 1))
      make = lambda seed: network('aligner', seed, local, out, t)
      keep(
          c,
          workdir,
          make,
          alignment_train.TrainState,
          alignment_train.Metrics.empty,
      )
      size = 512 if c['large'] else 16
      with trainkit.narrow(save_aligner):
        save(
            c,
            tmp,
            ctx,
            save_aligner,
            dict(
                config,
                image_size=(size, size),
                final_step_only=c['final'],
                sequence_length=t,
            ),
        )
      path = the_zip(c, tmp, ctx)
      aligner = alignment.ImageAligner.from_path(
          epath.Path(path), workdir=str(tmp / 'weights')
      )
      path.rename(path.with_suffix('.gone'))
      images = rng.random((size, size, t)).astype(np.float32)
      model, params = make(c['seed'] + best)
      want = [np.asarray(x) for x in model.apply(params, images)]
      outputs = aligner.model.signatures['serving_default'](
          image=tf.constant(images)
      )
      for i, what in enumerate(('classes', 'drift')):
        alike(
            outputs[f'output_{i}'].numpy(),
            want[i],
            f'{what} of the loaded aligner',
            ctx,
        )
      if c['large']:
        aligner.reset(t)
        fov = mu.MicroscopeFieldOfView(
            lower_left=geometry.Point(0.0, 0.0),
            upper_right=geometry.Point(20.0, 20.0),
        )
        first = (images[..., 0] * 255).astype(np.uint8)
        _, drift, probs = aligner(first, fov)
        ctx.check(
            np.shape(drift) == (2,) and np.shape(probs) == (512, 512, 3),
            f'an alignment of {np.shape(drift)} and {np.shape(probs)}',
        )
        ctx.close(probs.sum(-1), np.ones((512, 512)), 'classes', atol=1e-4)
  ctx.nontrivial(best != len(c['scores']) - 1)
  ctx.label('best is not last' if best != len(c['scores']) - 1 else 'last')


# ---------------------------------------------------------------------------
# Failures


@st.composite
def broken_case(draw):
  event = st.tuples(
      st.sampled_from(['good', 'missing', 'cut', 'damaged', 'empty']),
      st.integers(0, 3),
      st.booleans(),
      st.floats(0.05, 0.95),
  ).map(list)
  return {
      'which': draw(st.sampled_from(['detector', 'aligner'])),
      'events': draw(st.lists(event, min_size=2, max_size=5)),
  }


@functools.lru_cache(maxsize=None)
def packed(name, value):
  """A model that only knows its number, as a zip."""
  module = tf.Module()
  module.value = tf.Variable(float(value))
  module.__call__ = tf.function(
      lambda x: x * 0 + module.value,
      autograph=False,
      input_signature=[tf.TensorSpec(shape=(), dtype=tf.float32)],
  )
  with tempfile.TemporaryDirectory(prefix='pdv_p29_') as tmp:
    tf.saved_model.save(module, os.path.join(tmp, name))
    target = os.path.join(tmp, 'model.zip')
    with zipfile.ZipFile(target, 'w') as f:
      for folder, _, files in os.walk(os.path.join(tmp, name)):
        f.write(folder, os.path.relpath(folder, tmp))
        for x in sorted(files):
          path = os.path.join(folder, x)
          f.write(path, os.path.relpath(path, tmp))
    return pathlib.Path(target).read_bytes()


def check_broken(c, ctx):
  detector = c['which'] == 'detector'
  name = 'atom-detection-model' if detector else 'image-alignment-model'
  present = None
  failed = False
  with scratch() as tmp, trainkit.quiet():
    for i, (kind, value, reload, where) in enumerate(c['events']):
      data = packed(name, value)
      path = tmp / f'{i}.zip'
      at = int(len(data) * where)
      if kind == 'cut':
        data = data[:at]
      elif kind == 'damaged':
        data = data[:at] + bytes(64) + data[at + 64 :]
        damage = ~np.frombuffer(packed(name, value)[at : at + 64], np.uint8)
        data = data[:at] + damage.tobytes() + data[at + 64 :]
      elif kind == 'empty':
        data = b''
      if kind != 'missing':
        path.write_bytes(data)
      fetched = present is None or (reload and not detector)
      try:
        if detector:
          loaded = atom_detector.AtomDetector.from_url(path.as_uri())
        else:
          loaded = alignment.ImageAligner.from_path(
              epath.Path(path), workdir=str(tmp / 'weights'), reload=reload
          )
        error = None
      except Exception as e:  # pylint: disable=broad-except
        loaded, error = None, e
      where_ = f'{kind} model after {c["events"][:i]}'
      if kind == 'good':
        ctx.check(error is None, f'{where_}: {type(error).__name__}: {error}')
        if fetched:
          present = value
          ctx.label('good after failure' if failed else 'good')
          ctx.nontrivial(failed)
      elif not fetched:
        ctx.check(
            error is None, f'{where_}: {error}, though one was there already'
        )
      elif error is not None:
        failed = True
      else:
        # Damage may hit what is not checked; then it must be all there.
        ctx.check(
            kind == 'damaged', f'{where_}: taken for a model'
        )
        present = None
        return
      if loaded is not None:
        got = float(
            loaded.model.signatures['serving_default'](tf.constant(0.0))[
                'output_0'
            ]
        )
        ctx.check(got == present, f'{where_}: model {got}, expected {present}')


PUBLISHED = (
    'ppo_simple_images_tf', 'ppo_learned_tf_2s', 'ppo_learned_tf_3s',
    'ppo_learned_tf_4s', 'ppo_v3_2s', 'ppo_v3_3s', 'ppo_v3_4s',
)


@st.composite
def agent_case(draw):
  event = st.tuples(
      st.sampled_from(['good', 'missing', 'cut', 'damaged', 'empty']),
      st.sampled_from(PUBLISHED[:4]),
      st.floats(0.05, 0.95),
  ).map(list)
  return {'events': draw(st.lists(event, min_size=2, max_size=6))}


def check_agent(c, ctx):
  """The agents of published experiments are fetched once, and only whole."""
  values = {}
  present = {}
  failed = False
  asked = []
  event = [None, None]

  def served(url):
    asked.append(url)
    kind, where = event
    name = os.path.splitext(os.path.basename(url))[0]
    # Every model is another one.
    data = packed(name, values.setdefault(url, float(len(values) + 1)))
    at = int(len(data) * where)
    if kind == 'missing':
      raise urllib.error.URLError('not there')
    if kind == 'cut':
      return data[:at]
    if kind == 'empty':
      return b''
    if kind == 'damaged':
      damage = ~np.frombuffer(data[at : at + 64], np.uint8)
      return data[:at] + damage.tobytes() + data[at + 64 :]
    return data

  def urlretrieve(url, filename=None, *args, **kwargs):
    del args, kwargs
    data = served(url)
    ctx.check(
        filename is not None
        and pathlib.Path(filename).resolve().is_relative_to(home.resolve()),
        f'the model is downloaded to {filename}',
    )
    with open(filename, 'wb') as f:
      f.write(data)
    return filename, None

  def urlopen(url, *args, **kwargs):
    del args, kwargs
    return io.BytesIO(served(url))

  with scratch() as tmp, trainkit.quiet():
    home = tmp / 'package'
    (home / 'experiments').mkdir()
    with mock.patch.object(
        registry, '__file__', str(home / 'experiments' / 'registry.py')
    ), mock.patch.object(
        urllib.request, 'urlretrieve', urlretrieve
    ), mock.patch.object(urllib.request, 'urlopen', urlopen):
      for i, (kind, name, where) in enumerate(c['events']):
        event[:] = kind, where
        what = f'{name} ({kind}) after {c["events"][:i]}'
        experiment = registry.create_microscope_experiment(name)
        before = len(asked)
        try:
          agent = experiment.get_agent(np.random.default_rng(0), None)
          error = None
        except Exception as e:  # pylint: disable=broad-except
          agent, error = None, e
        if name in present:
          ctx.check(
              error is None and len(asked) == before,
              f'{what}: {error}, though it was there already'
              f' (fetched {asked[before:]})',
          )
        elif kind == 'good':
          ctx.check(error is None, f'{what}: {type(error).__name__}: {error}')
          ctx.check(
              len(asked) == before + 1, f'{what}: fetched {asked[before:]}'
          )
          ctx.check(
              asked[-1].endswith(name.split('_')[-1] + '.zip'),
              f'{what}: fetched from {asked[-1]}',
          )
          present[name] = values[asked[-1]]
          ctx.nontrivial(failed)
          ctx.label('good after failure' if failed else 'good')
        elif error is not None:
          failed = True
        else:
          # Damage may hit what is not checked; then it must be all there.
          ctx.check(kind == 'damaged', f'{what}: taken for a model')
          present[name] = values[asked[-1]]
        if agent is not None:
          step = dm_env.restart(np.float32(0.0))
          ctx.close(agent.step(step), present[name], what)


PARTS = [
    Part('detector', lambda: save_case('detector'), check_save, 5, 100),
    Part('aligner', lambda: save_case('aligner'), check_save, 7, 120),
    Part('broken', broken_case, check_broken, 40, 800),
    Part('agent', agent_case, check_agent, 40, 800),
]
WEIGHTS = {'detector': 6, 'aligner': 8, 'broken': 4, 'agent': 4}
WORKERS = 3

ASSUMPTIONS = [
    'checkpoints are written by the same library as in training, of narrow networks',
    'files are local; nothing is fetched over a network',
]
