"""What the training programs need that is not installed here.

`grain` (data loading) is absent, so a stand-in serves generated records through
the real transformations; the installed checkpoint library expects `jax.tree`,
which the installed jax does not have yet.  Nothing in /repo is replaced except
the width of the networks.
"""

import contextlib
import functools
import io
import os
import sys
import types
from unittest import mock

import jax
import numpy as np


def _install():
  if 'grain' in sys.modules:
    return
  grain = types.ModuleType('grain')
  tensorflow = types.ModuleType('grain.tensorflow')

  class MapTransform:
    pass

  class ShardByJaxProcess:

    def __init__(self, *args, **kwargs):
      del args, kwargs

  tensorflow.MapTransform = MapTransform
  tensorflow.ShardByJaxProcess = ShardByJaxProcess
  tensorflow.load_from_tfds = lambda **kwargs: Loader(**kwargs)
  tensorflow.config = types.SimpleNamespace(update=lambda *a, **k: None)
  grain.tensorflow = tensorflow
  sys.modules['grain'] = grain
  sys.modules['grain.tensorflow'] = tensorflow
  if not hasattr(jax, 'tree'):
    tu = jax.tree_util
    jax.tree = types.SimpleNamespace(
        map=tu.tree_map,
        leaves=tu.tree_leaves,
        structure=tu.tree_structure,
        flatten=tu.tree_flatten,
        unflatten=tu.tree_unflatten,
        reduce=tu.tree_reduce,
        all=tu.tree_all,
        transpose=tu.tree_transpose,
    )


class Loader:
  """Serves RECORDS[split] in order, over and over."""

  RECORDS = {}

  def __init__(self, *, name, split, transformations, batch_size, **kwargs):
    del kwargs
    self.name, self.split = name, split
    self.transformations, self.batch_size = transformations, batch_size

  def as_dataset(self, start_index=0):
    import tensorflow as tf  # pylint: disable=g-import-not-at-top

    del start_index
    records = Loader.RECORDS[self.name, self.split]
    ds = tf.data.Dataset.from_tensor_slices(records)
    for transformation in self.transformations:
      ds = ds.map(transformation.map)
    return ds.repeat().batch(self.batch_size, drop_remainder=True)


@contextlib.contextmanager
def serving(name, train, test):
  Loader.RECORDS = {(name, 'train'): train, (name, 'test'): test}
  try:
    yield
  finally:
    Loader.RECORDS = {}


@contextlib.contextmanager
def narrow(module):
  """The program's network, with few features per layer."""
  name = 'UNet' if hasattr(module.unet, 'UNet') else 'GlobalLocalUNet'
  small = functools.partial(getattr(module.unet, name), features=(2, 3))
  with mock.patch.object(module.unet, name, small):
    yield


@contextlib.contextmanager
def quiet():
  with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(
      io.StringIO()
  ):
    yield


def log_softmax(x):
  x = np.asarray(x, dtype=float)
  x = x - x.max(-1, keepdims=True)
  return x - np.log(np.exp(x).sum(-1, keepdims=True))


def steps(folder):
  return sorted(int(x) for x in os.listdir(folder) if x.isdigit())


_install()
