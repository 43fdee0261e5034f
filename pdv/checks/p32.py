"""P32: the image networks label places, each image for itself."""

import functools

from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
from pdv import gen
from pdv.core import Part
from putting_dune.atom_detection import model as detection_net
from putting_dune.image_alignment import model as alignment_net

PROPERTY = 'P32'
RULE = (
    'Networks of two or three levels with generated weights and numbers of'
    ' outputs, on generated images, square and oblong, one or several at a'
    ' time, moved, and changed near and far. Non-trivial: the outputs differ'
    ' from place to place and from image to image.'
)


def reach(levels):
  """No output can depend on pixels further away than this."""
  return 6 * (2**levels - 1) + 6


@functools.lru_cache(maxsize=None)
def build(which, levels, local, out, channels):
  features = (6, 8, 8)[:levels]
  if which == 'detector':
    model = detection_net.UNet(features=features, num_classes=local)
  else:
    model = alignment_net.GlobalLocalUNet(
        features=features, local_output_size=local, global_output_size=out
    )
  tree = jax.eval_shape(
      model.init, jax.random.PRNGKey(0), jnp.zeros((16, 16, channels))
  )
  return model, tree, jax.jit(model.apply)


def network(c):
  _, tree, apply = build(
      c['which'], c['levels'], c['local'], c['out'], c['channels']
  )
  rng = np.random.default_rng(c['seed'])
  params = jax.tree_util.tree_map(
      lambda s: jnp.asarray(
          rng.normal(size=s.shape) / np.sqrt(max(np.prod(s.shape[:-1]), 1)),
          jnp.float32,
      ),
      tree,
  )

  def run(x):
    y = apply(params, jnp.asarray(x, jnp.float32))
    if c['which'] == 'detector':
      return np.asarray(y), None
    local, whole = y
    return np.asarray(local), np.asarray(whole)

  return run, rng


@st.composite
def case(draw, few=False):
  which = draw(st.sampled_from(['detector', 'aligner']))
  levels = draw(st.integers(2, 3))
  # Few kinds, as each has to be compiled.
  local, out, channels = draw(
      st.sampled_from([(3, 2, 1), (2, 4, 3)] + [(9, 2, 2)] * (not few))
  )
  return {
      'which': which,
      'levels': levels,
      'local': local,
      'out': out,
      'channels': channels,
      'seed': draw(gen.seeds()),
      'size': draw(st.sampled_from([[16, 16], [16, 24], [32, 16]])),
      'batch': draw(st.integers(1, 3)),
      'order': draw(gen.seeds()),
      'shift': draw(st.tuples(st.integers(-4, 4), st.integers(-4, 4)).map(list)),
      'at': [draw(gen.real(0.0, 0.999)), draw(gen.real(0.0, 0.999))],
      'size2': draw(st.sampled_from([0.25, 1.0, 4.0])),
  }


def picture(rng, h, w, channels):
  """Blobs and noise."""
  y, x = np.mgrid[:h, :w]
  out = rng.normal(size=(h, w, channels)) * 0.2
  for k in range(channels):
    for _ in range(4):
      cy, cx = rng.uniform(0, h), rng.uniform(0, w)
      out[..., k] += np.exp(-((y - cy) ** 2 + (x - cx) ** 2) / 8)
  return out.astype(np.float32)


TOL = {'rtol': 1e-3, 'atol': 2e-4}


def check_batch(c, ctx):
  """Each image is answered as if it were alone."""
  run, rng = network(c)
  h, w = c['size']
  images = np.stack(
      [picture(rng, h, w, c['channels']) for _ in range(c['batch'])]
  )
  local, whole = run(images)
  ctx.label(c['which'])
  ctx.check(
      local.shape == (c['batch'], h, w, c['local']),
      f'{local.shape} for {c["batch"]} images of {h} x {w} pixels,'
      f' {c["local"]} values each',
  )
  if whole is not None:
    ctx.check(
        whole.shape == (c['batch'], c['out']),
        f'{whole.shape} for the whole of {c["batch"]} images',
    )
  ctx.check(bool(np.all(np.isfinite(local))), 'outputs are not finite')
  for i in range(c['batch']):
    one, alone = run(images[i])
    ctx.check(one.shape == (h, w, c['local']), f'one image: {one.shape}')
    ctx.close(local[i], one, 'an image among others and alone', **TOL)
    if whole is not None:
      ctx.check(alone.shape == (c['out'],), f'one image: {alone.shape}')
      ctx.close(whole[i], alone, 'the whole, among others and alone', **TOL)
  order = np.random.default_rng(c['order']).permutation(c['batch'])
  again, whole2 = run(images[order])
  ctx.close(again, local[order], 'images in another order', **TOL)
  if whole is not None:
    ctx.close(whole2, whole[order], 'images in another order: whole', **TOL)
  ctx.nontrivial(
      c['batch'] > 1
      and np.ptp(local, axis=(1, 2)).max() > 1e-2
      and np.abs(local[0] - local[1]).max() > 1e-2
  )


def check_place(c, ctx):
  """What is said of a place depends on what is seen there, not on where."""
  run, rng = network(c)
  far = reach(c['levels'])
  cell = 2 ** (c['levels'] - 1)
  n = 2 * far + 16
  dy, dx = (cell * s for s in c['shift'])
  room = 4 * cell
  scene = picture(rng, n + 2 * room, n + 2 * room, c['channels'])
  first = scene[room : room + n, room : room + n]
  second = scene[room + dy : room + dy + n, room + dx : room + dx + n]
  a, whole = run(first)
  b, _ = run(second)
  ctx.label(c['which'])
  # The same places of the scene, away from the edges of both.
  lo_y, hi_y = far + max(dy, 0), n - far + min(dy, 0)
  lo_x, hi_x = far + max(dx, 0), n - far + min(dx, 0)
  if hi_y > lo_y and hi_x > lo_x:
    mine = a[lo_y:hi_y, lo_x:hi_x]
    ctx.close(
        b[lo_y - dy : hi_y - dy, lo_x - dx : hi_x - dx],
        mine,
        'the same place in a moved image',
        **TOL,
    )
    ctx.nontrivial(
        (dy or dx) and float(np.ptp(mine, axis=(0, 1)).max()) > 1e-2
    )
  # A change somewhere.
  y, x = (int(f * n) for f in c['at'])
  changed = first.copy()
  changed[y, x] += c['size2'] * (1 + np.abs(first).max())
  d, whole2 = run(changed)
  diff = np.abs(d - a).max(axis=-1)
  ctx.check(
      diff[y, x] > 1e-6,
      f'a change at {(y, x)} does not show there',
  )
  gap = np.maximum(
      np.abs(np.arange(n)[:, None] - y), np.abs(np.arange(n)[None] - x)
  )
  distant = diff[gap > far]
  ctx.check(
      not distant.size or distant.max() < 1e-3,
      f'a change at {(y, x)} shows further than {far} pixels away',
  )
  if whole is not None:
    ctx.check(
        np.abs(whole2 - whole).max() > 1e-7,
        f'a change at {(y, x)} does not show in the whole',
    )


@st.composite
def plain_case(draw):
  return {
      'cells': [draw(st.integers(1, 6)), draw(st.integers(1, 6))],
      'batch': draw(st.sampled_from([None, 1, 2, 5])),
      'steps': draw(st.integers(1, 6)),
      'classes': draw(st.integers(1, 5)),
      'out': draw(st.integers(1, 10)),
  }


def check_plain(c, ctx):
  """The networks as they come, by the shapes of what they say."""
  h, w = (16 * k for k in c['cells'])
  lead = () if c['batch'] is None else (c['batch'],)

  def shapes(model, channels):
    x = jax.ShapeDtypeStruct((*lead, h, w, channels), jnp.float32)
    tree = jax.eval_shape(model.init, jax.random.PRNGKey(0), x)
    return jax.tree_util.tree_map(
        lambda s: tuple(s.shape), jax.eval_shape(model.apply, tree, x)
    )

  got = shapes(detection_net.UNet(), 1)
  ctx.check(got == (*lead, h, w, 3), f'{got} for three classes of {h} x {w}')
  got = shapes(detection_net.UNet(num_classes=c['classes']), 1)
  ctx.check(got == (*lead, h, w, c['classes']), f'{got} for {c}')
  got = shapes(
      alignment_net.GlobalLocalUNet(
          local_output_size=3 * c['steps'], global_output_size=c['out']
      ),
      c['steps'],
  )
  ctx.check(
      tuple(got) == ((*lead, h, w, 3 * c['steps']), (*lead, c['out'])),
      f'{got} for {c}',
  )
  ctx.nontrivial(h != w)


PARTS = [
    Part('batch', case, check_batch, 40, 1500),
    Part('place', lambda: case(True), check_place, 24, 600),
    Part('plain', plain_case, check_plain, 4, 40),
]
WEIGHTS = {'batch': 2.0, 'place': 2.0}

ASSUMPTIONS = [
    'images whose sides the network can halve as often as it has levels',
]
