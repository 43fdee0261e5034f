"""P20: from images to atoms."""

import functools
import math
import pathlib
import types

from hypothesis import strategies as st
import numpy as np
from pdv import gen
from pdv.core import Part
from putting_dune import alignment
from putting_dune import atom_detector

PROPERTY = 'P20'
RULE = (
    'Images of non-overlapping discs (two kinds, generated places, sizes and'
    ' contrast), segmented by a stand-in network that knows the grey levels;'
    ' images whose pixels carry their own coordinates, cut to shifted and'
    ' zoomed views. Non-trivial: at least one atom of each kind (or: the two'
    ' views differ and overlap).'
)


# Cutting an old image to a new view.


@st.composite
def crop_case(draw):
  h = draw(st.integers(8, 64))
  side = draw(gen.real(4.0, 40.0))
  zoom = draw(
      st.one_of(
          st.just(1.0), gen.real(0.4, 2.5), st.sampled_from([0.5, 2.0])
      )
  )
  return {
      'h': h,
      'w': draw(st.one_of(st.just(h), st.integers(8, 64))),
      'at': draw(gen.xy(-50, 50)),
      'side': side,
      'zoom': zoom,
      'move': [
          draw(
              st.one_of(
                  st.just(0.0), gen.real(-1.2, 1.2), gen.real(-4.0, 4.0)
              )
          )
          for _ in range(2)
      ],
      'dims': draw(st.sampled_from([2, 3])),
      'whole': draw(st.booleans()),
  }


def check_crop(c, ctx):
  h, w, side, zoom = c['h'], c['w'], c['side'], c['zoom']
  move = np.array(c['move'])
  if c['whole']:
    # A whole number of pixels at the same scale: nothing to interpolate.
    zoom = 1.0
    move = np.array([round(move[0] * w) / w, round(move[1] * h) / h])
  old = np.asarray(c['at'])
  new = old + move * side
  fov = gen.make_fov([*old, *(old + side)])
  new_fov = gen.make_fov([*new, *(new + side * zoom)])
  rows, cols = np.meshgrid(np.arange(h) + 1.0, np.arange(w) + 1.0, indexing='ij')
  image = np.stack([rows, cols], axis=-1)
  if c['dims'] == 2:
    image = rows * 1000 + cols
  kept = image.copy()
  got = np.asarray(alignment.pad_and_crop_images_by_fov(image, fov, new_fov))
  ctx.check(np.array_equal(image, kept), 'the old image was changed')
  ctx.check(
      got.shape == (h, w, 2 if c['dims'] == 3 else 1), f'shape {got.shape}'
  )
  if c['dims'] == 2:
    value = np.round(got[..., 0])
    got = np.stack([np.floor(value / 1000), value % 1000], axis=-1)
  # Where each new pixel's center lies in the old image, in pixels from its
  # upper left corner.
  y = (new[1] + side * zoom) - (np.arange(h) + 0.5) / h * side * zoom
  x = new[0] + (np.arange(w) + 0.5) / w * side * zoom
  r = (old[1] + side - y) / side * h
  q = (x - old[0]) / side * w
  rr, qq = np.meshgrid(r, q, indexing='ij')
  want = np.stack([rr + 0.5, qq + 0.5], axis=-1)
  tol = 1e-6 if c['whole'] else 1.5 + 1.5 * zoom
  size = np.array([h, w])
  inside = np.all((want > 0.5 + tol) & (want < size + 0.5 - tol), axis=-1)
  outside = np.any((want < 0.5 - tol) | (want > size + 0.5 + tol), axis=-1)
  off = np.abs(got - want).max(axis=-1)
  ctx.check(
      not inside.any() or off[inside].max() <= tol,
      f'pixels come from {off[inside].max() if inside.any() else 0:.2f} pixels'
      ' away',
  )
  ctx.check(
      not outside.any() or not got[outside].any(),
      'pixels outside of the old view are not blank',
  )
  ctx.nontrivial(bool(inside.any()) and (zoom != 1.0 or bool(move.any())))
  ctx.label('zoom' if zoom != 1 else 'same size')
  ctx.label('oblong' if h != w else 'square')


# Discs.


@st.composite
def disc_scene(draw, n=256, max_atoms=8, m=None):
  """Discs on a coarse raster, so that they stay apart."""
  m = m or n
  step = 32
  spots = [
      (i, j) for i in range(1, n // step) for j in range(1, m // step)
  ]
  if max_atoms >= 8 and draw(st.integers(0, 4)) == 0:
    max_atoms = 49
  count = draw(st.integers(0, min(max_atoms, len(spots))))
  picked = draw(
      st.lists(
          st.sampled_from(spots), min_size=count, max_size=count, unique=True
      )
  )
  return [
      {
          'row': i * step + draw(st.integers(-4, 4)) + 0.0,
          'col': j * step + draw(st.integers(-4, 4)) + 0.0,
          'kind': draw(st.sampled_from([1, 1, 2])),
          'r': draw(st.sampled_from([4.5, 5.0, 6.0, 7.0, 8.0])),
      }
      for i, j in picked
  ]


def paint(discs, n, m=None):
  m = m or n
  rr, cc = np.mgrid[:n, :m]
  out = np.zeros((n, m), int)
  for d in discs:
    out[(rr - d['row']) ** 2 + (cc - d['col']) ** 2 <= d['r'] ** 2] = d['kind']
  return out


def places(discs, n, m=None, kind=None):
  """Where the discs are, with (0, 0) the lower left and (1, 1) the upper right."""
  m = m or n
  return np.array(
      [
          [(d['col'] + 0.5) / m, 1 - (d['row'] + 0.5) / n]
          for d in discs
          if kind is None or d['kind'] == kind
      ]
  ).reshape(-1, 2)


def same_places(ctx, got, want, tol, what):
  got = np.asarray(got, float)
  ctx.check(
      got.shape == want.shape, f'{what}: {len(got)} found, {len(want)} are there'
  )
  if not len(want):
    return
  d = np.abs(got[:, None] - want[None]).max(axis=-1)
  ctx.check(
      sorted(d.argmin(axis=1).tolist()) == list(range(len(want)))
      and d.min(axis=1).max() <= tol,
      f'{what}: found {got.tolist()}, expected {want.tolist()}',
  )


# The detector.


@st.composite
def detector_case(draw):
  return {
      'discs': draw(disc_scene()),
      'specks': draw(
          st.lists(
              st.tuples(st.integers(0, 3), st.integers(1, 7)),
              max_size=2,
              unique=True,
          )
      ),
      'factor': draw(st.sampled_from([1, 2, 3, 8])),
      'scale': draw(gen.real(0.1, 300.0)),
      'offset': draw(gen.real(-5.0, 100.0)),
      'margin': draw(st.sampled_from([25.0, 60.0, 120.0])),
      'dtype': draw(st.sampled_from(['float32', 'float64', 'uint8'])),
      'blank': draw(st.integers(0, 7)) == 0,
      'before': draw(st.booleans()),
  }


def network(margin, seen):
  """Tells the three grey levels 0, 1/2 and 1 apart."""
  import tensorflow as tf  # pylint: disable=g-import-not-at-top

  def run(preprocessed_inputs_0):
    x = preprocessed_inputs_0
    # As a saved model does.
    if tf.is_tensor(x) and x.dtype != tf.float32:
      raise ValueError(f'expected a float tensor, got {x.dtype}')
    x = np.asarray(x, np.float32)
    seen.append(x)
    level = np.clip(np.round(x[..., 0] * 2), 0, 2).astype(int)
    return {'output_0': tf.constant(np.eye(3, dtype=np.float32)[level] * margin)}

  return types.SimpleNamespace(signatures={'serving_default': run})


def check_detector(c, ctx):
  grey = paint(c['discs'], 256)
  # Single bright pixels between the discs.
  specks = [(i * 64 + 16, j * 32 + 16) for i, j in c['specks']]
  for i, j in specks:
    grey[i, j] = 1
  # Both ends of the scale are always there.
  grey[0, 0] = 0
  if not (grey == 2).any():
    grey[255, 255] = 2
    corner = True
  else:
    corner = False
  k = c['factor']
  image = np.repeat(np.repeat(grey, k, axis=0), k, axis=1) / 2.0
  if c['dtype'] == 'uint8':
    image = (image * 200 + 7).astype(np.uint8)[..., None]
  else:
    image = (image * c['scale'] + c['offset']).astype(c['dtype'])[..., None]
  if c['blank']:
    image = np.full_like(image, image[0, 0, 0])
  kept = image.copy()
  detector = atom_detector.AtomDetector(model_path=pathlib.Path('/nonexistent'))
  seen = []
  detector.__dict__['model'] = network(c['margin'], seen)
  if c['before']:
    # Another image went before.
    detector(np.where(np.mgrid[:256, :256][0] < 99, 9.0, 0.0)[..., None])
    seen.clear()
  grid = detector(image)
  ctx.check(np.array_equal(image, kept), 'the image was changed')
  ctx.check(seen[0].shape == (256, 256, 1), f'network fed {seen[0].shape}')
  if c['blank']:
    ctx.check(not seen[0].any(), 'the network is fed something for no contrast')
    ctx.check(grid.atom_positions.shape == (0, 2), 'atoms in a blank image')
    ctx.label('blank')
    return
  ctx.check(
      abs(seen[0].min()) < 1e-6 and abs(seen[0].max() - 1) < 1e-6,
      'the network is not fed an image from 0 to 1',
  )
  p = np.asarray(grid.atom_positions, dtype=float)
  z = np.asarray(grid.atomic_numbers)
  ctx.check(p.ndim == 2 and p.shape[1:] == (2,), f'positions {p.shape}')
  ctx.check(z.shape == (len(p),), f'{z.shape} elements for {len(p)} atoms')
  ctx.check(np.issubdtype(z.dtype, np.integer), f'elements of type {z.dtype}')
  ctx.check(bool(np.all(np.isin(z, [6, 14]))), f'elements {set(z.tolist())}')
  # Specks may or may not count, but only where they are.
  spots = np.array(
      [[(j + 0.5) / 256, 1 - (i + 0.5) / 256] for i, j in specks]
      + ([[255.5 / 256, 0.5 / 256]] if corner else [])
  ).reshape(-1, 2)
  discs = np.concatenate([places(c['discs'], 256), spots])
  speck = np.zeros(len(p), bool)
  for i, q in enumerate(p):
    if len(discs):
      speck[i] = np.abs(discs - q).max(axis=1).argmin() >= len(c['discs'])
      if speck[i]:
        ctx.check(
            np.abs(spots - q).max(axis=1).min() < 2 / 256,
            f'an atom at {q} where there is nothing',
        )
    else:
      ctx.check(False, f'an atom at {q} in an empty image')
  for kind, number in ((1, 6), (2, 14)):
    same_places(
        ctx,
        p[(z == number) & ~speck],
        places(c['discs'], 256, kind=kind),
        3 / 256,
        'carbon' if kind == 1 else 'silicon',
    )
  kinds = {d['kind'] for d in c['discs']}
  ctx.nontrivial(len(kinds) == 2 or len(c['discs']) >= 3)
  ctx.label(f'{len(kinds)} kinds')
  if specks:
    ctx.label('specks')


# The aligner's reading of its network.


@st.composite
def reading_case(draw):
  n = draw(st.sampled_from([128, 192, 256]))
  m = draw(st.one_of(st.just(n), st.sampled_from([128, 192, 256])))
  return {
      'n': n,
      'm': m,
      'discs': draw(disc_scene(n, m=m)),
      'buffer': draw(st.one_of(st.none(), st.sampled_from([0.0, 0.1, 0.3]))),
      'sure': draw(gen.real(0.4, 1.0)),
  }


def check_reading(c, ctx):
  n, m = c['n'], c['m']
  classes = paint(c['discs'], n, m)
  kept = classes.copy()
  for kind in (1, 2):
    got = alignment.ImageAligner.compute_centroids(classes, kind)
    same_places(
        ctx,
        np.array(got).reshape(-1, 2),
        places(c['discs'], n, m, kind),
        2.1 / min(n, m),
        f'centroids of kind {kind}',
    )
  ctx.check(np.array_equal(classes, kept), 'the classes were changed')
  # A single pixel is no atom.
  speck = np.zeros((n, m), int)
  speck[n // 2, m // 3] = 1
  for erode in (0, 1):
    got = np.array(
        alignment.ImageAligner.compute_centroids(speck, 1, erode_iters=erode)
    ).reshape(-1, 2)
    at = [(m // 3 + 0.5) / m, 1 - (n // 2 + 0.5) / n]
    ctx.check(
        all(np.abs(q - at).max() < 2 / min(n, m) for q in got),
        f'an atom at {got.tolist()}, the only pixel is at {at}',
    )
  probs = np.where(
      np.eye(3)[classes] > 0, c['sure'], (1 - c['sure']) / 2
  ).astype(np.float32)
  kwargs = {} if c['buffer'] is None else {'buffer_width': c['buffer']}
  grid = alignment.ImageAligner.process_detection_predictions(probs, **kwargs)
  edge = 0.05 if c['buffer'] is None else c['buffer']
  p = np.asarray(grid.atom_positions, dtype=float)
  z = np.asarray(grid.atomic_numbers)
  ctx.check(p.ndim == 2 and p.shape[1:] == (2,), f'positions {p.shape}')
  ctx.check(z.shape == (len(p),), f'{z.shape} elements')
  tol = 2.1 / min(n, m)
  ctx.check(
      bool(np.all((p > edge - 1e-9) & (p < 1 - edge + 1e-9))),
      'an atom in the edge that is to be ignored',
  )
  for kind, number in ((1, 6), (2, 14)):
    want = places(c['discs'], n, m, kind)
    clear = np.all((want > edge + tol) & (want < 1 - edge - tol), axis=1)
    maybe = np.all((want > edge - tol) & (want < 1 - edge + tol), axis=1)
    got = p[z == number]
    d = np.abs(got[:, None] - want[None]).max(axis=-1).reshape(len(got), len(want))
    if len(got):
      ctx.check(
          len(want) > 0 and d.min(axis=1).max() <= 1.5 * tol,
          f'{number}: found {got.tolist()}, drawn {want.tolist()}',
      )
      owner = d.argmin(axis=1)
      ctx.check(len(set(owner.tolist())) == len(owner), 'an atom found twice')
      ctx.check(bool(maybe[owner].all()), 'an atom found in the edge')
      missing = clear.copy()
      missing[owner] = False
    else:
      missing = clear
    ctx.check(not missing.any(), f'{int(missing.sum())} atoms not found')
  kinds = {d['kind'] for d in c['discs']}
  ctx.nontrivial(len(kinds) == 2)
  ctx.label('oblong' if n != m else 'square')


# The aligner's calls.


@st.composite
def calls_case(draw):
  return {
      'history': draw(st.sampled_from([2, 3, 4, 5, 5, 7])),
      'frames': [
          {
              'discs': draw(disc_scene(512, max_atoms=3)),
              'at': draw(
                  st.one_of(
                      st.tuples(st.integers(-6, 6), st.integers(-6, 6)),
                      st.tuples(st.integers(-40, 40), st.integers(-40, 40)),
                  )
              ),
              'drift': draw(gen.xy(-2, 2)),
              'scale': draw(gen.real(0.5, 200.0)),
              'blank': draw(st.integers(0, 9)) == 0,
          }
          for _ in range(draw(st.sampled_from([1, 2, 3, 4, 5, 9])))
      ],
      'resets': draw(
          st.dictionaries(
              st.integers(1, 5).map(str),
              st.sampled_from([None, 2, 3, 6]),
              max_size=2,
          )
      ),
      'index': draw(st.sampled_from([-1, -1, 0, -2, 1])),
      'given': draw(st.booleans()),
      'size': draw(st.sampled_from([512, 1024])),
      'lazy': draw(st.booleans()),
  }


def check_calls(c, ctx):
  """What the network is fed, and what is made of its answer."""
  import tensorflow as tf  # pylint: disable=g-import-not-at-top
  from putting_dune import microscope_utils as mu  # pylint: disable=g-import-not-at-top

  n = c['history']
  aligner = alignment.ImageAligner(model_path=pathlib.Path('/nonexistent'))
  aligner.adaptive_normalization = False
  fed = []
  answer = {}

  def run(image):
    if tf.is_tensor(image) and image.dtype != tf.float32:
      raise ValueError(f'expected a float tensor, got {image.dtype}')
    x = np.asarray(image)
    fed.append(x)
    steps = x.shape[-1]
    # The answer for every time step but the wanted one is nonsense.
    wanted = c['index'] % steps
    logits = np.zeros((512, 512, steps, 3), np.float32)
    logits[..., 0] = 9.0
    logits[:, :, wanted] = np.eye(3, dtype=np.float32)[answer['classes']] * 20
    drift = np.full((steps, 2), 99.0, np.float32)
    drift[wanted] = answer['drift']
    return {
        'output_0': tf.constant(logits.reshape(512, 512, steps * 3)),
        'output_1': tf.constant(drift.reshape(steps * 2)),
    }

  aligner.model = types.SimpleNamespace(signatures={'serving_default': run})
  if not c['lazy']:
    aligner.reset(n)
  else:
    aligner.history_length = n
  past = []
  for t, f in enumerate(c['frames']):
    if str(t) in c['resets']:
      # The history may get another length.
      n = c['resets'][str(t)] or n
      aligner.reset(n)
      past = []
    classes = paint(f['discs'], 512)
    raw = (classes / 2.0 * f['scale'] + 3.0).astype(np.float64)
    raw[0, 0] = 3.0 + f['scale']  # The scale is the same for all.
    raw[0, 1] = 3.0
    if f['blank']:
      raw[:] = 3.0
      classes = np.zeros_like(classes)
    if c['size'] == 1024:
      raw = np.repeat(np.repeat(raw, 2, axis=0), 2, axis=1)
    kept = raw.copy()
    # Views a whole number of pixels apart.
    fov = gen.make_fov(
        [f['at'][0] * 0.5, f['at'][1] * 0.5, f['at'][0] * 0.5 + 16.0, f['at'][1] * 0.5 + 16.0]
    )
    answer.update(classes=classes, drift=np.array(f['drift'], np.float32))
    given = (
        mu.AtomicGridMicroscopeFrame(
            mu.AtomicGrid(np.array([[0.2, 0.1 * t]]), np.array([14]))
        )
        if c['given']
        else None
    )
    grid, drift, probs = aligner(raw, fov, given, time_index=c['index'])
    ctx.check(np.array_equal(raw, kept), 'the image was changed')
    x = fed[-1]
    ctx.check(x.shape == (512, 512, n), f'network fed {x.shape}, history {n}')
    now = np.clip(classes / 2.0, 0, 1)
    now[0, 0], now[0, 1] = 1.0, 0.0
    discs = f['discs']
    if f['blank']:
      now[:] = 0.0
      discs = []
    ctx.close(x[..., -1], now, 'the latest image', atol=1e-5)
    # Earlier ones, oldest first, moved to where they are in the new view.
    for k in range(n - 1):
      back = n - 1 - k
      want = np.zeros((512, 512))
      if back <= len(past):
        old, at = past[-back]
        dx = (f['at'][0] - at[0]) * 16
        dy = (f['at'][1] - at[1]) * 16
        r, q = np.mgrid[:512, :512]
        r, q = r - dy, q + dx
        ok = (r >= 0) & (r < 512) & (q >= 0) & (q < 512)
        want[ok] = old[r[ok], q[ok]]
      ctx.close(x[..., k], want, f'the image {back} before', atol=1e-5)
    ctx.close(drift, f['drift'], 'drift', atol=1e-6)
    ctx.close(
        np.asarray(probs), np.eye(3)[classes], 'label probabilities', atol=1e-4
    )
    p = np.asarray(grid.atom_positions)
    if given is not None:
      ctx.close(p, [[0.2, 0.1 * t]], 'the grid that was handed in')
    else:
      same_places(
          ctx, p[np.asarray(grid.atomic_numbers) == 14],
          places(discs, 512, kind=2), 3 / 512, 'silicon',
      )
      same_places(
          ctx, p[np.asarray(grid.atomic_numbers) == 6],
          places(discs, 512, kind=1), 3 / 512, 'carbon',
      )
    past.append((now, f['at']))
  ctx.nontrivial(len(c['frames']) >= 2)


@st.composite
def units_case(draw):
  return {
      'discs': draw(disc_scene(512, max_atoms=3)),
      'noise': draw(gen.real(0.0, 0.2)),
      'seed': draw(gen.seeds()),
      'units': draw(
          st.lists(
              st.one_of(
                  st.sampled_from(['uint8', 'uint16', 'blank']),
                  st.tuples(gen.real(1e-2, 5000.0), gen.real(-2.0, 100.0)).map(
                      list
                  ),
              ),
              min_size=1,
              max_size=3,
          )
      ),
      'axis': draw(st.booleans()),
  }


def check_units(c, ctx):
  """As it is constructed, the aligner takes images in whatever units."""
  import tensorflow as tf  # pylint: disable=g-import-not-at-top

  rng = np.random.default_rng(c['seed'])
  classes = paint(c['discs'], 512)
  scene = classes / 2.0 * (1 - c['noise'])
  scene = scene + c['noise'] * rng.random(scene.shape)
  scene[0, 0], scene[0, 1] = 1.0, 0.0
  fed = []

  def run(image):
    fed.append(np.asarray(image)[..., -1])
    steps = np.shape(image)[-1]
    return {
        'output_0': tf.zeros((512, 512, steps * 3)),
        'output_1': tf.zeros((steps * 2,)),
    }

  fov = gen.make_fov([0.0, 0.0, 16.0, 16.0])
  for unit in [[1.0, 0.0]] + c['units']:
    if unit == 'blank':
      image = np.full((512, 512), 7.0)
    elif unit == 'uint8':
      image = np.round(scene * 255).astype(np.uint8)
    elif unit == 'uint16':
      image = np.round(scene * 40000 + 900).astype(np.uint16)
    else:
      image = scene * unit[0] + unit[1]
    if c['axis']:
      image = image[..., None]
    aligner = alignment.ImageAligner(model_path=pathlib.Path('/nonexistent'))
    aligner.model = types.SimpleNamespace(signatures={'serving_default': run})
    _, drift, _ = aligner(image, fov)
    ctx.close(drift, np.zeros(2), 'drift')
    x = fed[-1]
    ctx.check(bool(np.all(np.isfinite(x))), f'{unit}: not finite')
    if unit == 'blank':
      ctx.check(np.ptp(x) < 1e-3, 'a blank image is not fed as one')
      continue
    ctx.check(
        abs(x.min()) < 1e-5 and abs(x.max() - 1) < 1e-5,
        f'{unit}: fed values from {x.min()} to {x.max()}',
    )
    off = float(np.mean(np.abs(x - fed[0])))
    ctx.check(
        off < 0.03, f'the image in units {unit} is fed with changes of {off:.3g}'
    )
    inside = classes == 2
    if inside.any() and c['noise'] < 0.1:
      ctx.check(
          x[inside].mean() > x[classes == 0].mean() + 0.1,
          f'{unit}: silicon is not brighter than nothing',
      )
  ctx.nontrivial(len(c['discs']) > 0 and len(set(map(str, c['units']))) > 1)
  ctx.label('with channels' if c['axis'] else 'without channels')


PARTS = [
    Part('units', units_case, check_units, 12, 300),
    Part('crop', crop_case, check_crop, 300, 10000),
    Part('detector', detector_case, check_detector, 120, 4000),
    Part('reading', reading_case, check_reading, 150, 5000),
    Part('calls', calls_case, check_calls, 80, 600),
]

ASSUMPTIONS = [
    'views are square (as the code states), images need not be',
    'the network that stands in for the detector is sure of every pixel',
    'discs are at least 16 pixels apart and of 4.5 to 8 pixels radius',
    'the trained networks themselves are not part of the repository',
]
