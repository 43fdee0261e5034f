"""P16: rendered images and masks."""

import dataclasses
import math

from hypothesis import strategies as st
import numpy as np
from pdv import gen
from pdv.core import Part
from putting_dune import imaging
from putting_dune import microscope_utils as mu

PROPERTY = 'P16'
RULE = (
    'Random atoms of mixed elements, inside and around square and oblong'
    ' views, rendered at random sizes with random parameters, compared pixel by'
    ' pixel with a directly evaluated formula; noise stages are judged by what'
    ' each must leave alone and (over many pixels) by its mean and spread.'
    ' Non-trivial: at least two atoms in the view.'
)


@st.composite
def scene(draw, margin=0.0, min_size=0, max_size=12):
  w = draw(gen.real(4.0, 40.0))
  h = draw(st.one_of(st.just(w), gen.real(4.0, 40.0)))
  at = draw(gen.xy(-100, 100))
  grid = draw(
      gen.grid(-margin, 1 + margin, min_size=min_size, max_size=max_size)
  )
  if draw(st.integers(0, 3)) == 0:
    # Views of a sheet hold many more atoms.
    rng = np.random.default_rng(draw(gen.seeds()))
    n = draw(st.sampled_from([70, 150, 300]))
    grid['xy'] = (
        grid['xy'] + rng.uniform(-margin, 1 + margin, size=(n, 2)).tolist()
    )
    grid['z'] = grid['z'] + rng.choice([6, 6, 6, 14], size=n).tolist()
  return {'fov': [at[0], at[1], at[0] + w, at[1] + h], 'grid': grid}


def build(c):
  return gen.make_grid(c['grid']), gen.make_fov(c['fov'])


def off_edges(c):
  """Atoms on the edge between two pixels are moved into one of them."""
  size = c['size']

  def move(t):
    k = t * size
    return (k + 0.37) / size if abs(k - round(k)) < 1e-3 else t

  xy = [[move(u), move(v)] for u, v in c['grid']['xy']]
  return dict(c, grid=dict(c['grid'], xy=xy))


@st.composite
def mask_case(draw):
  c = draw(scene(margin=0.1))
  side = st.one_of(
      st.integers(1, 48), st.just(64), st.sampled_from([120, 200, 300, 512])
  )
  c['w'] = draw(side)
  c['h'] = draw(st.one_of(st.just(c['w']), side))
  c['exponent'] = draw(
      st.one_of(st.none(), gen.real(0.0, 2.5), st.sampled_from([1.0, 1.7]))
  )
  return c


def check_mask(c, ctx):
  grid, fov = build(c)
  kwargs = {} if c['exponent'] is None else {'intensity_exponent': c['exponent']}
  if c['w'] != 512 or c['h'] != 512:
    kwargs['image_dimensions'] = (c['w'], c['h'])
  mask = imaging.generate_grid_mask(grid, fov, **kwargs)
  ctx.check(
      mask.shape == (c['h'], c['w']), f"{c['w']}x{c['h']} mask has {mask.shape}"
  )
  e = 1.7 if c['exponent'] is None else c['exponent']
  x0, y0, x1, y1 = c['fov']
  # Centers of the pixels; the first row of an image is its top.
  px = x0 + (np.arange(c['w']) + 0.5) / c['w'] * (x1 - x0)
  py = y1 - (np.arange(c['h']) + 0.5) / c['h'] * (y1 - y0)
  covered = np.zeros(mask.shape, bool)
  right = np.zeros(mask.shape, bool)
  unsure = np.zeros(mask.shape, bool)
  for (u, v), z in zip(c['grid']['xy'], c['grid']['z']):
    ax, ay = x0 + u * (x1 - x0), y0 + v * (y1 - y0)
    d2 = (px[None] - ax) ** 2 + (py[:, None] - ay) ** 2
    r2 = 0.1 * (z / 6) ** e
    covered |= d2 < r2
    right |= (d2 < r2) & (mask == z)
    unsure |= np.abs(d2 - r2) < 1e-6
  ok = np.where(covered, right, mask == 0) | unsure
  ctx.check(
      bool(ok.all()),
      f'{int((~ok).sum())} of {ok.size} pixels have the wrong label, e.g. at'
      f' {np.argwhere(~ok)[:3].tolist()}',
  )
  ctx.nontrivial(len(np.unique(mask)) >= 2)
  ctx.label('oblong mask' if c['w'] != c['h'] else 'square mask')


@st.composite
def clean_case(draw):
  buffer = draw(st.sampled_from([0.0, 0.0, 0.125, 0.25, 0.5, 1.0]))
  c = draw(scene(margin=max(0.2, 1.1 * buffer), min_size=1))
  c['size'] = draw(st.sampled_from([32, 64, 64, 128, 256, 512]))
  c['buffer'] = buffer
  c['exponent'] = draw(st.one_of(st.none(), gen.real(1.0, 2.5)))
  c['uneven'] = draw(st.booleans())
  if c['uneven']:
    c['buffer'] = draw(st.sampled_from([1 / 32, 3 / 32, 5 / 32]))
  return c


def reference(c, size, buffer, exponent):
  """Sum of Gaussians of fixed width in angstroms; None if too close to call."""
  x0, y0, x1, y1 = c['fov']
  sx = size / (2.15 * (x1 - x0))
  sy = size / (2.15 * (y1 - y0))
  col, row = np.arange(size), np.arange(size)
  out = np.zeros((size, size))
  n = 0
  for (u, v), z in zip(c['grid']['xy'], c['grid']['z']):
    fx, fy = u * size, v * size
    if min(abs(fx - round(fx)), abs(fy - round(fy))) < 1e-6:
      return None, 0
    if not all(-buffer <= t <= 1 + buffer for t in (u, v)):
      continue
    i, j = math.floor(fx), size - 1 - math.floor(fy)

    def kernel(k, sigma):
      reach = int(4 * sigma + 0.5)
      g = np.exp(-(k**2) / (2 * sigma**2))
      return np.where(np.abs(k) <= reach, g, 0.0)

    out += z**exponent * np.outer(kernel(row - j, sy), kernel(col - i, sx))
    n += 1
  if out.max() > 0:
    out = out / out.max()
  return out, n


def check_clean(c, ctx):
  c = off_edges(c)
  grid, fov = build(c)
  e = 1.7 if c['exponent'] is None else c['exponent']
  kwargs = {} if c['exponent'] is None else {'intensity_exponent': e}
  want, n = reference(c, c['size'], c['buffer'], e)
  if want is None:
    return
  kept = np.array(grid.atom_positions)
  got = imaging.generate_clean_image(
      grid, fov, image_size=c['size'], buffer_size=c['buffer'], **kwargs
  )
  # Very sharp or very faint images depend on how a kernel is cut off.
  if want.max() > 0 or not n:
    ctx.close(got, want, 'image', atol=5e-3, rtol=0)
  ctx.check(np.array_equal(kept, grid.atom_positions), 'the grid was changed')
  ctx.nontrivial(n >= 2)
  ctx.label('no atoms' if not n else 'atoms')
  ctx.label(f"buffer {c['buffer']}")


@st.composite
def noise_case(draw):
  return {
      'seed': draw(gen.seeds()),
      'cells': draw(gen.seeds()),
      'amount': draw(st.one_of(st.just(0.0), gen.real(0.01, 0.3))),
      'size': draw(st.sampled_from([64, 96])),
      'cols': draw(st.sampled_from([0, 0, -24, 40, 150])),
      'level': draw(st.one_of(st.just(1.0), gen.real(0.3, 0.99))),
      'units': draw(st.sampled_from([1.0, 1.0, 1e-4, 0.9, 0.95, 50.0])),
      'photons': draw(st.sampled_from([5.0, 20.0, 100.0, 1000.0, 30000.0])),
      'gamma': draw(gen.real(0.2, 5.0)),
      'rate': draw(gen.real(0.0, 1.0)),
  }


def check_noise(c, ctx):
  """Each stage does its own thing and nothing else."""
  n, a, level = c['size'], c['amount'], c['level']
  m = n + c['cols']
  base = np.random.default_rng([c['cells'], 77]).uniform(0.2, 0.8, size=(n, m))
  base[0, 0] = 1.0
  base = base * level
  kept = base.copy()
  rng = lambda: np.random.default_rng(c['seed'])

  def run(name, fn, amount, normalized=False):
    out = fn(base, amount, rng())
    again = fn(base, amount, rng())
    ctx.check(np.array_equal(out, again), f'{name}: same seed, other image')
    ctx.check(np.array_equal(base, kept), f'{name}: the image was changed')
    ctx.check(out.shape == base.shape, f'{name}: shape {out.shape}')
    ctx.check(bool(np.all(np.isfinite(out))), f'{name}: not finite')
    ctx.check(out.max() <= 1 + 1e-9 and out.min() >= 0, f'{name}: out of [0, 1]')
    if amount == 0:
      ctx.close(
          out, base / level if normalized else base, f'{name}: no noise',
          atol=1e-9,
      )
    return out

  count = n * m
  # Gaussian: add and clip.
  var = a * 0.1 * level**2
  if var < 0.004 * level**2:
    out = run('gaussian', imaging.apply_gaussian_noise, var)
    d = (out - base).reshape(-1)[1:]
    if var > 0:
      z = d.mean() / math.sqrt(var / count)
      ctx.check(abs(z) < 6.5, f'gaussian noise is off centre by {z} sd')
      # Clipping only ever reduces the spread, and hardly at this size.
      ctx.check(0.85 < d.var() / var < 1.15, f'variance {d.var()} not {var}')
  # Jitter: every row is rolled, none changed otherwise.
  rate = c['rate'] * 0.45 * m if a else 0.0
  out = run('jitter', imaging.apply_jitter, rate)
  shifts = []
  for i in range(n):
    k = [s for s in range(m) if np.array_equal(np.roll(base[i], s), out[i])]
    ctx.check(len(k) == 1, f'row {i} is not a shifted copy of itself')
    shifts.append(k[0])
  # Hardly any row goes once around.
  z = (np.mean(shifts) - rate) / math.sqrt(max(rate, 1e-9) / n)
  ctx.check(
      abs(z) < 6.5 + 2 * (rate > 0.35 * m) or rate == 0,
      f'rows move {np.mean(shifts)}, not {rate}',
  )
  # Poisson: proportional to the image on average.
  photons = c['photons'] / level
  out = imaging.apply_poisson_noise(base, photons, rng())
  ctx.check(
      np.array_equal(out, imaging.apply_poisson_noise(base, photons, rng())),
      'poisson: same seed, other image',
  )
  ctx.check(out.shape == base.shape and out.min() >= 0, 'poisson: range')
  ctx.close(out.max(), 1.0, 'poisson: brightest pixel')
  slope, offset = np.polyfit(base.reshape(-1), out.reshape(-1), 1)
  # slope * base + offset, with sd at most about sqrt(m) / peak count.
  ctx.check(
      slope > 0 and abs(offset) < 0.25 * slope * level,
      f'poisson: brightness {slope} * image + {offset}',
  )
  # Brightness is the number of photons over the greatest number.
  peak = photons / slope
  ctx.check(
      abs(out - slope * base).max() < 8 * math.sqrt(c['photons']) / peak
      + 0.25 * slope * level,
      'poisson: a pixel is too far from its brightness',
  )
  counts = np.unique(out)
  steps = np.diff(counts)
  if c['photons'] <= 1000:
    ctx.check(
        np.allclose(steps / steps.min(), np.round(steps / steps.min()), atol=1e-2),
        'poisson: not counts',
    )
  # Salt and pepper: some pixels black or white, the others untouched.
  out = run('salt and pepper', imaging.apply_salt_and_pepper_noise, a)
  hit = out != base
  ctx.check(
      bool(np.all(np.isin(out[hit], [0.0, 1.0]))), 'salt and pepper: grey pixel'
  )
  z = (hit.sum() - a * count) / math.sqrt(max(a * (1 - a), 1e-9) * count)
  ctx.check(abs(z) < 6.5, f'salt and pepper: {hit.sum()} of {count} at {a}')
  if a > 0.1:
    salt = (out[hit] == 1).mean()
    ctx.check(0.3 < salt < 0.7, f'{salt} of the noise is salt')
  # Uniform and exponential: add, then normalize.
  for name, fn, mean in (
      ('uniform', imaging.apply_uniform_noise, a / 2),
      ('exponential', imaging.apply_exponential_noise, a),
  ):
    out = run(name, fn, a, normalized=True)
    ctx.close(out.max(), 1.0, f'{name}: brightest pixel')
    # out * peak = base + noise; noise >= 0 with the given mean.
    slope, offset = np.polyfit(base.reshape(-1), out.reshape(-1), 1)
    got = offset / slope
    sd = (a / math.sqrt(12) if name == 'uniform' else a) / math.sqrt(count)
    ctx.check(
        abs(got - mean) < 6.5 * 4.5 * sd + 1e-6,
        f'{name}: mean {got}, expected {mean}',
    )
    noise = out / slope - base
    # The slope is known to about 6 standard deviations over its spread.
    loose = 0.05 * max(1, a) + 6.5 * sd / (0.17 * level) * level
    ctx.check(noise.min() > -loose, f'{name}: negative noise')
    if a:
      z = np.abs((noise - mean).mean(axis=0)).max() * math.sqrt(n) / (
          sd * math.sqrt(count)
      )
      ctx.check(z < 9 + n / 12, f'{name}: the noise of a column is not independent')
      z = np.abs((noise - mean).mean(axis=1)).max() * math.sqrt(m) / (
          sd * math.sqrt(count)
      )
      ctx.check(z < 9 + m / 12, f'{name}: the noise of a row is not independent')
    if name == 'uniform' and a:
      ctx.check(
          noise.max() < a * 1.3 + 1e-6 + loose, f'{name}: noise {noise.max()}'
      )
  # Contrast: a power law, pixel by pixel.
  gamma = c['gamma']
  ctx.close(imaging.apply_contrast(base, gamma), base**gamma, 'contrast')
  ctx.check(np.array_equal(base, kept), 'contrast: the image was changed')
  # Blur: a dot becomes a Gaussian of that width, the same in both directions.
  dot = np.zeros((n, m))
  dot[n // 2, m // 3] = c['units']
  sigma = a * 5 if c['units'] == 1.0 else a * 12
  sigma = min(sigma, m / 3 / 5)
  out = imaging.apply_blur(dot, sigma)
  d2 = (np.arange(n)[:, None] - n // 2) ** 2 + (np.arange(m) - m // 3) ** 2
  want = (
      np.exp(-d2 / (2 * sigma**2)) if sigma > 0 else (d2 == 0).astype(float)
  )
  ctx.close(out, want, 'blur', atol=2e-3, rtol=0)
  # There is nothing to blur in an even image, not even at its edges.
  even = np.full((n, m), c['units'])
  ctx.close(imaging.apply_blur(even, sigma), np.ones((n, m)), 'blur of nothing')
  ctx.nontrivial(a > 0)
  ctx.label('oblong' if c['cols'] else 'square')


@st.composite
def stem_case(draw):
  c = draw(scene(margin=0.15, min_size=0, max_size=8))
  c['size'] = draw(st.sampled_from([64, 128]))
  c['seed'] = draw(gen.seeds())
  c['noisy'] = draw(st.booleans())
  c['buffer'] = draw(st.sampled_from([0.0, 0.125]))
  c['gamma'] = draw(gen.real(0.5, 2.0))
  return c


QUIET = dict(
    gaussian_variance=0.0,
    jitter_rate=0.0,
    poisson_rate_multiplier=200.0,
    salt_and_pepper_amount=0.0,
    blur_amount=0.3,
    contrast_gamma=1.0,
    exponential_lambda=0.0,
    uniform_noise_scale=0.02,
)


def check_stem(c, ctx):
  c = off_edges(c)
  grid, fov = build(c)
  sample = (
      imaging.sample_noisy_image_parameters
      if c['noisy']
      else imaging.sample_image_parameters
  )
  rng = np.random.default_rng(c['seed'])
  first = sample(rng, c['size'])
  second = sample(rng, c['size'])
  ctx.check(
      sample(np.random.default_rng(c['seed']), c['size']) == first,
      'same seed, different parameters',
  )
  ctx.check(first != second, 'parameters do not vary')
  ctx.check(first.image_size == c['size'], f'image size {first.image_size}')
  ctx.check(
      sample(np.random.default_rng(c['seed'])).image_size == 512, 'default size'
  )
  for f in dataclasses.fields(first):
    v = getattr(first, f.name)
    ctx.check(math.isfinite(v) and v >= 0, f'{f.name} is {v}')

  def render(params, seed):
    return imaging.generate_stem_image(
        grid, fov, params, np.random.default_rng(seed), buffer_size=c['buffer']
    )

  kept = np.array(grid.atom_positions)
  for p in (first, dataclasses.replace(first, **QUIET)):
    got = render(p, c['seed'])
    ctx.check(got.shape == (c['size'],) * 2, f'image of shape {got.shape}')
    ctx.check(bool(np.all(np.isfinite(got))), 'image is not finite')
    ctx.check(got.min() >= 0 and got.max() <= 1, 'image out of [0, 1]')
    ctx.check(
        np.array_equal(got, render(p, c['seed'])), 'same seed, different image'
    )
  ctx.check(np.array_equal(kept, grid.atom_positions), 'the grid was changed')
  # Every parameter has a say.
  quiet = dataclasses.replace(first, **QUIET)
  inside = [
      z
      for (u, v), z in zip(c['grid']['xy'], c['grid']['z'])
      if 0.05 < u < 0.95 and 0.05 < v < 0.95
  ]
  if inside:
    for name, value in (
        ('gaussian_variance', 0.01),
        ('jitter_rate', 6.0),
        ('poisson_rate_multiplier', 20.0),
        ('salt_and_pepper_amount', 0.2),
        ('blur_amount', 2.0),
        ('contrast_gamma', 0.4),
        ('exponential_lambda', 0.1),
        ('uniform_noise_scale', 0.3),
        ('intensity_exponent', 0.3),
    ):
      if name == 'intensity_exponent':
        a, _ = reference(c, c['size'], c['buffer'], first.intensity_exponent)
        b, _ = reference(c, c['size'], c['buffer'], value)
        if a is None or np.abs(a - b).max() < 0.1:
          continue
      other = render(
          dataclasses.replace(quiet, **{name: value}), c['seed']
      )
      ctx.check(
          not np.array_equal(other, got), f'{name} makes no difference'
      )
  if c['buffer']:
    e = first.intensity_exponent
    a, _ = reference(c, c['size'], c['buffer'], e)
    b, _ = reference(c, c['size'], 0.0, e)
    if a is not None and np.abs(a - b).max() > 0.2:
      other = imaging.generate_stem_image(
          grid, fov, quiet, np.random.default_rng(c['seed'])
      )
      ctx.check(
          not np.array_equal(other, got), 'atoms around the view are ignored'
      )
      ctx.label('atoms around the view')
  # With hardly any noise the atoms are where they belong.
  want, n = reference(c, c['size'], c['buffer'], first.intensity_exponent)
  if want is None or not n:
    return

  def match(a):
    a, b = a - a.mean(), want - want.mean()
    return (a * b).sum() / math.sqrt((a * a).sum() * (b * b).sum() + 1e-30)

  straight = match(got)
  for name, turned in (
      ('mirrored', got[:, ::-1]),
      ('upside down', got[::-1]),
      ('transposed', got.T),
      ('turned', got[::-1, ::-1]),
  ):
    ctx.check(
        match(turned) <= straight + 0.02,
        f'the image matches its atoms better when {name}:'
        f' {match(turned):.3f} against {straight:.3f}',
    )
  ctx.nontrivial(n >= 2)


PARTS = [
    Part('mask', mask_case, check_mask, 250, 8000),
    Part('clean', clean_case, check_clean, 250, 8000),
    Part('noise', noise_case, check_noise, 40, 1200),
    Part('stem', stem_case, check_stem, 60, 2000),
]

ASSUMPTIONS = [
    'views are 4 to 40 angstroms wide, images at least 32 pixels',
    'atoms do not sit exactly on the edge of a pixel',
]
