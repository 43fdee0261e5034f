"""Strategies that yield plain JSON data, and builders from it to real objects."""

import datetime as dt

from hypothesis import strategies as st
import numpy as np


def real(lo, hi):
  return st.floats(
      min_value=lo,
      max_value=hi,
      allow_nan=False,
      allow_infinity=False,
      allow_subnormal=False,
  )


def nice(lo, hi, den=8):
  """Dyadic numbers: sums and differences of them are exact."""
  return st.integers(int(lo * den), int(hi * den)).map(lambda k: k / den)


def xy(lo, hi):
  return st.tuples(real(lo, hi), real(lo, hi)).map(list)


def points(lo, hi, min_size=0, max_size=12):
  return st.lists(xy(lo, hi), min_size=min_size, max_size=max_size)


def seeds():
  return st.integers(0, 2**31 - 1)


@st.composite
def fov(draw, offset=200.0, min_size=1.0, max_size=120.0):
  """[llx, lly, urx, ury] with positive, independently drawn width/height."""
  x = draw(real(-offset, offset))
  y = draw(real(-offset, offset))
  w = draw(real(min_size, max_size))
  h = draw(st.one_of(st.just(w), real(min_size, max_size)))
  return [x, y, x + w, y + h]


def atomic_number():
  return st.sampled_from([6, 14, 6, 14, 1, 8, 79])


@st.composite
def grid(draw, lo=-50.0, hi=50.0, min_size=0, max_size=12):
  n = draw(st.integers(min_size, max_size))
  return {
      'xy': [draw(xy(lo, hi)) for _ in range(n)],
      'z': [draw(atomic_number()) for _ in range(n)],
  }


def bulk_grid_data(n, seed, lo=-4000.0, hi=4000.0):
  """Many atoms from one seed (positions rounded to 1/1000)."""
  r = np.random.default_rng(seed)
  return {
      'xy': np.round(r.uniform(lo, hi, (n, 2)), 3).tolist(),
      'z': r.integers(1, 119, n).tolist(),
  }


def bulk_separated_data(n, seed, spacing):
  """Many atoms on distinct cells of a large board, jittered."""
  r = np.random.default_rng(seed)
  side = int(np.ceil(np.sqrt(2 * n)))
  cells = r.permutation(side * side)[:n]
  ij = np.stack([cells % side, cells // side], axis=1) - side / 2
  return {
      'xy': ((ij + r.uniform(-0.2, 0.2, (n, 2))) * spacing).tolist(),
      'z': r.choice([6, 14, 1, 8, 79, 92], n).tolist(),
  }


def any_grid(lo=-50.0, hi=50.0, max_size=5, most=400):
  """Mostly a few atoms, sometimes hundreds."""
  small = grid(lo, hi, max_size=max_size)
  wide = -4000.0 if lo <= -50.0 else lo, 4000.0 if hi >= 50.0 else hi
  bulk = st.builds(
      lambda n, s: bulk_grid_data(n, s, *wide),
      st.integers(13, most),
      st.integers(0, 99),
  )
  return st.one_of(small, small, bulk)


@st.composite
def separated_grid(draw, spacing=0.05, cells=8, min_size=1, max_size=12):
  """Atoms at least 0.6*spacing apart: distinct cells, bounded jitter."""
  cell = st.tuples(st.integers(-cells, cells), st.integers(-cells, cells))
  picked = draw(
      st.lists(cell, min_size=min_size, max_size=max_size, unique=True)
  )
  jitter = real(-0.2, 0.2)
  return {
      'xy': [
          [(i + draw(jitter)) * spacing, (j + draw(jitter)) * spacing]
          for i, j in picked
      ],
      'z': [draw(atomic_number()) for _ in picked],
  }


@st.composite
def control(draw, lo=-2.0, hi=3.0):
  return {
      'xy': draw(xy(lo, hi)),
      'dwell': draw(st.one_of(real(0.0, 20.0), st.sampled_from([0.0, 1.5]))),
      'kv': draw(st.one_of(real(0.5, 300.0), st.sampled_from([0.0, 60.0]))),
      'na': draw(st.one_of(real(1e-4, 10.0), st.sampled_from([0.0, 0.1]))),
  }


def arr(values, cols=2, dtype=float):
  return np.asarray(values, dtype=dtype).reshape(-1, cols)


def make_point(p):
  from putting_dune import geometry  # pylint: disable=g-import-not-at-top

  return geometry.Point(float(p[0]), float(p[1]))


def make_fov(f):
  from putting_dune import microscope_utils as mu  # pylint: disable=g-import-not-at-top

  return mu.MicroscopeFieldOfView(
      lower_left=make_point(f[:2]), upper_right=make_point(f[2:])
  )


def make_grid(g, dtype=float):
  from putting_dune import microscope_utils as mu  # pylint: disable=g-import-not-at-top

  return mu.AtomicGrid(
      arr(g['xy'], dtype=dtype), np.asarray(g['z'], dtype=int).reshape(-1)
  )


def make_control(c):
  from putting_dune import microscope_utils as mu  # pylint: disable=g-import-not-at-top

  return mu.BeamControl(
      position=make_point(c['xy']),
      dwell_time=dt.timedelta(seconds=c['dwell']),
      voltage_kv=c['kv'],
      current_na=c['na'],
  )


def fov_array(f):
  return np.array(
      [[f.lower_left.x, f.lower_left.y], [f.upper_right.x, f.upper_right.y]]
  )


def pt(p):
  return np.array([p.x, p.y])
