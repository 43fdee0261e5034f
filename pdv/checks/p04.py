"""P04: geometric primitives."""

import math

from hypothesis import strategies as st
import numpy as np
from pdv import gen
from pdv.core import Part
from putting_dune import geometry

PROPERTY = 'P04'
RULE = (
    'Point sets, angles over several turns and queries; reference results come'
    ' from complex arithmetic and a brute-force distance sort. Non-trivial: at'
    ' least two points (neighbors: at least five atoms).'
)


@st.composite
def rot_case(draw):
  return {
      'xy': draw(
          st.one_of(gen.points(-100, 100, 1, 8), gen.points(-100, 100, 1, 40))
      ),
      'theta': draw(
          st.one_of(
              gen.real(-20, 20),
              st.integers(-8, 8).map(lambda k: k * math.pi / 4),
          )
      ),
      'phi': draw(gen.real(-7, 7)),
  }


def check_rot(case, ctx):
  """Counter-clockwise rotation and angles, against complex numbers."""
  xy = gen.arr(case['xy'])
  t, p = case['theta'], case['phi']
  ctx.nontrivial(len(xy) >= 2 and abs(math.sin(t)) > 1e-3)
  z = (xy[:, 0] + 1j * xy[:, 1]) * np.exp(1j * t)
  want = np.stack([z.real, z.imag], axis=1)
  keep = xy.copy()
  got = geometry.rotate_coordinates(xy, t)
  ctx.close(got, want, 'rotation', atol=1e-9, rtol=1e-9)
  ctx.check(bool(np.array_equal(xy, keep)), 'rotation changed its input')
  ctx.close(
      np.asarray(geometry.jnp_rotate_coordinates(xy, t)),
      want,
      'rotation (jax)',
      atol=1e-3,
      rtol=1e-5,
  )
  ctx.close(
      geometry.rotate_coordinates(got, -t), xy, 'rotation undone', atol=1e-9
  )
  ctx.close(
      geometry.rotate_coordinates(geometry.rotate_coordinates(xy, t), p),
      geometry.rotate_coordinates(xy, t + p),
      'rotations compose',
      atol=1e-8,
  )
  r = np.hypot(xy[:, 0], xy[:, 1])
  ok = r > 1e-6
  ang = geometry.get_angles(xy)
  ctx.check(ang.shape == (len(xy),), f'angles: shape {ang.shape}')
  ctx.close(
      np.stack([r * np.cos(ang), r * np.sin(ang)], axis=1)[ok],
      xy[ok],
      'angle of each coordinate',
      atol=1e-9,
      rtol=1e-9,
  )
  # Rotating by theta adds theta to the angle (mod a turn).
  diff = (geometry.get_angles(got) - ang - t)[ok]
  ctx.close(
      np.cos(diff), np.ones_like(diff), 'rotation advances angles', atol=1e-9
  )
  ctx.check(bool(np.all(np.abs(ang) <= math.pi + 1e-12)), 'angle out of range')


@st.composite
def nn_case(draw):
  if draw(st.integers(0, 3)) < 3:
    g = draw(gen.separated_grid(spacing=1.5, cells=4, min_size=4, max_size=14))
  else:
    g = gen.bulk_separated_data(
        draw(st.integers(15, 900)), draw(st.integers(0, 99)), 1.5
    )
  n = len(g['z'])
  kind = draw(st.sampled_from(['atoms', 'atom', 'free', 'free_one']))
  return {
      'xy': g['xy'],
      'kind': kind,
      'idx': draw(
          st.lists(
              st.integers(0, n - 1),
              min_size=1,
              max_size=draw(st.sampled_from([4, 4, 40])),
          )
      ),
      'free': draw(st.one_of(gen.points(-6, 6, 1, 4), gen.points(-60, 60, 1, 30))),
      'include_self': draw(st.booleans()),
  }


def check_nn(case, ctx):
  """The nearest atoms really are the nearest, nearest first."""
  xy = gen.arr(case['xy'])
  n = len(xy)
  ctx.nontrivial(n >= 5)
  ctx.label(case['kind'])
  single = case['kind'] in ('atom', 'free_one')
  if case['kind'].startswith('atom'):
    query = xy[case['idx']]
  else:
    query = gen.arr(case['free'])
  if single:
    query = query[0]
  include = case['include_self'] or case['kind'].startswith('free')
  keep = xy.copy()
  res = geometry.nearest_neighbors3(xy, query, include_self=include)
  ctx.check(bool(np.array_equal(xy, keep)), 'positions were modified')
  k = 4 if include else 3
  q = np.atleast_2d(query)
  shape = (k,) if single else (len(q), k)
  idx, dist = np.asarray(res.neighbor_indices), np.asarray(
      res.neighbor_distances
  )
  ctx.check(idx.shape == shape and dist.shape == shape, f'shape {idx.shape}')
  idx, dist = idx.reshape(-1, k), dist.reshape(-1, k)
  for row in range(len(q)):
    d = np.sqrt(np.sum((xy - q[row]) ** 2, axis=1))
    want = np.sort(d)[:4] if include else np.sort(d)[1:4]
    ctx.close(dist[row], want, 'neighbor distances', atol=1e-7)
    ctx.check(len(set(idx[row].tolist())) == k, 'a neighbor is repeated')
    ctx.close(d[idx[row]], dist[row], 'index/distance mismatch', atol=1e-7)
    if not include:
      ctx.check(
          bool(np.all(d[idx[row]] > 1e-6)), 'an atom is its own neighbor'
      )


PARTS = [
    Part('rotation', rot_case, check_rot, 400, 10000),
    Part('neighbors', nn_case, check_nn, 300, 8000),
]
ASSUMPTIONS = [
    'without self, queries are atoms of the set; atoms are at least 0.9'
    ' angstrom apart'
]
