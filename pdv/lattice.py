"""Graphene sheets built independently of the code under test."""

import math

from hypothesis import strategies as st
import numpy as np
from pdv import gen

BOND = 1.42


def honeycomb(radius, angle=0.0, shift=(0.0, 0.0)):
  """All honeycomb sites within `radius` of the origin, then moved.

  A site sits at the origin before the shift.  Returns (positions, sublattice).
  """
  a1 = BOND * math.sqrt(3) * np.array([1.0, 0.0])
  a2 = BOND * math.sqrt(3) * np.array([0.5, math.sqrt(3) / 2])
  basis = np.array([[0.0, 0.0], [0.0, BOND]])
  n = int(radius / BOND) + 3
  out, sub = [], []
  for i in range(-n, n + 1):
    for j in range(-n, n + 1):
      for k in range(2):
        p = i * a1 + j * a2 + basis[k]
        if p[0] ** 2 + p[1] ** 2 <= radius**2:
          out.append(p)
          sub.append(k)
  p = np.array(out)
  c, s = math.cos(angle), math.sin(angle)
  p = np.stack([c * p[:, 0] - s * p[:, 1], s * p[:, 0] + c * p[:, 1]], axis=1)
  return p + np.asarray(shift, dtype=float), np.array(sub)


@st.composite
def sheet(draw, min_radius=4.5, max_radius=9.0, shift=40.0):
  """Spec of a small sheet with a silicon at an interior site."""
  return {
      'radius': draw(st.sampled_from([4.5, 6.0, 9.0]))
      if min_radius <= 4.5
      else draw(gen.real(min_radius, max_radius)),
      'angle': draw(gen.real(0.0, 2 * math.pi)),
      'shift': draw(gen.xy(-shift, shift)),
      'si': draw(st.integers(0, 3)),
      'perm': draw(gen.seeds()),
      'f32': False,
  }


def build(spec, permute=True):
  """Returns (positions, atomic numbers) for a sheet spec.

  The silicon is one of the four sites closest to the centre of the patch, all
  of which keep their three neighbors inside the patch.
  """
  p, _ = honeycomb(spec['radius'], spec['angle'], (0.0, 0.0))
  order = np.argsort(np.round(np.hypot(p[:, 0], p[:, 1]), 6), kind='stable')
  z = np.full(len(p), 6)
  z[order[spec['si']]] = 14
  p = p + np.asarray(spec['shift'], dtype=float)
  if permute:
    perm = np.random.default_rng(spec['perm']).permutation(len(p))
    p, z = p[perm], z[perm]
  return p, z


def neighbors3(p, i):
  d = np.hypot(*(p - p[i]).T)
  return np.argsort(d)[1:4]


def sites(spec):
  """Positions of a sheet spec's atoms and which of the two kinds each is."""
  p, kind = honeycomb(spec['radius'], spec['angle'], spec['shift'])
  perm = np.random.default_rng(spec['perm']).permutation(len(p))
  return p[perm], kind[perm]
