"""Observations of graphene, built independently of the code under test."""

import datetime as dt
import math

from hypothesis import strategies as st
import numpy as np
from pdv import gen
from pdv import lattice

GAMMA = 0.9967  # discount per simulated second
BOND = 1.42


def _at(draw, size):
  """Where in the view: at least 3.2 A (or 30 %) from its edges."""
  out = []
  for n in size:
    margin = min(0.3, 3.2 / n)
    out.append(draw(gen.real(margin, 1.0 - margin)))
  return out


@st.composite
def obs_case(draw, square=None, max_silicon=1, min_silicon=1, elapsed=30.0):
  """Spec of one observation; the first silicon sits well inside the view."""
  big = draw(st.integers(0, 4)) == 0
  most = 34.0 if big else 22.0
  w = draw(gen.real(9.0, most))
  if square is None:
    h = draw(st.one_of(st.just(w), gen.real(9.0, most)))
  else:
    h = w if square else draw(gen.real(9.0, most))
  return {
      'radius': 26.0 if big else 12.0,
      'angle': draw(gen.real(0.0, 2 * math.pi)),
      'shift': draw(
          st.one_of(*[gen.xy(-40.0, 40.0)] * 3, gen.xy(-500.0, 500.0))
      ),
      'si': draw(st.integers(0, 3)),
      'perm': draw(gen.seeds()),
      'size': [w, h],
      # Where in the view the silicon sits.
      'at': _at(draw, (w, h)),
      'n_si': draw(st.integers(min_silicon, max_silicon)),
      'elapsed': draw(
          st.one_of(gen.real(0.0, elapsed), st.just(3.5), gen.real(60.0, 900.0))
      ),
      # Some atoms are neither carbon nor silicon.
      'odd': draw(st.integers(0, 7)) == 0,
  }


@st.composite
def changed(draw, case):
  """The observation changed in one way: what a memory of it would get wrong."""
  w, h = case['size']
  what = draw(
      st.sampled_from(
          ['order', 'order', 'pan', 'zoom', 'silicon', 'turn', 'shift', 'same']
      )
  )
  new = dict(case)
  new['changed'] = what
  if what == 'order':
    new['perm'] = draw(gen.seeds())
  elif what == 'pan':
    new['at'] = _at(draw, (w, h))
  elif what == 'zoom':
    most = 34.0 if case['radius'] > 12 else 22.0
    k = draw(gen.real(9.0 / min(w, h), most / max(w, h)))
    new['size'] = [w * k, h * k]
    new['at'] = [min(max(a, 0.3), 0.7) for a in case['at']]
  elif what == 'silicon':
    new['si'] = draw(st.integers(0, 3))
  elif what == 'turn':
    new['angle'] = draw(gen.real(0.0, 2 * math.pi))
  elif what == 'shift':
    new['shift'] = draw(gen.xy(-40.0, 40.0))
  if draw(st.booleans()):
    new['elapsed'] = draw(gen.real(0.0, 30.0))
  return new


class View:
  """An observation together with the truth it was made from."""

  def __init__(self, case):
    p, z = lattice.build(case)
    si = int(np.nonzero(z == 14)[0][0])
    size = np.asarray(case['size'])
    self.lower_left = p[si] - np.asarray(case['at']) * size
    self.size = size
    rel = (p - self.lower_left) / size
    keep = np.all((rel > 1e-6) & (rel < 1 - 1e-6), axis=1)
    self.p, z, rel = p[keep], z[keep], rel[keep]
    z = np.where(z == 14, 6, z)
    si = int(np.argmin(np.hypot(*(self.p - p[si]).T)))
    n = case['n_si']
    order = np.argsort(np.hypot(*(self.p - self.p[si]).T))
    chosen = [si] + [int(i) for i in order[7 : 7 + 3 * max(n - 1, 0) : 3]]
    for i in chosen[:n]:
      z[i] = 14
    if case.get('odd'):
      z[(np.arange(len(z)) % 5 == 2) & (z != 14)] = 7
    self.z, self.rel = z, rel
    self.silicons = np.nonzero(z == 14)[0]
    # The one to follow: nearest to the middle of the view.
    if len(self.silicons):
      d = np.hypot(*(rel[self.silicons] - 0.5).T)
      self.si = int(self.silicons[np.argmin(d)])
      self.ambiguous = len(d) > 1 and np.ptp(np.sort(d)[:2]) < 1e-6
    else:
      self.si, self.ambiguous = None, False
    self.elapsed = case['elapsed']

  @property
  def fov(self):
    from putting_dune import microscope_utils as mu  # pylint: disable=g-import-not-at-top

    return mu.MicroscopeFieldOfView(
        gen.make_point(self.lower_left),
        gen.make_point(self.lower_left + self.size),
    )

  def observation(self, image=None):
    from putting_dune import microscope_utils as mu  # pylint: disable=g-import-not-at-top

    return mu.MicroscopeObservation(
        grid=mu.AtomicGrid(self.rel.copy(), self.z.copy()),
        fov=self.fov,
        controls=(),
        elapsed_time=dt.timedelta(seconds=self.elapsed),
        image=image,
    )

  def neighbors(self, i):
    return lattice.neighbors3(self.p, i)


def seconds(t):
  """A duration as the records keep it: whole microseconds."""
  return dt.timedelta(seconds=t).total_seconds()
