"""P19: the two kinds of lattice site."""

import math

from hypothesis import strategies as st
import numpy as np
from pdv import gen
from pdv import lattice
from pdv.core import Part
from putting_dune import alignment

PROPERTY = 'P19'
RULE = (
    'Sheets in every orientation and order, jittered, with atoms missing, cut'
    ' to windows; the two kinds of site are known by construction. Non-trivial:'
    ' some atom has fewer than three neighbors (so its kind must be inferred).'
)


@st.composite
def case_(draw):
  c = {
      'radius': draw(
          st.one_of(gen.real(5.0, 14.0), gen.real(5.0, 14.0),
                    gen.real(14.0, 26.0))
      ),
      'angle': draw(
          st.one_of(
              gen.real(0.0, 2 * math.pi),
              st.integers(0, 23).map(lambda k: k * math.pi / 12),
          )
      ),
      'shift': draw(st.one_of(gen.xy(-60.0, 60.0), gen.xy(-900.0, 900.0))),
      'perm': draw(gen.seeds()),
      'jitter': draw(st.sampled_from([0.0, 0.0, 0.02, 0.04])),
      'missing': draw(st.sampled_from([0.0, 0.0, 0.03, 0.06])),
      'views': [],
  }
  for _ in range(draw(st.integers(1, 5))):
    c['views'].append({
        'move': draw(gen.xy(-1.0, 1.0)),
        'cut': draw(st.sampled_from([1.0, 1.0, 0.8, 0.65])),
        'seed': draw(gen.seeds()),
    })
  return c


def bonds(p):
  d = np.hypot(*(p[:, None] - p[None]).transpose(2, 0, 1))
  return (d < 1.7) & (d > 0)


def reachable(p):
  """Atoms whose kind follows from atoms with three bonds, and those."""
  adj = bonds(p)
  full = adj.sum(axis=1) >= 3
  seen = full.copy()
  while True:
    more = seen | (adj & seen[None]).any(axis=1)
    if (more == seen).all():
      return full, seen
    seen = more


def view(c, v, p, kind):
  rng = np.random.default_rng([v['seed'], 5])
  keep = np.hypot(*(p - np.asarray(c['shift'])).T) <= c['radius'] * v['cut']
  keep &= rng.uniform(size=len(p)) >= c['missing']
  q, k = p[keep], kind[keep]
  q = q + rng.uniform(-c['jitter'], c['jitter'], q.shape) + v['move']
  order = rng.permutation(len(q))
  return q[order], k[order]


def check(c, ctx):
  p, kind = lattice.sites(c)
  agreed = None
  model = None
  for i, v in enumerate(c['views']):
    q, k = view(c, v, p, kind)
    full, known = reachable(q)
    if full.sum() < 6 or len(q) < 12:
      return
    # Whether the sheet counts as connected is judged from its mean spacing,
    # which a ragged one does not have.
    d = np.sort(
        np.hypot(*(q[:, None] - q[None]).transpose(2, 0, 1)), axis=1
    )[:, 1:4]
    if d.mean() * 1.1 > 2.2:
      return
    kept = q.copy()
    if model is None:
      if len(set(k[full])) < 2:
        return
      model = alignment.get_lattice_clusterer(q)
    got = alignment.classify_lattice_types(q, model)
    ctx.check(np.array_equal(q, kept), 'positions were changed')
    ctx.check(np.shape(got) == (len(q),), f'{np.shape(got)} labels')
    got = np.asarray(got)
    ctx.check(bool(np.all(np.isin(got, [0, 1]))), f'labels {set(got.tolist())}')
    same = got[known] == k[known]
    # Labels are arbitrary, but the same for every view.
    if agreed is None:
      agreed = bool(same.mean() > 0.5)
    wrong = int((same != agreed).sum())
    ctx.check(
        wrong == 0,
        f'view {i}: {wrong} of {len(same)} atoms are given the wrong kind',
    )
    ctx.nontrivial(bool((known & ~full).any()))
  ctx.label(f"jitter {c['jitter']}")


def check_spread(c, ctx):
  """Labels spread from atoms with three bonds, whatever the rest say."""
  p, kind = lattice.sites(c)
  q, k = view(c, c['views'][0], p, kind)
  full, known = reachable(q)
  d = np.sort(
      np.hypot(*(q[:, None] - q[None]).transpose(2, 0, 1)), axis=1
  )[:, 1:4]
  if not full.any() or len(q) < 5 or not 1.56 < d.mean() * 1.1 < 2.2:
    return
  rng = np.random.default_rng(c['perm'])
  start = np.where(full, k, rng.integers(0, 2, size=len(k)))
  got = alignment.propagate_graphene_classes(start.copy(), q)
  ctx.check(
      np.array_equal(np.asarray(got)[known], k[known]),
      f'{int((np.asarray(got) != k)[known].sum())} atoms have the wrong kind',
  )
  ctx.nontrivial(bool((known & ~full).any()))
  # Atoms joined to none of them keep what they had.
  ctx.check(
      np.array_equal(np.asarray(got)[~known], start[~known]),
      'an atom on its own was relabelled',
  )


PARTS = [
    Part('kinds', case_, check, 120, 4000),
    Part('spread', case_, check_spread, 150, 5000),
]

ASSUMPTIONS = [
    'atoms are within 0.06 angstrom of their sites',
    'at least six atoms have all three neighbors',
    'fragments not joined to an atom with three neighbors are not judged',
]
