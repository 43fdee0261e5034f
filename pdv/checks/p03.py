"""P03: equality and hashing of atomic grids."""

from hypothesis import strategies as st
import numpy as np
from pdv import gen
from pdv.core import Part
from putting_dune import microscope_utils as mu

PROPERTY = 'P03'
RULE = (
    'Grids of well separated atoms, re-ordered, perturbed below or above the'
    ' tolerance, with elements changed or swapped and atoms added or removed;'
    ' non-trivial: at least two atoms.'
)


@st.composite
def grid_and_order(draw, spacing):
  """A few atoms drawn one by one, or hundreds from a seed."""
  if draw(st.integers(0, 3)) < 3:
    g = draw(gen.separated_grid(spacing=spacing))
    return g, draw(st.permutations(range(len(g['z']))))
  n, seed = draw(st.integers(13, 300)), draw(st.integers(0, 99))
  order = np.random.default_rng(seed + 1).permutation(n).tolist()
  return gen.bulk_separated_data(n, seed, spacing), order


@st.composite
def eq_case(draw):
  spacing = draw(st.sampled_from([0.05, 0.7, 5.0]))
  g, order = draw(grid_and_order(spacing))
  n = len(g['z'])
  kind = draw(
      st.sampled_from(
          ['same', 'tiny', 'moved', 'element', 'swap', 'removed', 'added']
      )
  )
  return {
      'grid': g,
      'order': order,
      'kind': kind,
      'which': draw(st.integers(0, n - 1)),
      'other': draw(st.integers(0, n - 1)),
      'angle': draw(gen.real(0, 6.28)),
      'size': draw(gen.real(0.003, 0.009)),
      'f32': draw(st.booleans()),
  }


def check_eq(case, ctx):
  """Equal exactly when the same atoms sit at the same places."""
  xy = gen.arr(case['grid']['xy'])
  z = np.array(case['grid']['z'], dtype=int)
  n = len(z)
  order = np.array(case['order'], dtype=int)
  kind = case['kind']
  ctx.label(kind)
  ctx.nontrivial(n >= 2)
  step = np.array([np.cos(case['angle']), np.sin(case['angle'])])
  xy2, z2 = xy.copy(), z.copy()
  i, j = case['which'], case['other']
  equal = True
  if kind == 'tiny':
    xy2 = xy2 + 5e-4 * step
  elif kind == 'moved':
    xy2[i] += case['size'] * step
    equal = False
  elif kind == 'element':
    z2[i] = 14 if z2[i] != 14 else 6
    equal = False
  elif kind == 'swap':
    z2[i], z2[j] = z2[j], z2[i]
    equal = bool(np.array_equal(z2, z))
  elif kind == 'removed':
    xy2, z2 = np.delete(xy2, i, axis=0), np.delete(z2, i)
    order = np.array([k - (k > i) for k in order if k != i], dtype=int)
    equal = False
  elif kind == 'added':
    xy2 = np.concatenate([xy2, [[999.0, 999.0]]])
    z2 = np.concatenate([z2, [6]])
    order = np.concatenate([order, [n]]).astype(int)
    equal = False
  xy2, z2 = xy2[order], z2[order]
  dtype = np.float32 if case['f32'] and kind != 'tiny' else float
  a = mu.AtomicGrid(xy.astype(dtype), z)
  b = mu.AtomicGrid(xy2.astype(dtype), z2)
  for p, q, name in ((a, b, 'a == b'), (b, a, 'b == a')):
    got = p == q
    ctx.check(
        bool(got) == equal, f'{kind}: {name} is {got}, expected {equal}'
    )
    ctx.check(bool(p != q) != equal, f'{kind}: != disagrees with ==')
  ctx.check(a == a, 'a grid differs from itself')  # pylint: disable=comparison-with-itself
  if kind == 'same':
    ctx.check(hash(a) == hash(b), 'equal grids, different hashes')
    ctx.check(len({a, b}) == 1, 'equal grids are distinct in a set')
    ctx.check({a: 1}[b] == 1, 'equal grid not found as a key')


@st.composite
def hash_case(draw):
  g, order = draw(grid_and_order(0.7))
  n = len(g['z'])
  return {
      'grid': g,
      'order': order,
      'change': draw(st.sampled_from(['element', 'far'])),
      'which': draw(st.integers(0, n - 1)),
  }


def check_hash(case, ctx):
  """Hash: stable, order-free, and sensitive to element and position."""
  xy = gen.arr(case['grid']['xy'])
  z = np.array(case['grid']['z'], dtype=int)
  order = np.array(case['order'], dtype=int)
  ctx.nontrivial(len(z) >= 2)
  a = mu.AtomicGrid(xy, z)
  h = hash(a)
  ctx.check(isinstance(h, int), 'hash is not an int')
  ctx.check(hash(mu.AtomicGrid(xy.copy(), z.copy())) == h, 'unstable hash')
  ctx.check(
      hash(mu.AtomicGrid(xy[order], z[order])) == h, 'hash depends on the order'
  )
  xy2, z2 = xy.copy(), z.copy()
  k = case['which']
  if case['change'] == 'element':
    z2[k] = 14 if z2[k] != 14 else 6
  else:
    # Move an atom radially outwards: its squared distance grows by > 1.
    r = np.linalg.norm(xy2[k])
    d = xy2[k] / r if r > 1e-6 else np.array([1.0, 0.0])
    xy2[k] = xy2[k] + 2 * d
  b = mu.AtomicGrid(xy2, z2)
  ctx.check(hash(b) != h, f"hash blind to a change of {case['change']}")
  ctx.check(a != b, 'changed grid equal')


def check_empty(case, ctx):
  ctx.nontrivial(bool(case))
  a = gen.make_grid({'xy': [], 'z': []})
  b = gen.make_grid({'xy': [], 'z': []})
  c = gen.make_grid({'xy': [[0.0, 1.0]] * case, 'z': [6] * case})
  ctx.check(a == b, 'empty grids differ')
  ctx.check(hash(a) == hash(b), 'empty grids hash differently')
  ctx.check((a == c) == (case == 0) and (c == a) == (case == 0), 'empty vs not')


PARTS = [
    Part('equality', eq_case, check_eq, 400, 8000),
    Part('hash', hash_case, check_hash, 300, 8000),
    Part('empty', lambda: st.integers(0, 3), check_empty, 4, 4, shards=1),
]
ASSUMPTIONS = [
    'atoms are further apart than the tolerance (0.03 angstrom or more here)'
]
