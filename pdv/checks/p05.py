"""P05: every pristine sheet is graphene with one centred silicon dopant."""

import math

from hypothesis import strategies as st
import numpy as np
from pdv import gen
from pdv.core import Part
from putting_dune import graphene

PROPERTY = 'P05'
RULE = (
    'Generator seeds and sheet sizes (8 to 80 columns); the neighbors of every'
    ' interior atom of every sheet are counted. Non-trivial: at least 50 interior atoms'
    ' (windows: some atoms in and some out).'
)
BOND = 1.42


def interior(positions, radius, centre=(0.0, 0.0)):
  return np.nonzero(np.hypot(*(positions - np.asarray(centre)).T) < radius)[0]


def check_honeycomb(ctx, p, idx, what):
  """Each listed atom has exactly 3 bonds, 1.42 A long and 120 deg apart."""
  d2 = (p[idx, None, 0] - p[None, :, 0]) ** 2 + (
      p[idx, None, 1] - p[None, :, 1]
  ) ** 2
  d = np.sqrt(d2)
  near = d < 1.5 * BOND
  ctx.check(
      bool(np.all(near.sum(axis=1) == 4)),
      f'{what}: an interior atom does not have exactly 3 neighbors'
      f' (counts {sorted(set((near.sum(axis=1) - 1).tolist()))})',
  )
  # Bonds of the middle, of the rim and of some in between.
  r = np.hypot(*p[idx].T)
  order = np.argsort(r)
  few = set(order[:60]) | set(order[-60:]) | set(order[:: max(1, len(idx) // 80)])
  for row in sorted(few):
    i = idx[row]
    j = np.nonzero(near[row])[0]
    j = j[j != i]
    ctx.check(len(j) == 3, f'{what}: duplicated atom')
    v = p[j] - p[i]
    ctx.close(
        np.hypot(v[:, 0], v[:, 1]),
        np.full(3, BOND),
        what + ': bond length',
        atol=1e-4,
    )
    cos = [
        float(v[a] @ v[b]) / BOND**2 for a, b in ((0, 1), (0, 2), (1, 2))
    ]
    ctx.close(cos, [-0.5] * 3, what + ': bond angles', atol=1e-3)


@st.composite
def sheet_case(draw):
  return {
      'seed': draw(gen.seeds()),
      # None is the default.
      'cols': draw(
          st.one_of(
              st.integers(8, 36), st.integers(8, 36), st.integers(37, 80),
              st.none(),
          )
      ),
      'again': draw(gen.seeds()),
  }


def check_sheet(case, ctx):
  """Structure of a freshly reset material."""
  cols = case['cols'] or 50
  kwargs = {'grid_columns': cols} if case['cols'] else {}
  material = graphene.PristineSingleDopedGraphene(**kwargs)
  material.reset(np.random.default_rng(case['seed']))
  p = np.asarray(material.grid.atom_positions)
  z = np.asarray(material.grid.atomic_numbers)
  ctx.check(
      p.ndim == 2 and p.shape[1] == 2 and z.shape == (len(p),), 'bad shapes'
  )
  # The sheet extends about cols/2 bond lengths in each direction.
  idx = interior(p, (cols / 2 - 3) * BOND)
  ctx.nontrivial(len(idx) >= 50)
  ctx.check(len(idx) > 0, 'no atoms around the origin')
  check_honeycomb(ctx, p, idx, 'sheet')
  area = math.pi * ((cols / 2 - 3) * BOND) ** 2
  density = 4 / (3 * math.sqrt(3) * BOND**2)
  if len(idx) > 60:
    ctx.check(
        0.75 < len(idx) / (area * density) < 1.25,
        f'{len(idx)} atoms in an area that should hold {area * density:.0f}',
    )
  # One silicon, the rest carbon, the silicon at the site nearest the origin.
  ctx.check(
      sorted(set(z.tolist())) == [6, 14] and int((z == 14).sum()) == 1,
      f'elements {sorted(set(z.tolist()))}, {int((z == 14).sum())} silicon',
  )
  r = np.hypot(p[:, 0], p[:, 1])
  ctx.check(
      r[z == 14][0] <= r.min() + 1e-9, 'silicon is not the most central atom'
  )
  ctx.close(material.get_silicon_position(), p[z == 14][0], 'silicon position')
  ctx.close(
      graphene.get_silicon_positions(material.grid), p[z == 14], 'silicon list'
  )
  ctx.close(
      graphene.get_single_silicon_position(material.grid),
      p[z == 14][0],
      'single silicon position',
  )
  centre = p.mean(axis=0)
  ctx.check(
      np.hypot(*centre) <= BOND / 2 * math.sqrt(2) + 1e-6,
      f'sheet is {np.hypot(*centre):.3f} A off centre',
  )
  # Same seed, same sheet; resetting replaces the sheet completely.
  other = graphene.PristineSingleDopedGraphene(**kwargs)
  other.reset(np.random.default_rng(case['again']))
  other.reset(np.random.default_rng(case['seed']))
  ctx.check(
      np.array_equal(other.grid.atom_positions, p)
      and np.array_equal(other.grid.atomic_numbers, z),
      'the sheet is not determined by the seed',
  )
  if case['again'] != case['seed']:
    other.reset(np.random.default_rng(case['again']))
    ctx.check(
        not np.array_equal(other.grid.atom_positions, p),
        'two seeds give the same sheet',
    )


@st.composite
def canonical_case(draw):
  return {'cols': draw(st.integers(7, 60)), 'default': draw(st.booleans())}


def check_canonical(case, ctx):
  """The canonical, unrotated sheet with silicon at the origin."""
  if case['default']:
    grid = graphene.canonical_pristine_graphene_with_centered_silicon()
    cols = 10
  else:
    cols = case['cols']
    grid = graphene.canonical_pristine_graphene_with_centered_silicon(cols)
  p, z = grid.atom_positions, grid.atomic_numbers
  idx = interior(p, (cols / 2 - 3) * BOND)
  ctx.nontrivial(len(idx) >= 20)
  check_honeycomb(ctx, p, idx, 'canonical sheet')
  ctx.check(int((z == 14).sum()) == 1, 'not exactly one silicon')
  ctx.check(bool(np.all((z == 14) | (z == 6))), 'foreign element')
  ctx.close(p[z == 14], [[0.0, 0.0]], 'silicon position')
  ctx.check(
      np.hypot(*p.mean(axis=0)) < 1.5 * BOND, 'silicon is not in the middle'
  )
  # Unrotated: every bond of the silicon is along a multiple of 30 degrees and
  # one of them is horizontal.
  v = p[(np.hypot(p[:, 0], p[:, 1]) < 1.5 * BOND) & (z == 6)]
  deg = np.degrees(np.arctan2(v[:, 1], v[:, 0]))
  ctx.close(np.cos(np.radians(deg * 6)), np.ones(3), 'orientation', atol=1e-3)


@st.composite
def window_case(draw):
  return {
      'seed': draw(gen.seeds()),
      'fov': draw(gen.fov(offset=15, max_size=20)),
      'silicon': draw(st.integers(0, 3)),
      # The window may end just beside an atom.
      'beside': draw(st.one_of(st.none(), st.lists(
          st.tuples(
              st.integers(0, 999), st.sampled_from([-1e-2, -1e-4, 1e-4, 1e-2])
          ).map(list),
          min_size=4,
          max_size=4,
      ))),
  }


def check_window(case, ctx):
  """Windows on the material, normalised to the unit square."""
  material = graphene.PristineSingleDopedGraphene(grid_columns=30)
  fov = gen.make_fov(case['fov'])
  ctx.raises(
      RuntimeError,
      lambda: material.get_atoms_in_bounds(fov.lower_left, fov.upper_right),
      'looking at a material that was never reset',
  )
  ctx.raises(
      RuntimeError,
      material.get_silicon_position,
      'asking for the silicon of a material that was never reset',
  )
  material.reset(np.random.default_rng(case['seed']))
  p, z = material.grid.atom_positions, material.grid.atomic_numbers
  corners = list(case['fov'])
  inside = np.nonzero(np.all((p >= corners[:2]) & (p <= corners[2:]), axis=1))[0]
  if case['beside'] and len(inside) > 1:
    sides = [
        p[inside[i % len(inside)]][j % 2] + d
        for j, (i, d) in enumerate(case['beside'])
    ]
    for j in range(2):
      low, high = sorted(sides[j::2])
      if high - low > 0.5:
        corners[j], corners[j + 2] = low, high
        ctx.label('beside an atom')
    fov = gen.make_fov(corners)
  ll, ur = np.array(corners[:2]), np.array(corners[2:])
  keep = np.all((p >= ll) & (p <= ur), axis=1)
  ctx.nontrivial(0 < keep.sum() < len(p))
  got = material.get_atoms_in_bounds(fov.lower_left, fov.upper_right)
  ctx.close(
      got.atom_positions,
      (p[keep] - ll) / (ur - ll),
      'atoms in the window',
      atol=1e-9,
  )
  ctx.check(
      np.array_equal(got.atomic_numbers, z[keep]), 'elements in the window'
  )


@st.composite
def silicon_case(draw):
  n = draw(st.integers(0, 6))
  case = {
      'xy': [draw(gen.xy(-0.5, 1.5)) for _ in range(n)],
      'z': [draw(gen.atomic_number()) for _ in range(n)],
  }
  if draw(st.booleans()):
    # A few, or many, silicons anywhere.
    r = np.random.default_rng(draw(gen.seeds()))
    more = draw(st.integers(2, 30))
    case['xy'] += r.uniform(-0.2, 1.2, (more, 2)).tolist()
    case['z'] += r.choice([6, 14, 14], more).tolist()
  return case


def check_silicon(case, ctx):
  """Finding the silicon: none, one, several."""
  grid = gen.make_grid(case)
  xy = gen.arr(case['xy'])
  is_si = np.array(case['z'], dtype=int) == 14
  found = xy[is_si.reshape(-1)] if len(xy) else xy
  ctx.label(f'silicons={len(found)}')
  ctx.nontrivial(len(found) >= 1 and len(found) < len(xy))
  ctx.close(graphene.get_silicon_positions(grid), found, 'all silicons')
  if not len(found):
    ctx.raises(
        graphene.SiliconNotFoundError,
        lambda: graphene.get_single_silicon_position(grid),
        'a grid without silicon',
    )
    return
  got = np.asarray(graphene.get_single_silicon_position(grid))
  ctx.check(got.shape == (2,), f'shape {got.shape}')
  ctx.check(
      any(np.array_equal(got, f) for f in found), 'not a silicon position'
  )
  d = np.hypot(*(found - 0.5).T)
  ctx.check(
      np.hypot(*(got - 0.5)) <= d.min() + 1e-12,
      'not the silicon nearest the centre of the view',
  )


def check_spread(case, ctx):
  """Orientation and offset of sheets vary over their whole range."""
  ctx.nontrivial()
  n = 240
  angles, offsets = [], []
  for k in range(n):
    p = graphene.generate_pristine_graphene(
        np.random.default_rng([case, k]), num_columns=10
    )
    i = int(np.argmin(np.hypot(p[:, 0], p[:, 1])))
    d = np.hypot(*(p - p[i]).T)
    j = np.argsort(d)[1]
    v = p[j] - p[i]
    angles.append(math.atan2(v[1], v[0]) * 6 % (2 * math.pi))
    offsets.append(p.mean(axis=0))
  # Bond directions repeat every 60 degrees over both sublattices, so 6*angle
  # is uniform; Rayleigh statistic of n points beyond 18 has p = 1.5e-8.
  z = abs(np.mean(np.exp(1j * np.array(angles)))) ** 2 * n
  ctx.check(z < 18, f'orientations are not uniform (Rayleigh {z:.1f})')
  r = np.hypot(*np.array(offsets).T)
  ctx.check(r.max() <= BOND / 2 * math.sqrt(2) + 1e-6, 'offset too large')
  # Mean of x^2+y^2 for a uniform square of half-side b/2 is b^2/6.
  ctx.check(
      abs((r**2).mean() - BOND**2 / 6) < 6 * BOND**2 * 0.106 / math.sqrt(n),
      f'offsets have mean square {(r**2).mean():.3f},'
      f' expected {BOND**2 / 6:.3f}',
  )



PARTS = [
    Part('sheet', sheet_case, check_sheet, 120, 3000),
    Part('canonical', canonical_case, check_canonical, 30, 55, shards=1),
    Part('window', window_case, check_window, 120, 4000),
    Part('silicon', silicon_case, check_silicon, 200, 5000),
    Part('spread', lambda: gen.seeds(), check_spread, 6, 150),
]
ASSUMPTIONS = [
    'sheets have at least 7 columns (smaller ones have no interior)'
]
