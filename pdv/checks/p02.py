"""P02: microscope frame <-> material frame."""

from hypothesis import strategies as st
import numpy as np
from pdv import gen
from pdv.core import Part
from putting_dune import microscope_utils as mu

PROPERTY = 'P02'
RULE = (
    'Fields of view with independent offsets, widths and heights and point'
    ' sets, grids and beam controls inside and outside them; bounds selection'
    ' uses dyadic coordinates so that atoms exactly on an edge occur.'
    ' Non-trivial: non-square field of view away from the origin with at least'
    ' one point (bounds: some atoms kept and some dropped).'
)


@st.composite
def convert_case(draw):
  return {
      'fov': draw(
          st.one_of(gen.fov(), gen.fov(offset=5000.0, max_size=1500.0))
      ),
      'grid': draw(gen.any_grid(-1.5, 2.5, max_size=8, most=150)),
      'control': draw(gen.control()),
      'to_material': draw(st.booleans()),
      'f32': draw(st.booleans()),
  }


def check_convert(case, ctx):
  """All representations agree with the affine map and with each other."""
  f = case['fov']
  fov = gen.make_fov(f)
  ll, ur = np.array(f[:2]), np.array(f[2:])
  size = ur - ll
  rel = gen.arr(case['grid']['xy'])
  ctx.nontrivial(
      len(rel) > 0 and abs(size[0] - size[1]) > 1e-3 and np.abs(ll).min() > 1e-3
  )
  scale = np.abs(ll).max() + np.abs(size).max() * 3
  if case['to_material']:
    convert, invert = (
        fov.microscope_frame_to_material_frame,
        fov.material_frame_to_microscope_frame,
    )
    source = rel
    want = rel * size + ll
    cpos = np.array(case['control']['xy'])
    cwant = cpos * size + ll
    tol, itol = scale * 1e-12, 1e-12 * scale / size.min() * 4
    corners = (np.array([[0.0, 0.0], [1.0, 1.0]]), np.stack([ll, ur]))
  else:
    invert, convert = (
        fov.microscope_frame_to_material_frame,
        fov.material_frame_to_microscope_frame,
    )
    source = rel * size + ll
    want = rel
    cwant = np.array(case['control']['xy'])
    cpos = cwant * size + ll
    itol, tol = scale * 1e-12, 1e-12 * scale / size.min() * 4
    corners = (np.stack([ll, ur]), np.array([[0.0, 0.0], [1.0, 1.0]]))

  # Arrays, whole and row by row.
  before = source.copy()
  got = convert(source)
  ctx.check(bool(np.array_equal(source, before)), 'input array was modified')
  ctx.close(got, want, 'array', atol=tol)
  ctx.close(invert(got), source, 'array there and back', atol=itol)
  for i in list(range(len(source)))[:10] + list(range(len(source)))[10:][-2:]:
    one = convert(source[i])
    ctx.close(one, want[i], 'single coordinate', atol=tol)
    p = convert(gen.make_point(source[i]))
    ctx.close(gen.pt(p), want[i], 'point', atol=tol)
    ctx.close(
        gen.pt(invert(p)), source[i], 'point there and back', atol=itol
    )
  ctx.close(convert(corners[0]), corners[1], 'corners', atol=tol)

  # Grids.
  dtype = np.float32 if case['f32'] else float
  grid = mu.AtomicGrid(
      source.astype(dtype), np.asarray(case['grid']['z'], dtype=int)
  )
  kept = grid.atom_positions.copy()
  g = convert(grid)
  loose = 1e-6 * scale if case['f32'] else 0.0
  loose_n = loose if case['to_material'] else 4 * loose / size.min()
  ctx.close(g.atom_positions, want, 'grid', atol=tol + loose_n)
  ctx.check(
      np.asarray(g.atomic_numbers).tolist() == case['grid']['z'],
      'grid: atomic numbers changed',
  )
  ctx.check(
      bool(np.array_equal(grid.atom_positions, kept)), 'input grid was modified'
  )
  back = invert(g)
  ctx.close(
      back.atom_positions, source, 'grid there and back', atol=itol + 4 * loose
      + (4 * loose / size.min())
  )
  ctx.check(
      np.asarray(back.atomic_numbers).tolist() == case['grid']['z'],
      'grid there and back: atomic numbers changed',
  )

  # Beam controls keep everything but the position.
  spec = dict(case['control'], xy=cpos.tolist())
  control = gen.make_control(spec)
  c = convert(control)
  ctx.close(gen.pt(c.position), cwant, 'control', atol=tol * 3)
  for name in ('dwell_time', 'voltage_kv', 'current_na'):
    ctx.check(
        getattr(c, name) == getattr(control, name), f'control: {name} changed'
    )
  c = invert(c)
  ctx.close(gen.pt(c.position), cpos, 'control there and back', atol=itol * 3)
  for name in ('dwell_time', 'voltage_kv', 'current_na'):
    ctx.check(
        getattr(c, name) == getattr(control, name),
        f'control there and back: {name} changed',
    )
  ctx.raises(
      (NotImplementedError, TypeError),
      lambda: convert('a string'),
      'converting something with no position',
  )


@st.composite
def fov_case(draw):
  return {
      'fov': draw(
          st.one_of(gen.fov(), gen.fov(offset=5000.0, max_size=1500.0))
      ),
      'by': draw(st.one_of(gen.xy(-100, 100), gen.xy(-3000, 3000))),
      'size': [draw(gen.real(0.1, 200)), draw(gen.real(0.1, 200))],
      'zoom': draw(gen.real(0.05, 20)),
      'rel': draw(gen.xy(-1, 2)),
      'control': draw(gen.control(-30, 30)),
      'grid': draw(gen.any_grid(max_size=4, most=150)),
  }


def check_fov(case, ctx):
  """Moving, resizing and zooming a field of view."""
  f = np.array(case['fov'])
  fov = gen.make_fov(case['fov'])
  ll, ur = f[:2], f[2:]
  size, centre = ur - ll, (ll + ur) / 2
  by = np.array(case['by'])
  ctx.nontrivial(abs(size[0] - size[1]) > 1e-3 and np.abs(by).min() > 1e-3)
  tol = dict(rtol=1e-9, atol=1e-9)
  ctx.close([fov.width, fov.height], size, 'width and height', **tol)
  ctx.close(gen.pt(fov.offset), centre, 'centre', **tol)

  moved = fov.shift(gen.make_point(by))
  ctx.close(
      gen.fov_array(moved), np.stack([ll + by, ur + by]), 'shifted', **tol
  )
  rel = np.array(case['rel'])
  ctx.close(
      moved.microscope_frame_to_material_frame(rel),
      fov.microscope_frame_to_material_frame(rel) + by,
      'a fixed microscope position follows the shift',
      **tol,
  )
  resized = fov.resize(*case['size'])
  half = np.array(case['size']) / 2
  ctx.close(
      gen.fov_array(resized),
      np.stack([centre - half, centre + half]),
      'resized',
      **tol,
  )
  zoomed = fov.zoom(case['zoom'])
  half = size / case['zoom'] / 2
  ctx.close(
      gen.fov_array(zoomed),
      np.stack([centre - half, centre + half]),
      'zoomed',
      **tol,
  )
  ctx.close(
      gen.fov_array(fov), np.stack([ll, ur]), 'original field of view', **tol
  )
  # Shifting the things inside it.
  control = gen.make_control(case['control'])
  c = control.shift(gen.make_point(by))
  ctx.close(gen.pt(c.position), np.array(case['control']['xy']) + by, 'control')
  ctx.check(
      (c.dwell_time, c.voltage_kv, c.current_na)
      == (control.dwell_time, control.voltage_kv, control.current_na),
      'shifting a control changed its other settings',
  )
  unshifted = gen.make_grid(case['grid'])
  g = unshifted.shift(by)
  ctx.close(
      unshifted.atom_positions,
      gen.arr(case['grid']['xy']),
      'original of a shifted grid',
      atol=0,
  )
  ctx.close(g.atom_positions, gen.arr(case['grid']['xy']) + by, 'shifted grid')
  ctx.check(
      np.asarray(g.atomic_numbers).tolist() == case['grid']['z'],
      'shifting a grid changed its elements',
  )


@st.composite
def bounds_case(draw):
  c = lambda: draw(gen.nice(-6, 6, 2))
  w, h = draw(gen.nice(0.5, 8, 2)), draw(gen.nice(0.5, 8, 2))
  x, y = c(), c()
  n = draw(st.integers(0, 14))
  atoms = []
  tol = draw(st.sampled_from([0, -0.25, 0.5, -0.5, 1.5, -1.0, 2]))
  for _ in range(n):
    # Bias towards the edges of the (widened) field of view.
    ax = draw(
        st.one_of(
            gen.nice(-9, 12, 4),
            st.sampled_from([x, x + w, x - tol, x + w + tol, x + w / 2]),
        )
    )
    ay = draw(
        st.one_of(
            gen.nice(-9, 12, 4),
            st.sampled_from([y, y + h, y - tol, y + h + tol, y + h / 2]),
        )
    )
    atoms.append([ax, ay])
  z = [draw(gen.atomic_number()) for _ in range(n)]
  if draw(st.integers(0, 3)) == 3:
    # Many more atoms around, on a dyadic raster (edges included).
    r = np.random.default_rng(draw(st.integers(0, 99)))
    more = draw(st.integers(50, 400))
    atoms = atoms + (r.integers(-36, 49, (more, 2)) / 4).tolist()
    z = z + r.integers(1, 119, more).tolist()
  return {
      'fov': [x, y, x + w, y + h],
      'xy': atoms,
      'z': z,
      'tol': tol,
      'default': draw(st.integers(0, 3)) == 0,
  }


def check_bounds(case, ctx):
  """Exactly the atoms inside, in order, positions untouched."""
  fov = gen.make_fov(case['fov'])
  tol = 0 if case['default'] else case['tol']
  x0, y0, x1, y1 = case['fov']
  keep = [
      i
      for i, (x, y) in enumerate(case['xy'])
      if x0 - tol <= x <= x1 + tol and y0 - tol <= y <= y1 + tol
  ]
  ctx.nontrivial(0 < len(keep) < len(case['xy']))
  ctx.label(f'tol={tol}')
  grid = gen.make_grid(case)
  if case['default']:
    got = fov.get_atoms_in_bounds(grid)
  else:
    got = fov.get_atoms_in_bounds(grid, tolerance=tol)
  want = gen.arr([case['xy'][i] for i in keep])
  ctx.close(got.atom_positions, want, 'atoms in bounds', rtol=0, atol=0)
  ctx.check(
      np.asarray(got.atomic_numbers).tolist() == [case['z'][i] for i in keep],
      'atoms in bounds: elements do not match their positions',
  )


PARTS = [
    Part('convert', convert_case, check_convert, 500, 20000),
    Part('fov', fov_case, check_fov, 400, 15000),
    Part('bounds', bounds_case, check_bounds, 400, 15000),
]
ASSUMPTIONS = ['fields of view have positive width and height']
