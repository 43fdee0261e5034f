"""P06: transition rates."""

import math
import tempfile

from hypothesis import strategies as st
import numpy as np
from pdv import gen
from pdv import lattice
from pdv.core import Part
from putting_dune import geometry
from putting_dune import graphene
from putting_dune import microscope_utils as mu

PROPERTY = 'P06'
RULE = (
    'A silicon on an independently built sheet in arbitrary orientation, place'
    ' and atom order, and a beam within 5 angstrom of it; the three built-in'
    ' rate models with generated parameters. Reference rates come from closed'
    ' formulas in the silicon-neighbor frame. Non-trivial: the three reference'
    ' rates differ by more than 1%.'
)
BOND = lattice.BOND


@st.composite
def model(draw):
  kind = draw(
      st.sampled_from(['simple', 'human', 'human_params', 'mixture', 'mixture'])
  )
  m = {'kind': kind}
  if kind == 'human_params':
    m['mean'] = draw(gen.xy(-1.5, 1.5))
    # Widths along and across the bond, and the angle between them.
    m['var'] = draw(gen.real(0.05, 0.6))
    m['var2'] = draw(st.one_of(st.none(), gen.real(0.05, 0.6)))
    m['tilt'] = draw(st.one_of(st.just(0.0), gen.real(0.0, 3.14)))
    m['max'] = draw(gen.real(0.01, 5))
  if kind == 'mixture':
    k = draw(st.integers(1, 4))
    m['max'] = draw(gen.real(0.01, 5))
    m['w'] = [draw(gen.real(0.05, 1.0)) for _ in range(k)]
    m['loc'] = [draw(gen.real(-2, 3)) for _ in range(k)]
    m['var'] = [[draw(gen.real(0.1, 5)), draw(gen.real(0.1, 5))] for _ in range(k)]
  return m


def covariance(m):
  t = m.get('tilt') or 0.0
  r = np.array([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]])
  return r @ np.diag([m['var'], m.get('var2') or m['var']]) @ r.T


def make_rates(m):
  """The rate function under test."""
  if m['kind'] == 'simple':
    return graphene.PristineSingleSiGrRatePredictor(
        canonical_rate_prediction_fn=graphene.simple_canonical_rate_function
    )
  if m['kind'] == 'human':
    return graphene.PristineSingleSiGrRatePredictor(
        canonical_rate_prediction_fn=graphene.HumanPriorRatePredictor().predict
    )
  if m['kind'] == 'human_params':
    return graphene.PristineSingleSiGrRatePredictor(
        canonical_rate_prediction_fn=graphene.HumanPriorRatePredictor(
            mean=np.array(m['mean']),
            cov=covariance(m),
            max_rate=m['max'],
        ).predict
    )
  return graphene.GaussianMixtureRateFunction(
      max_rate=m['max'],
      mixture_weights=np.array(m['w']),
      loc_distances=np.array(m['loc']),
      variances=np.array(m['var']),
  )


def reference(m, beam, neighbor):
  """Rate for one neighbor; both vectors relative to the silicon."""
  n = np.hypot(*neighbor)
  u = neighbor / n
  v = np.array([-u[1], u[0]])
  if m['kind'] == 'simple':
    return 1.0 / (1.0 + (4 * np.hypot(*(beam - neighbor)) / BOND) ** 2)
  if m['kind'].startswith('human'):
    mean = m.get('mean', [0.85, 0.0])
    var = m.get('var', 0.1)
    top = m.get('max', math.log(2) / 3)
    delta = beam / BOND - (mean[0] * u + mean[1] * v)
    cov = covariance(m) if 'var' in m else np.eye(2) * var
    # For a neighbor on the x axis, so along and across the bond.
    delta = np.array([delta @ u, delta @ v])
    return top * math.exp(-0.5 * float(delta @ np.linalg.solve(cov, delta)))
  total, peak = 0.0, 0.0
  for w, loc, (v1, v2) in zip(m['w'], m['loc'], m['var']):
    height = w / (2 * math.pi * math.sqrt(v1 * v2))
    delta = beam - loc * neighbor
    total += height * math.exp(
        -0.5 * ((delta @ u) ** 2 / v1 + (delta @ v) ** 2 / v2)
    )
    peak = max(peak, height)
  return m['max'] * total / peak


@st.composite
def beam(draw):
  """Polar offset from the silicon; often near it or near a neighbor."""
  r = draw(st.one_of(gen.real(0, 5), st.sampled_from([0.0, 1.42, 1.2, 2.0])))
  return [r, draw(gen.real(0, 2 * math.pi))]


@st.composite
def big_sheet(draw):
  """Also sheets of many atoms, and places far away."""
  s = draw(lattice.sheet())
  if draw(st.integers(0, 3)) == 0:
    s['radius'] = draw(st.sampled_from([14.0, 26.0, 40.0]))
    s['shift'] = draw(gen.xy(-300, 300))
  return s


@st.composite
def rate_case(draw):
  return {
      'sheet': draw(big_sheet()),
      'model': draw(model()),
      'beam': draw(beam()),
      'turn': draw(gen.real(-4, 4)),
      'move': draw(gen.xy(-60, 60)),
      'mirror': draw(st.booleans()),
      # A strained and uneven sheet.
      'warp': draw(
          st.one_of(
              st.none(),
              st.tuples(
                  gen.real(0.85, 1.15), gen.real(0, 0.1), gen.seeds()
              ).map(list),
          )
      ),
  }


def evaluate(ctx, fn, p, z, beam_xy, what):
  """Calls the rate function and returns {new silicon index: rate}."""
  keep_p, keep_z = p.copy(), z.copy()
  grid = mu.AtomicGridMaterialFrame(mu.AtomicGrid(p, z))
  rates = fn(grid, geometry.PointMaterialFrame(gen.make_point(beam_xy)))
  ctx.check(
      np.array_equal(p, keep_p) and np.array_equal(z, keep_z),
      f'{what}: the current grid was modified',
  )
  si = int(np.nonzero(z == 14)[0][0])
  out = {}
  for s in rates.successor_states:
    zz = np.asarray(s.grid.atomic_numbers)
    ctx.check(
        np.array_equal(s.grid.atom_positions, p),
        f'{what}: a successor moves atoms',
    )
    where = np.nonzero(zz == 14)[0]
    ctx.check(len(where) == 1, f'{what}: successor has {len(where)} silicon')
    k = int(where[0])
    ctx.check(
        bool(np.all(zz[np.arange(len(zz)) != k] == 6)),
        f'{what}: successor has atoms other than carbon',
    )
    ctx.check(k not in out, f'{what}: two successors with the same silicon')
    rate = float(s.rate)
    ctx.check(
        math.isfinite(rate) and rate >= 0, f'{what}: rate {rate} is not valid'
    )
    out[k] = rate
  want = set(lattice.neighbors3(p, si).tolist())
  ctx.check(
      set(out) == want,
      f'{what}: successors at {sorted(out)}, nearest neighbors {sorted(want)}',
  )
  total = float(rates.total_rate)
  ctx.check(
      abs(total - sum(out.values())) <= 1e-5 * sum(out.values()) + 1e-12,
      f'{what}: total rate {total}, sum {sum(out.values())}',
  )
  return out


def check_rates(case, ctx):
  """Reference values, and invariance under motions and renumbering."""
  m = case['model']
  fn = make_rates(m)
  p, z = lattice.build(case['sheet'])
  if case['warp']:
    stretch, uneven, seed = case['warp']
    p = p * stretch
    p = p + np.random.default_rng(seed).uniform(-uneven, uneven, p.shape)
  si = int(np.nonzero(z == 14)[0][0])
  r, a = case['beam']
  b = r * np.array([math.cos(a), math.sin(a)])
  ref = {
      int(k): reference(m, b, p[k] - p[si]) for k in lattice.neighbors3(p, si)
  }
  lo, hi = min(ref.values()), max(ref.values())
  ctx.nontrivial(hi > 1e-6 and (hi - lo) > 0.01 * hi)
  ctx.label(m['kind'])
  got = evaluate(ctx, fn, p, z, p[si] + b, m['kind'])
  tol = dict(rtol=2e-5, atol=1e-9 + 1e-7 * hi)
  for k in ref:
    ctx.close(got[k], ref[k], f"{m['kind']}: rate towards a neighbor", **tol)

  # The same physics elsewhere, turned (and mirrored, where the model has no
  # handedness), and with the atoms listed in another order.
  mirror = case['mirror'] and m['kind'] != 'human_params'
  c, s = math.cos(case['turn']), math.sin(case['turn'])
  lin = np.array([[c, -s], [s, c]])
  if mirror:
    lin = lin @ np.diag([1.0, -1.0])
  q = (p - p[si]) @ lin.T + np.array(case['move'])
  perm = np.random.default_rng(case['sheet']['perm'] + 1).permutation(len(p))
  moved = evaluate(
      ctx, fn, q[perm], z[perm], lin @ b + np.array(case['move']), 'moved'
  )
  inverse = {int(k): i for i, k in enumerate(perm)}
  for k in ref:
    ctx.close(
        moved[inverse[k]],
        got[k],
        f"{m['kind']}: rate after a rigid motion",
        rtol=2e-5,
        atol=1e-9 + 1e-7 * hi,
    )


@st.composite
def peak_case(draw):
  return {
      'sheet': draw(lattice.sheet()),
      'which': draw(st.integers(0, 2)),
      'kind': draw(st.sampled_from(['simple', 'human'])),
      'off': draw(gen.xy(-3, 3)),
  }


def check_peak(case, ctx):
  """Aiming at a neighbor favours that neighbor; the peak is the maximum."""
  p, z = lattice.build(case['sheet'])
  si = int(np.nonzero(z == 14)[0][0])
  nb = [int(k) for k in lattice.neighbors3(p, si)]
  k = nb[case['which']]
  fn = make_rates({'kind': case['kind']})
  reach = 1.0 if case['kind'] == 'simple' else 0.85
  top = 1.0 if case['kind'] == 'simple' else math.log(2) / 3
  aim = p[si] + reach * (p[k] - p[si])
  ctx.nontrivial()
  got = evaluate(ctx, fn, p, z, aim, 'aimed')
  ctx.close(got[k], top, 'rate at the best position', rtol=1e-4)
  for j in nb:
    if j != k:
      ctx.check(got[j] < 0.5 * got[k], 'another neighbor is as likely')
  # The middle treats all three alike.
  mid = evaluate(ctx, fn, p, z, p[si], 'on the silicon')
  ctx.close([mid[j] for j in nb], [mid[k]] * 3, 'centred beam', rtol=1e-3)
  # Nowhere is better than the peak.
  other = evaluate(ctx, fn, p, z, p[si] + np.array(case['off']), 'elsewhere')
  ctx.check(
      max(other.values()) <= top * (1 + 1e-5), 'rate above the stated maximum'
  )


@st.composite
def mixture_case(draw):
  k = draw(st.integers(0, 3))
  first = {
      'kind': 'mixture',
      'max': draw(gen.real(0.01, 5)),
      'w': [draw(gen.real(0.05, 1)) for _ in range(k + 1)],
      'loc': [draw(gen.real(-2, 3)) for _ in range(k + 1)],
      'var': [
          [draw(gen.real(0.1, 5)), draw(gen.real(0.1, 5))] for _ in range(k + 1)
      ],
  }
  return {
      'model': first,
      'seed': draw(gen.seeds()),
      'sheet': draw(lattice.sheet()),
      'beam': draw(beam()),
      'field': draw(st.sampled_from(['max', 'w', 'loc', 'var', 'var2', 'size'])),
      'index': draw(st.integers(0, k)),
      'sampled': draw(st.booleans()),
  }


def check_mixture(case, ctx):
  """Saving, loading, sampling and comparing mixtures."""
  if case['sampled']:
    rng = np.random.default_rng(case['seed'])
    fn = graphene.GaussianMixtureRateFunction.sample_new(rng)
    twin = graphene.GaussianMixtureRateFunction.sample_new(
        np.random.default_rng(case['seed'])
    )
    ctx.check(fn == twin, 'sampling is not determined by the generator')
    after = graphene.GaussianMixtureRateFunction.sample_new(rng)
    ctx.check(not fn == after, 'sampling twice gives the same function')
    w = np.asarray(fn.mixture_weights)
    ctx.close(w.sum(), 1.0, 'mixture weights add up')
    ctx.check(
        bool(np.all(w >= 0))
        and bool(np.all(np.asarray(fn.variances) > 0))
        and fn.max_rate > 0
        and w.shape == np.asarray(fn.loc_distances).shape
        and np.asarray(fn.variances).shape == (len(w), 2),
        'sampled parameters are not a mixture',
    )
  else:
    fn = make_rates(case['model'])
  m = {
      'kind': 'mixture',
      'max': float(fn.max_rate),
      'w': np.asarray(fn.mixture_weights).tolist(),
      'loc': np.asarray(fn.loc_distances).tolist(),
      'var': np.asarray(fn.variances).tolist(),
  }
  p, z = lattice.build(case['sheet'])
  si = int(np.nonzero(z == 14)[0][0])
  r, a = case['beam']
  b = p[si] + r * np.array([math.cos(a), math.sin(a)])
  ctx.nontrivial(len(m['w']) >= 2)
  with tempfile.TemporaryDirectory() as d:
    fn.serialize_to_directory(d + '/sub/dir')
    back = graphene.GaussianMixtureRateFunction.deserialize_from_directory(
        d + '/sub/dir'
    )
  ctx.check(back == fn and fn == back, 'loaded function differs from the saved')
  for name in ('mixture_weights', 'loc_distances', 'variances'):
    ctx.close(
        np.asarray(getattr(back, name)),
        np.asarray(getattr(fn, name)),
        f'loaded {name}',
        rtol=0,
        atol=0,
    )
  ctx.check(back.max_rate == fn.max_rate, 'loaded max_rate')
  one, two = (
      evaluate(ctx, f, p, z, b, 'saved/loaded') for f in (fn, back)
  )
  for k in one:
    ctx.close(two[k], one[k], 'rate of the loaded function', rtol=1e-9)
    ctx.close(
        one[k],
        reference(m, b - p[si], p[k] - p[si]),
        'mixture rate',
        rtol=2e-5,
        atol=1e-9,
    )
  # A different parameter makes a different function.
  i = min(case['index'], len(m['w']) - 1)
  if case['field'] == 'max':
    m['max'] += 0.01
  elif case['field'] == 'var':
    m['var'][i][0] += 0.01
  elif case['field'] == 'var2':
    m['var'][i][1] += 0.01
  elif case['field'] == 'size':
    m['w'].append(0.1)
    m['loc'].append(0.1)
    m['var'].append([1.0, 1.0])
  else:
    m[case['field']][i] -= 0.01
  ctx.check(not fn == make_rates(m), f"equality is blind to {case['field']}")


@st.composite
def none_case(draw):
  return {'sheet': draw(lattice.sheet()), 'model': draw(model())}


def check_none(case, ctx):
  """Without a silicon there is nothing to predict."""
  p, z = lattice.build(case['sheet'])
  z = np.full_like(z, 6)
  ctx.nontrivial()
  fn = make_rates(case['model'])
  ctx.raises(
      graphene.SiliconNotFoundError,
      lambda: fn(mu.AtomicGrid(p, z), gen.make_point(p[0])),
      'rates of a sheet without silicon',
  )


PARTS = [
    Part('rates', rate_case, check_rates, 400, 12000),
    Part('peak', peak_case, check_peak, 120, 4000),
    Part('mixture', mixture_case, check_mixture, 120, 4000),
    Part('none', none_case, check_none, 30, 500),
]
ASSUMPTIONS = [
    'one silicon at an interior site of an undistorted sheet',
]
