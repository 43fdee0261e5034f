"""P17: scale, offsets, registration and merging of point sets."""

import math

from hypothesis import strategies as st
import numpy as np
from pdv import gen
from pdv import lattice
from pdv.core import Part
from putting_dune import alignment

PROPERTY = 'P17'
RULE = (
    'Rotated, jittered, re-ordered lattices with atoms missing or spurious,'
    ' shifts of every size, and arbitrary as well as clustered point sets with'
    ' generated weights. Non-trivial: the two sets differ in more than their'
    ' order (or: points are actually merged).'
)


@st.composite
def sheet(draw, lo=7.0, hi=12.0):
  return {
      'radius': draw(gen.real(lo, hi)),
      'angle': draw(gen.real(0.0, 2 * math.pi)),
      'shift': draw(gen.xy(-60.0, 60.0)),
      'si': draw(st.integers(0, 3)),
      'perm': draw(gen.seeds()),
  }


def brute(left, right):
  d = np.array(
      [[math.hypot(a[0] - b[0], a[1] - b[1]) for b in right] for a in left]
  ).reshape(len(left), len(right))
  return d


# Scale.


@st.composite
def scale_case(draw):
  c = draw(sheet(6.0, 14.0))
  c['scale'] = draw(st.one_of(gen.real(0.01, 100.0), st.just(1.0)))
  c['jitter'] = draw(st.sampled_from([0.0, 0.0, 0.05]))
  return c


def check_scale(c, ctx):
  p, _ = lattice.build(c)
  p = p + np.random.default_rng(c['perm'] + 1).uniform(
      -c['jitter'], c['jitter'], p.shape
  )
  third = np.sort(np.hypot(*(p[:, None] - p[None]).transpose(2, 0, 1)), axis=1)
  if (third[:, 1:4] > 1.42 + 2 * c['jitter'] + 0.1).mean() > 0.22:
    return  # More edge than sheet.
  q = p * c['scale']
  kept = q.copy()
  got = alignment.get_graphene_scale_factor(q)
  ctx.check(np.array_equal(q, kept), 'coordinates were changed')
  tol = 1e-6 if not c['jitter'] else 0.03
  ctx.close(got, c['scale'], 'scale', rtol=tol)
  ctx.close(
      alignment.get_graphene_scale_factor(q[::-1]), got, 'order of the atoms'
  )
  ctx.nontrivial(c['scale'] != 1.0)


# Offsets.


@st.composite
def offset_case(draw):
  return {
      'a': draw(gen.points(-5, 5, 1, 10)),
      'b': draw(gen.points(-5, 5, 1, 10)),
      'mask': draw(st.one_of(st.none(), gen.real(0.01, 6.0))),
      'more': draw(st.sampled_from([0, 0, 0, 60, 300])),
      'seed': draw(gen.seeds()),
  }


def check_offset(c, ctx):
  a, b = gen.arr(c['a']), gen.arr(c['b'])
  rng = np.random.default_rng(c['seed'])
  a = np.concatenate([a, rng.uniform(-5, 5, size=(c['more'] // 2, 2))])
  b = np.concatenate([b, rng.uniform(-5, 5, size=(c['more'], 2))])
  d = brute(a, b)
  srt = np.sort(d, axis=1)
  if len(b) > 1 and np.any(srt[:, 1] - srt[:, 0] < 1e-9):
    return
  kwargs = {} if c['mask'] is None else {'mask_above': c['mask']}
  near = d.min(axis=1)
  if c['mask'] is not None and np.any(np.abs(near - c['mask']) < 1e-9):
    return
  got = alignment.get_offsets(a, b, **kwargs)
  keep = near < (np.inf if c['mask'] is None else c['mask'])
  want = (b[d.argmin(axis=1)] - a)[keep]
  ctx.close(got, want, 'offsets', atol=1e-12)
  ctx.nontrivial(len(a) > 1 and len(b) > 1)
  ctx.label('masked' if not keep.all() else 'all')


# Registration.


@st.composite
def align_case(draw):
  c = draw(sheet(hi=draw(st.sampled_from([12.0, 12.0, 18.0]))))
  c.update(
      move=[draw(gen.real(0.0, 1.05)), draw(gen.real(0.0, 6.28))],
      missing=draw(st.sampled_from([0.0, 0.1, 0.3])),
      jitter=draw(st.sampled_from([0.0, 0.0, 0.03])),
      limit=draw(st.sampled_from([2.0, 2.0, 0.5, 0.2])),
      spurious=draw(st.integers(0, 4)),
      trim=draw(st.sampled_from([0.0, 0.25, 0.5])),
      noise=draw(st.sampled_from([0.0, 0.0, 0.2])),
      mask=draw(st.booleans()),
      start=draw(
          st.one_of(st.none(), st.just('default'), gen.xy(-0.3, 0.3))
      ),
      repeat=draw(st.integers(1, 3)),
      only=draw(st.sampled_from([None, None, None, 0, 1])),
      strays=draw(st.sampled_from([0, 0, 0, 1, 3, 8])),
  )
  if c['strays']:
    # Trimming has to deal with them.
    c.update(trim=0.5, noise=0.0, missing=0.0, only=None, start=None)
  return c


def check_align(c, ctx):
  ref, classes = lattice.sites(c)
  rng = np.random.default_rng(c['perm'])
  move = c['move'][0] * np.array([np.cos(c['move'][1]), np.sin(c['move'][1])])
  size = np.hypot(*move)
  keep = rng.uniform(size=len(ref)) >= c['missing']
  if c['only'] is not None:
    keep &= classes == c['only']
  jitter = rng.uniform(-c['jitter'], c['jitter'], size=ref.shape)
  new = (ref + jitter - move)[keep]
  new_classes = classes[keep]
  order = rng.permutation(len(new))
  new, new_classes = new[order], new_classes[order]
  # Atoms that have no counterpart, far from the sheet, are ignored if asked.
  mask = c['mask'] or c['spurious'] > 0
  if c['spurious']:
    extra = new.mean(axis=0) + 40.0 + rng.uniform(size=(c['spurious'], 2)) * 9
    new = np.concatenate([new, extra])
    new_classes = np.concatenate(
        [new_classes, np.zeros(c['spurious'], int)]
    )
  if not len(new):
    return
  if c['strays']:
    if size > 0.6:
      return
    # Spots within the sheet that no atom occupies.
    inner = ref[np.hypot(*(ref - c['shift']).T) < c['radius'] - 3]
    if len(inner) < 4:
      return
    spots = inner[rng.integers(0, len(inner), size=c['strays'])] - move
    new = np.concatenate([new, spots + [0.7, 0.0]])
    new_classes = np.concatenate(
        [new_classes, rng.integers(0, 2, size=c['strays'])]
    )
    ctx.label('stray atoms')
  kwargs = dict(trim=c['trim'], noise_scale=c['noise'], max_shift=c['limit'])
  if mask:
    kwargs['mask_above'] = 2.3
  start = None
  if c['start'] != 'default':
    start = c['start'] if c['start'] is None else np.array(c['start'])
    kwargs['init_shift'] = start
  arrays = (new, ref, new_classes, classes)
  kept = [x.copy() for x in arrays]
  results = []
  for _ in range(c['repeat']):
    results.append(alignment.align_latest(*arrays, **kwargs))
  want = move if size <= c['limit'] else move * c['limit'] / size
  # Away from the true offset by less than half the distance to the next atom
  # of the same class, wherever the search starts.
  away = size
  if start is not None:
    first = np.hypot(*start)
    away = np.hypot(
        *(start * min(1.0, c['limit'] / first if first else 1.0) - move)
    )
  if away > 1.15 or (c['noise'] and size > 0.5):
    ctx.label('out of reach')
  else:
    # With a mask the far atoms drop out; trimming then averages fewer.
    for r in results:
      ctx.close(
          r, want, 'shift', atol=1e-6 + 0.8 * c['jitter'], rtol=0
      )
  for r in results:
    ctx.check(np.hypot(*r) <= c['limit'] + 1e-9, f'shift {r} is over the limit')
  for i, r in enumerate(results):
    if c['noise'] == 0:
      ctx.close(r, results[0], f'call {i + 1} of the same', atol=1e-9)
  ctx.check(
      all(np.array_equal(x, y) for x, y in zip(arrays, kept)),
      'an argument was changed',
  )
  if start is not None:
    ctx.check(np.array_equal(start, c['start']), 'the start was changed')
  ctx.nontrivial(size > 0.05)


# Merging.


@st.composite
def cluster_case(draw):
  """Clusters far apart, each of points close together."""
  n = draw(st.integers(1, 5))
  sizes = [draw(st.one_of(st.integers(1, 5), st.integers(6, 14))) for _ in range(n)]
  return {
      'cutoff': draw(st.sampled_from([0.7, 1.0, 1.1, 0.3])),
      'center': draw(
          st.lists(
              st.tuples(st.integers(-4, 4), st.integers(-4, 4)),
              min_size=n, max_size=n, unique=True,
          )
      ),
      'sizes': sizes,
      'seed': draw(gen.seeds()),
      'weights': draw(st.booleans()),
      'lists': draw(st.integers(1, 5)),
      'bunch': draw(st.booleans()),
  }


def cluster_points(c):
  rng = np.random.default_rng(c['seed'])
  p, owner = [], []
  for i, (center, k) in enumerate(zip(c['center'], c['sizes'])):
    r = 0.45 * c['cutoff'] * np.sqrt(rng.uniform(size=k))
    t = rng.uniform(0, 6.283, size=k)
    at = 5.0 * c['cutoff'] * np.asarray(center)
    p.append(at + np.stack([r * np.cos(t), r * np.sin(t)], axis=1))
    owner += [i] * k
  p, owner = np.concatenate(p), np.array(owner)
  order = rng.permutation(len(p))
  return p[order], owner[order], rng


def same_merge(ctx, got, counts, want, n, what):
  ctx.check(
      np.shape(got) == want.shape, f'{what}: {len(got)} points, not {len(want)}'
  )
  ctx.check(len(counts) == len(got), f'{what}: {len(counts)} counts')
  a = np.lexsort(np.round(got, 6).T)
  b = np.lexsort(np.round(want, 6).T)
  ctx.close(np.asarray(got)[a], want[b], f'{what}: points', atol=1e-6)
  ctx.close(np.asarray(counts)[a], n[b], f'{what}: counts', atol=1e-9)


def check_clusters(c, ctx):
  p, owner, rng = cluster_points(c)
  # Cliques merge at once into their weighted mean.
  w = rng.integers(1, 5, size=len(p)).astype(float)
  weights = w if c['weights'] else np.ones(len(p))
  ids = np.unique(owner)
  want = np.stack(
      [np.average(p[owner == i], axis=0, weights=weights[owner == i]) for i in ids]
  )
  n = np.array([weights[owner == i].sum() for i in ids])
  kept, kept_w = p.copy(), weights.copy()
  args = {'counts': weights} if c['weights'] else {}
  got, counts = alignment.clique_merge(p, c['cutoff'], **args)
  same_merge(ctx, got, counts, want, n, 'clique merge')
  ctx.check(
      np.array_equal(kept, p) and np.array_equal(kept_w, weights),
      'clique merge: an argument was changed',
  )
  # Observations one after the other, each with at most one of each cluster.
  lists, seen = [], {}
  for q, o in zip(p, owner):
    # Or all but the first of a cluster in any of the later observations.
    k = seen.get(o, 0)
    if c['bunch'] and k:
      k = int(rng.integers(1, 4))
    seen[o] = k + 1
    while len(lists) <= k:
      lists.append([])
    lists[k].append(q)
  lists = [np.array(l).reshape(-1, 2) for l in lists]
  if c['lists'] % 2:
    lists.insert(int(rng.integers(0, len(lists) + 1)), np.zeros((0, 2)))
  kept = [l.copy() for l in lists]
  got, counts = alignment.naive_merge(lists, c['cutoff'])
  n = np.array([(owner == i).sum() for i in ids]).astype(float)
  want = np.stack([p[owner == i].mean(axis=0) for i in ids])
  same_merge(ctx, got, counts, want, n, 'merge')
  ctx.check(
      all(np.array_equal(a, b) for a, b in zip(lists, kept)),
      'merge: the observations were changed',
  )
  again, _ = alignment.naive_merge(lists, c['cutoff'])
  ctx.close(again, got, 'merging the same again', atol=1e-12)
  ctx.nontrivial(max(c['sizes']) > 1)


@st.composite
def merge_case(draw):
  return {
      'lists': draw(
          st.lists(gen.points(-2, 2, 0, 8), min_size=1, max_size=9).filter(
              lambda l: any(l)
          )
      ),
      'cutoff': draw(gen.real(0.05, 2.0)),
  }


def check_cliques(p, cutoff, ctx):
  """Groups of points, each close to all others of its group and to no others."""
  import networkx as nx  # pylint: disable=g-import-not-at-top

  d = brute(p, p)
  np.fill_diagonal(d, 99.0)
  if np.any(np.abs(d - cutoff) < 1e-9):
    return
  kept = p.copy()
  got, counts = alignment.clique_merge(p, cutoff)
  ctx.check(np.array_equal(p, kept), 'clique merge: the points were changed')
  ctx.check(np.shape(got) == (len(counts), 2), 'clique merge: counts')
  if len(got) > 1:
    e = brute(got, got)
    np.fill_diagonal(e, 99.0)
    ctx.check(
        e.min() > cutoff - 1e-9, 'clique merge: points that are close are left'
    )
  graph = nx.Graph()
  graph.add_nodes_from(range(len(p)))
  graph.add_edges_from(np.argwhere(d < cutoff).tolist())
  groups = [sorted(g) for g in nx.connected_components(graph)]
  simple = all(np.all((d < cutoff)[np.ix_(g, g)] | np.eye(len(g), dtype=bool)) for g in groups)
  want = np.stack([p[g].mean(axis=0) for g in groups])
  if simple and len(groups) > 1:
    e = brute(want, want)
    np.fill_diagonal(e, 99.0)
    simple = e.min() > cutoff + 1e-9
  if simple:
    same_merge(
        ctx, got, counts, want, np.array([float(len(g)) for g in groups]),
        'clique merge',
    )
    ctx.label('cliques')
  else:
    ctx.label('chains')


def check_merge(c, ctx):
  """Whatever the points, none is lost and their centre stays."""
  lists = [gen.arr(l) for l in c['lists']]
  kept = [l.copy() for l in lists]
  total = sum(len(l) for l in lists)
  got, counts = alignment.naive_merge(lists, c['cutoff'])
  ctx.check(
      all(np.array_equal(a, b) for a, b in zip(lists, kept)),
      'the observations were changed',
  )
  ctx.check(got.shape == (len(counts), 2), f'{got.shape} points')
  ctx.close(np.sum(counts), float(total), 'number of points')
  ctx.check(bool(np.all(counts >= 1)), f'counts {counts}')
  ctx.close(
      (got * np.asarray(counts)[:, None]).sum(axis=0),
      np.concatenate(lists).sum(axis=0),
      'weighted sum of the points',
      atol=1e-6,
  )
  # A point on its own stays as it is.
  p = np.concatenate(lists)
  if len(p) > 1:
    d = brute(p, p) + np.eye(len(p)) * 99
    for q in p[d.min(axis=1) > 3 * c['cutoff']]:
      ctx.check(np.hypot(*(got - q).T).min() < 1e-9, f'{q} was moved')
  check_cliques(p, c['cutoff'], ctx)
  p0 = next(l for l in lists if len(l))
  if len(lists) > 1 and len(got) < total:
    ctx.label('merged')
  ctx.nontrivial(len(got) < total)
  ctx.check(len(got) >= len(p0), 'points of one observation were merged')


# Elements.


@st.composite
def elements_case(draw):
  n = draw(st.integers(1, 8))
  return {
      'old': draw(gen.points(-3, 3, n, n)),
      'z': [draw(gen.atomic_number()) for _ in range(n)],
      'new': draw(gen.points(-3, 3, 1, 10)),
      'threshold': draw(st.one_of(st.none(), gen.real(0.1, 3.0))),
      'default': draw(st.one_of(st.none(), st.just(1))),
      'given': draw(st.sampled_from([None, None, 0, 20])),
      # Some atoms reappear close by.
      'near': [draw(st.one_of(st.none(), gen.xy(-0.1, 0.1))) for _ in range(n)],
  }


def check_elements(c, ctx):
  old = gen.arr(c['old'])
  new = [list(x) for x in c['new']] + [
      [a[0] + b[0], a[1] + b[1]] for a, b in zip(c['old'], c['near']) if b
  ]
  new = gen.arr(new)
  z = np.array(c['z'])
  d = brute(old, new)
  srt = np.sort(d, axis=1)
  limit = 0.8 if c['threshold'] is None else c['threshold']
  if np.any(np.abs(srt[:, 0] - limit) < 1e-9) or (
      len(new) > 1 and np.any(srt[:, 1] - srt[:, 0] < 1e-9)
  ):
    return
  kwargs = {}
  if c['threshold'] is not None:
    kwargs['threshold'] = c['threshold']
  if c['default'] is not None:
    kwargs['default_atomic_number'] = c['default']
  base = np.full(len(new), 6 if c['default'] is None else c['default'])
  if c['given'] is not None:
    base = np.arange(len(new)) + 20 if c['given'] else np.zeros(len(new), int)
    kwargs['new_atomic_numbers'] = base.copy()
  kept = old.copy(), new.copy(), z.copy()
  got = alignment.propagate_atomic_numbers(old, new, z, **kwargs)
  ctx.check(got.shape == (len(new),), f'shape {got.shape}')
  claims = {}
  for i, j in enumerate(d.argmin(axis=1)):
    if d[i, j] < limit:
      claims.setdefault(int(j), set()).add(int(z[i]))
  for j in range(len(new)):
    allowed = claims.get(j, {int(base[j])})
    ctx.check(
        int(got[j]) in allowed,
        f'atom {j} is {int(got[j])}, expected one of {sorted(allowed)}',
    )
  ctx.check(
      all(np.array_equal(a, b) for a, b in zip((old, new, z), kept)),
      'an argument was changed',
  )
  ctx.nontrivial(bool(claims))


PARTS = [
    Part('scale', scale_case, check_scale, 150, 2500),
    Part('offsets', offset_case, check_offset, 200, 6000),
    Part('registration', align_case, check_align, 300, 5000),
    Part('clusters', cluster_case, check_clusters, 400, 6000),
    Part('merge', merge_case, check_merge, 400, 6000),
    Part('elements', elements_case, check_elements, 200, 6000),
]

ASSUMPTIONS = [
    'the scale is asked for of sheets in which fewer than 22% of the bonds to'
    ' count are missing',
    'shifts to recover are below half the distance between atoms of one'
    ' class',
]
