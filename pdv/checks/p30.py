"""P30: the alignment network sees each bond, and only relative positions."""

import functools

from hypothesis import strategies as st
import jax
import jax.numpy as jnp
from jax_md import partition
from jax_md import space
import numpy as np
from pdv import gen
from pdv.core import Part

from putting_dune.graph_alignment import model as graph_model  # pylint: disable=g-bad-import-order

PROPERTY = 'P30'
RULE = (
    'Generated clouds of atoms in a periodic box (dense, spread out, on top of'
    ' each other, across the edge): the edges of the neighbor list, built as'
    ' the training step builds it, are compared with all pairs; and a network'
    ' of random weights is given moved, wrapped, reordered and partly rearranged'
    ' copies. Non-trivial: some pair is bonded and some pair is not.'
)
TIMES, ATOMS = 2, 4
N = TIMES * ATOMS


@st.composite
def cloud(draw, n):
  box = draw(st.sampled_from([12.0, 20.0, 60.0]))
  spread = draw(st.sampled_from([1.0, 0.5, 0.2]))
  return {
      'box': box,
      'spread': spread,
      'seed': draw(gen.seeds()),
      'double': draw(st.booleans()),
      'flat': draw(st.booleans()),
      'n': n,
  }


def positions(c):
  rng = np.random.default_rng(c['seed'])
  x = rng.random((c['n'], 3)) * c['box'] * c['spread']
  if c['flat']:
    x[:, 2] = 0.0
  if c['double'] and c['n'] > 1:
    x[1] = x[0]
  return (x + rng.random(3) * c['box']) % c['box']


def apart(x, box):
  d = x[:, None] - x[None]
  d -= box * np.round(d / box)
  return np.sqrt((d**2).sum(-1))


def clear_of(x, box, *cutoffs):
  """No pair so close to a cutoff that rounding decides."""
  d = apart(x, box)
  return all(np.abs(d - r).min() > 1e-3 for r in cutoffs)


@st.composite
def edge_case(draw):
  n = draw(st.sampled_from([1, 2, 5, 12, 40]))
  return {
      **draw(cloud(n)),
      'cutoff': draw(st.sampled_from([1.5, 4.26])),
      'halo': draw(st.sampled_from([0.0, 0.0, 0.5])),
      'spare': draw(st.integers(0, 8)),
      'mapped': draw(st.booleans()),
  }


def check_edges(c, ctx):
  x = positions(c)
  n = len(x)
  reach = c['cutoff'] + c['halo']
  if not clear_of(x, c['box'], reach):
    ctx.label('too close to call')
    return
  want = {
      (int(i), int(j)) for i, j in np.argwhere(apart(x, c['box']) < reach)
  }
  displacement, _ = space.periodic(jnp.ones(3) * c['box'])
  neighbor_fn, _, _ = graph_model.graph_network_neighbor_list(
      displacement,
      jnp.array(c['box']),
      r_cutoff=c['cutoff'],
      dr_threshold=c['halo'],
      disable_cell_list=True,
  )
  # (The library uses the last place of a full list for pairs it drops.)
  capacity = min(len(want) + c['spare'], max(n * n - 1, len(want)))

  def build(p):
    neighbors = graph_model.create_sparse_neighbor_list(
        capacity, p, neighbor_fn.update, None
    )
    return neighbors.update(p).idx

  p = jnp.asarray(x, jnp.float32)
  if c['mapped']:
    # Several records at once, like in training.
    batch = jnp.stack([p, p[::-1], (p + 1.0) % c['box']])
    got = np.asarray(jax.vmap(build)(batch))
    back = {(n - 1 - i, n - 1 - j) for i, j in want}
    cases = list(zip(got, [want, back, want]))
  else:
    cases = [(np.asarray(build(p)), want)]
  for idx, expected in cases:
    ctx.check(idx.shape == (2, capacity), f'edges of shape {idx.shape}')
    real = idx[:, idx[0] < n]
    found = [tuple(e) for e in real.T.tolist()]
    ctx.check(
        len(set(found)) == len(found) and set(found) == expected,
        f'edges {sorted(found)[:12]}, expected {sorted(expected)[:12]}',
    )
  ctx.nontrivial(n < len(want) < n * n)
  ctx.label('mapped' if c['mapped'] else 'alone')


@functools.lru_cache(maxsize=None)
def network(box, cutoff, halo):
  displacement, _ = space.periodic(jnp.ones(3) * box)
  neighbor_fn, init, apply = graph_model.graph_network_neighbor_list(
      displacement,
      jnp.array(box),
      r_cutoff=cutoff,
      dr_threshold=halo,
      disable_cell_list=True,
      n_recurrences=2,
      sequence_length=TIMES,
      mlp_sizes=(32,),
  )

  def neighbors(p):
    return graph_model.create_sparse_neighbor_list(
        N * N - 1, p, neighbor_fn.update, None
    ).update(p)

  @jax.jit
  def first(key, p, nodes):
    return init(key, p, neighbors(p), nodes)

  @jax.jit
  def run(params, p, nodes):
    return apply(params, p, neighbors(p), nodes)

  return first, run


@st.composite
def network_case(draw):
  return {
      **draw(cloud(N)),
      'box': draw(st.sampled_from([12.0, 30.0])),
      'halo': draw(st.sampled_from([0.0, 0.5])),
      'key': draw(st.integers(0, 2**31 - 1)),
      'shift': draw(st.tuples(*[gen.real(-50.0, 50.0)] * 3).map(list)),
      'order': draw(st.permutations(range(ATOMS))),
      'moved': draw(st.integers(0, N - 1)),
  }


def check_network(c, ctx):
  cutoff, box = 4.26, c['box']
  x = positions(c)
  rng = np.random.default_rng(c['seed'] + 1)
  # An atom of the middle of nowhere can go anywhere in it.
  if not clear_of(x, box, cutoff, cutoff + c['halo']):
    ctx.label('too close to call')
    return
  near = lambda p: int((apart(p, box) < cutoff + c['halo']).sum())
  if near(x) > N * N - 1:
    ctx.label('more bonds than the list holds')
    return
  nodes = np.ones((N, 2), np.float32)
  nodes[:, 1] = rng.integers(0, 2, N)
  first, run = network(box, cutoff, c['halo'])
  key = jax.random.PRNGKey(c['key'])
  f32 = lambda a: jnp.asarray(a, jnp.float32)
  params = first(key, f32(x), f32(nodes))
  out = lambda p, q=nodes: [
      np.asarray(o, dtype=float) for o in run(params, f32(p), f32(q))
  ]
  glob, local = out(x)
  ctx.check(glob.shape == (TIMES, 2), f'global output {glob.shape}')
  ctx.check(local.shape == (TIMES, ATOMS, 2), f'local output {local.shape}')
  size = float(np.abs(np.concatenate([glob.ravel(), local.ravel()])).max())
  ctx.check(np.isfinite(size), 'outputs are not finite')
  # Normalization by small spreads blows rounding up.
  tol = 2e-2 * size

  def same(got, want, what):
    for g, w, name in zip(got, want, ('global', 'local')):
      off = float(np.abs(g - w).max())
      ctx.check(off <= tol, f'{what}: the {name} output changes by {off:.3g}')

  same(out((x + c['shift']) % box), (glob, local), 'everything moved')
  same(out(x + box * rng.integers(-2, 3, 3)), (glob, local), 'another cell')
  # Atoms within a time step are not in any order.
  index = np.arange(N).reshape(TIMES, ATOMS)[:, c['order']].ravel()
  same(
      out(x[index], nodes[index]),
      (glob, local[:, c['order']]),
      f"atoms in the order {c['order']}",
  )
  if c['halo']:
    plain = network(box, cutoff, 0.0)[1]
    same(
        [np.asarray(o) for o in plain(params, f32(x), f32(nodes))],
        (glob, local),
        'a halo around the cutoff',
    )
  # One atom elsewhere: if it has no bonds before and after, nothing changes.
  i = c['moved']
  for _ in range(20):
    y = x.copy()
    y[i] = rng.random(3) * box
    if clear_of(y, box, cutoff, cutoff + c['halo']) and near(y) < N * N:
      break
  else:
    y = x
  bonds = lambda p: int((apart(p, box)[i] < cutoff).sum()) - 1
  if bonds(x) == 0 and bonds(y) == 0:
    same(out(y), (glob, local), 'an atom without bonds moved')
    ctx.label('lone atom')
  elif bonds(x) != bonds(y):
    got = out(y)
    off = max(np.abs(got[0] - glob).max(), np.abs(got[1] - local).max())
    ctx.check(off > 1e-6 * size, 'bonds make no difference to the network')
    ctx.label('bonds changed')
  total = int((apart(x, box) < cutoff).sum())
  ctx.nontrivial(N < total < N * N)


PARTS = [
    Part('edges', edge_case, check_edges, 60, 1500),
    Part('network', network_case, check_network, 60, 2000),
]
WEIGHTS = {'edges': 1, 'network': 2}

ASSUMPTIONS = [
    'no two atoms are within 0.001 of a cutoff of each other',
    'the list has room for all edges; cell lists are off, as in the default configuration',
]
