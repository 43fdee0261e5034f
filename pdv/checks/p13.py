"""P13: agents."""

import functools
import math
import os
import tempfile

import dm_env
from hypothesis import strategies as st
import numpy as np
from pdv import gen
from pdv import obskit
from pdv.core import Part
from putting_dune import action_adapters as aa
from putting_dune import feature_constructors as fc
from putting_dune import goals
from putting_dune.agents import agent_lib
from putting_dune.agents import tf_eval_agent

PROPERTY = 'P13'
RULE = (
    'Observations of sheets in every orientation with goals all around, greedy'
    ' targets and offsets off the axis, transition functions with a known'
    ' peak, action ranges per dimension. Non-trivial: the bond to follow is at'
    ' least 10 degrees off the x axis (or: any generated function or range).'
)


def timestep(features):
  return dm_env.transition(reward=0.0, observation=features, discount=0.99)


def rotate(v, angle):
  c, s = math.cos(angle), math.sin(angle)
  return np.array([c * v[0] - s * v[1], s * v[0] + c * v[1]])


@st.composite
def greedy_case(draw):
  c = draw(obskit.obs_case())
  c['goal'] = draw(
      st.one_of(
          gen.xy(-12.0, 12.0),
          st.tuples(gen.real(0, 6.28), gen.real(0.2, 2.0)).map(
              lambda t: [t[1] * math.cos(t[0]), t[1] * math.sin(t[0])]
          ),
      )
  )
  c['target'] = draw(
      st.one_of(st.none(), st.sampled_from([[1.42, 0.42]]), gen.xy(-2.0, 2.5))
  )
  c['offset'] = draw(st.one_of(st.none(), gen.xy(-1.0, 1.0)))
  # What the same agent is shown afterwards.
  c['then'], last = [], c
  for _ in range(draw(st.integers(0, 2))):
    last = draw(obskit.changed({k: v for k, v in last.items() if k != 'then'}))
    if draw(st.booleans()):
      last['goal'] = draw(gen.xy(-12.0, 12.0))
    c['then'].append(last)
  return c


def make_greedy(c, **kwargs):
  if c['target'] is not None:
    kwargs['argmax'] = np.asarray(c['target'])
  if c['offset'] is not None:
    kwargs['fixed_offset'] = np.asarray(c['offset'])
  return agent_lib.GreedyAgent(**kwargs)


def best_bond(v, goal):
  """Which neighbor is closest to the goal; None when too close to call."""
  si = v.p[v.si]
  delta = v.p[v.neighbors(v.si)] - si
  d = np.hypot(*(delta - goal).T)
  order = np.argsort(d)
  if d[order[1]] - d[order[0]] < 1e-3:
    return None
  return delta[order[0]]


def check_greedy(c, ctx):
  agent = make_greedy(c, rng=np.random.default_rng(0))
  agent.set_mode(agent_lib.AgentMode.EVAL)
  adapter = aa.RelativeToSiliconMaterialFrameActionAdapter()
  constructor = fc.SingleSiliconMaterialFrameFeatureConstructor()
  target = np.asarray(c['target'] if c['target'] is not None else [1.42, 0.0])
  offset = np.asarray(c['offset'] if c['offset'] is not None else [0.0, 0.0])
  for now in [c] + c.get('then', []):
    check_aim(now, agent, adapter, constructor, target + offset, ctx)


def check_aim(c, agent, adapter, constructor, aim, ctx):
  v = obskit.View(c)
  goal = np.asarray(c['goal'])
  bond = best_bond(v, goal)
  if bond is None:
    return
  angle = math.atan2(bond[1], bond[0])
  ctx.nontrivial(abs(math.sin(angle)) > 0.17)
  want = rotate(aim, angle)

  goal_object = goals.SingleSiliconGoalReaching()
  goal_object.goal_position_material_frame = v.p[v.si] + goal
  obs = v.observation()
  features = constructor.get_features(obs, goal_object)
  kept = features.copy()
  for _ in range(2):  # The second answer is like the first.
    action = agent.step(timestep(features))
    ctx.check(np.shape(action) == (2,), f'action shape {np.shape(action)}')
    ctx.close(action, want, 'greedy target', atol=2e-3, rtol=0)
  ctx.check(np.array_equal(features, kept), 'features were changed')
  # Together with the adapter, the beam ends up there in the material.
  control = adapter.get_action(obs, action)[0]
  got = gen.pt(v.fov.microscope_frame_to_material_frame(control.position))
  want = v.p[v.si] + want
  inside = np.clip(want, v.lower_left, v.lower_left + v.size)
  ctx.close(got, inside, 'beam in the material', atol=3e-3, rtol=0)


@st.composite
def uneven_case(draw):
  turn, gaps = draw(gen.real(0, 6.28)), [draw(gen.real(0.8, 2.0)) for _ in '12']
  return {
      'neighbors': [
          [turn + a, draw(gen.real(1.0, 2.2))]
          for a in (0.0, gaps[0], gaps[0] + gaps[1])
      ],
      'goal': draw(gen.xy(-4.0, 4.0)),
      'silicon': draw(gen.xy(-40.0, 40.0)),
      'target': draw(st.one_of(st.none(), gen.xy(-2.0, 2.5))),
      'offset': draw(st.one_of(st.none(), gen.xy(-1.0, 1.0))),
  }


def check_uneven(c, ctx):
  """Neighbors as they are seen on a microscope: not all equally far."""
  nb = np.array(
      [[d * math.cos(a), d * math.sin(a)] for a, d in c['neighbors']]
  )
  d = np.hypot(*(nb - c['goal']).T)
  order = np.argsort(d)
  if d[order[1]] - d[order[0]] < 1e-2:
    return
  features = np.concatenate(
      [c['silicon'], nb.reshape(-1), c['goal']]
  ).astype(np.float32)
  agent = make_greedy(c, rng=np.random.default_rng(0))
  aim = np.asarray(c['target'] if c['target'] is not None else [1.42, 0.0])
  aim = aim + np.asarray(c['offset'] if c['offset'] is not None else [0.0, 0.0])
  best = nb[order[0]]
  ctx.close(
      agent.step(timestep(features)),
      rotate(aim, math.atan2(best[1], best[0])),
      'greedy target among uneven neighbors',
      atol=2e-3,
      rtol=0,
  )
  ctx.nontrivial(order[0] != int(np.argmax(nb @ np.asarray(c['goal']))))


@st.composite
def argmax_case(draw):
  # As it comes, or with a range and resolution of its own.
  plain = draw(st.integers(0, 3)) == 0
  half = 5.0 if plain else draw(st.sampled_from([2.0, 3.0, 5.0]))
  return {
      'plain': plain,
      'low': -half,
      'high': half + (0.0 if plain else draw(st.sampled_from([0.0, 1.0]))),
      'resolution': 0.05
      if plain
      else draw(st.sampled_from([0.25, 0.4, 0.5, 0.05, 0.08])),
      'peak': draw(gen.xy(-0.9 * half, 0.9 * half)),
      'decoys': [draw(gen.xy(-half, half)) for _ in range(2)],
      'sharp': draw(gen.real(0.3, 2.0)),
      'given': draw(st.booleans()),
  }


def check_argmax(c, ctx):
  """A transition function is searched for the first neighbor's best place."""
  seen = []

  def transition(x):
    x = np.asarray(x, dtype=float)
    seen.append(x)
    r = lambda p: math.exp(-c['sharp'] * float(np.sum((x - p) ** 2)))
    # Higher rates for the other neighbors must not distract.
    return np.array([r(c['peak']), *(5.0 * r(d) for d in c['decoys'])])

  kwargs = {'argmax': np.array([9.0, 9.0])} if c['given'] else {}
  if not c.get('plain'):
    kwargs.update(
        argmax_resolution=c['resolution'], low=c['low'], high=c['high']
    )
  agent = agent_lib.GreedyAgent(
      rng=np.random.default_rng(0), transition_function=transition, **kwargs
  )
  seen = np.array(seen)
  for k in range(2):
    axis = np.unique(np.round(seen[:, k], 5))
    ctx.check(
        axis[0] <= c['low'] + c['resolution']
        and axis[-1] >= c['high'] - c['resolution'],
        'the search does not cover the range',
    )
    ctx.check(
        np.diff(axis).max() <= 1.5 * c['resolution'],
        'the search is coarser than asked for',
    )
  # Shown a neighbor along +x, it aims at the place found.
  features = np.zeros(10, np.float32)
  features[2:8] = [1.42, 0.0, -0.71, 1.23, -0.71, -1.23]
  features[8:] = [10.0, 0.0]
  action = agent.step(timestep(features))
  miss = np.abs(action - np.asarray(c['peak'])).max()
  ctx.check(
      miss <= 0.8 * c['resolution'],
      f"aims at {action}, the peak is at {c['peak']}",
  )
  ctx.nontrivial()


@st.composite
def noise_case(draw):
  return {
      'seed': draw(gen.seeds()),
      'sigma': draw(gen.real(0.05, 2.0)),
      'angle': draw(gen.real(0, 6.28)),
  }


def check_noise(c, ctx):
  """Noise is centred on the target, has the size asked for and replays."""
  features = np.zeros(10, np.float32)
  b = rotate([1.42, 0.0], c['angle'])
  features[2:8] = [*b, *rotate(b, 2.0943951), *rotate(b, -2.0943951)]
  features[8:] = 8 * b
  make = lambda: agent_lib.GreedyAgent(
      rng=np.random.default_rng(c['seed']),
      argmax=np.array([0.8, 0.0]),
      position_noise_sigma=c['sigma'],
  )
  n = 400
  agent, twin = make(), make()
  a = np.array([agent.step(timestep(features)) for _ in range(n)])
  b2 = np.array([twin.step(timestep(features)) for _ in range(n)])
  ctx.check(np.array_equal(a, b2), 'same seed, different noise')
  want = rotate([0.8, 0.0], c['angle'])
  z = (a.mean(axis=0) - want) / (c['sigma'] / math.sqrt(n))
  ctx.check(bool(np.all(np.abs(z) < 5.5)), f'noise is off centre by {z} sd')
  s2 = ((a - want) ** 2).mean(axis=0) / c['sigma'] ** 2
  ctx.check(
      bool(np.all(np.abs(s2 - 1) < 6.5 * math.sqrt(2 / n))),
      f'noise variance is {s2} times what was asked for',
  )
  ctx.nontrivial()


@st.composite
def random_case(draw):
  shape = draw(st.sampled_from([[2], [3], [1], [2, 2]]))
  n = int(np.prod(shape))
  lo = [draw(gen.real(-5, 5)) for _ in range(n)]
  return {
      'shape': shape,
      'low': lo,
      'high': [l + draw(gen.real(0.1, 5)) for l in lo],
      'scalar': draw(st.booleans()),
      'seed': draw(gen.seeds()),
  }


def check_random(c, ctx):
  shape = tuple(c['shape'])
  low = np.reshape(c['low'], shape)
  high = np.reshape(c['high'], shape)
  if c['scalar']:
    low, high = float(low.flat[0]), float(high.flat[0])
  make = lambda: agent_lib.UniformRandomAgent(
      np.random.default_rng(c['seed']), low, high, shape
  )
  agent, twin = make(), make()
  agent.set_mode(agent_lib.AgentMode.TRAIN)
  step = lambda a: a.step(timestep(np.zeros(3)))
  a = np.array([step(agent) for _ in range(80)])
  ctx.check(a.shape == (80, *shape), f'actions of shape {a.shape[1:]}')
  ctx.check(
      bool(np.all(a >= low) and np.all(a <= high)), 'action out of range'
  )
  u = (a - low) / (np.asarray(high) - np.asarray(low))
  u = u.reshape(80, -1)
  ctx.check(
      bool(np.all(u.min(axis=0) < 0.25) and np.all(u.max(axis=0) > 0.75)),
      'actions do not cover the range',
  )
  z = (u.mean(axis=0) - 0.5) * math.sqrt(12 * 80)
  ctx.check(bool(np.all(np.abs(z) < 5.5)), f'actions are off centre: {z} sd')
  ctx.check(
      np.array_equal(a, np.array([step(twin) for _ in range(80)])),
      'same seed, different actions',
  )
  ctx.nontrivial()


@functools.lru_cache(maxsize=None)
def saved_policy(kind):
  """A linear policy written to disk the way trained agents are."""
  import tensorflow as tf  # pylint: disable=g-import-not-at-top

  rng = np.random.default_rng(3)
  w = rng.normal(size=(10, 2)).astype(np.float32)

  class Policy(tf.Module):

    def __init__(self):
      super().__init__()
      self.w = tf.Variable(w)

    @tf.function(input_signature=[tf.TensorSpec((10,), tf.float32)])
    def __call__(self, x):
      y = tf.linalg.matvec(self.w, x, transpose_a=True)
      return tf.tanh(y) if kind else y

  path = tempfile.mkdtemp()
  tf.saved_model.save(Policy(), os.path.join(path, 'policy'))
  return os.path.join(path, 'policy'), w


def check_tf(c, ctx):
  path, w = saved_policy(c['kind'])
  agent = tf_eval_agent.TfEvalAgent(path)
  agent.set_mode(agent_lib.AgentMode.EVAL)
  rng = np.random.default_rng(c['seed'])
  for _ in range(4):
    x = rng.normal(size=10).astype(np.float32)
    y = x @ w
    got = agent.step(timestep(x))
    ctx.check(isinstance(got, np.ndarray), f'action is a {type(got).__name__}')
    ctx.close(got, np.tanh(y) if c['kind'] else y, 'policy', rtol=1e-4, atol=1e-4)
  ctx.nontrivial()



PARTS = [
    Part('greedy', greedy_case, check_greedy, 250, 8000),
    Part('uneven', uneven_case, check_uneven, 150, 4000),
    Part('argmax', argmax_case, check_argmax, 40, 1000),
    Part('noise', noise_case, check_noise, 15, 300),
    Part('random', random_case, check_random, 60, 1500),
    Part(
        'saved',
        lambda: st.fixed_dictionaries(
            {'kind': st.integers(0, 1), 'seed': gen.seeds()}
        ),
        check_tf,
        6,
        60,
        shards=1,
    ),
]

ASSUMPTIONS = [
    'the neighbor closest to the goal is unique',
]
