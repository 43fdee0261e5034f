"""P09: the environment as a reinforcement-learning problem."""

import datetime as dt

from hypothesis import strategies as st
import numpy as np
from pdv import gen
from pdv import obskit
from pdv import simkit
from pdv.core import Part
from putting_dune import action_adapters as aa
from putting_dune import feature_constructors as fc
from putting_dune import goals
from putting_dune import graphene
from putting_dune import microscope_utils as mu
from putting_dune import run_helpers
from putting_dune.experiments import experiments

PROPERTY = 'P09'
RULE = (
    'Histories of resets, seeds and steps with generated actions, on materials'
    ' that bring the silicon to the goal after a while or never, with step'
    ' limits from 1 upwards. Observers supply an independent account of time.'
    ' Non-trivial: at least one episode ended by itself or by the limit and'
    ' another one began.'
)


class GoalSeeking:
  """Moves the silicon bond by bond towards the goal and stops there."""

  def __init__(self, goal, rate, jitter):
    self.goal, self.rate, self.jitter = goal, rate, jitter

  def __call__(self, grid, beam_position):
    p = np.asarray(grid.atom_positions)
    z = np.asarray(grid.atomic_numbers)
    si = int(np.nonzero(z == 14)[0][0])
    nb = np.argsort(np.hypot(*(p - p[si]).T))[1:4]
    goal = np.asarray(self.goal.goal_position_material_frame)
    best = nb[int(np.argmin(np.hypot(*(p[nb] - goal).T)))]
    there = np.hypot(*(p[si] - goal)) < 0.3
    states = []
    for k in nb:
      zz = np.full_like(z, 6)
      zz[k] = 14
      r = 0.0 if there else self.rate * (1.0 if k == best else self.jitter)
      states.append(
          graphene.SuccessorState(
              mu.AtomicGridMaterialFrame(mu.AtomicGrid(p, zz)), np.float32(r)
          )
      )
    return graphene.Rates(states)


@st.composite
def action(draw):
  return [
      draw(gen.real(-1.2, 1.2)),
      draw(gen.real(-1.2, 1.2)),
      draw(gen.real(0, 1)),
  ]


@st.composite
def history(draw, seeding=True):
  kind = draw(
      st.sampled_from(
          ['relative', 'relative', 'material', 'timed', 'delta', 'direct']
      )
  )
  ops = []
  for _ in range(draw(st.integers(3, 25))):
    k = draw(st.sampled_from(['step'] * 12 + ['reset'] + ['seed'] * seeding))
    if k == 'step':
      ops.append({'op': 'step', 'a': draw(action())})
    elif k == 'seed':
      ops.append({'op': 'seed', 'seed': draw(st.integers(0, 99))})
    else:
      ops.append({'op': 'reset'})
  return {
      'kind': kind,
      'features': draw(
          st.sampled_from(['view', 'material', 'view', 'material', 'image'])
          if len(ops) < 8
          else st.sampled_from(['view', 'material'])
      ),
      'rate': draw(st.sampled_from([0.0, 1.0, 3.0, 3.0, 6.0])),
      'jitter': draw(st.sampled_from([0.0, 0.1])),
      'duration': draw(gen.real(0.0, 5.0)),
      'limit': draw(
          st.one_of(st.integers(1, 6), st.integers(7, 30), st.just(600))
      ),
      'seed': draw(st.integers(0, 2**31 - 1)),
      'ops': ops,
  }


@st.composite
def long_history(draw):
  """Hundreds of steps, from a seed."""
  c = draw(history())
  rng = np.random.default_rng(c['seed'])
  n = draw(st.integers(150, 650))
  ops = [
      {'op': 'step', 'a': [*rng.uniform(-1.2, 1.2, 2).tolist(), rng.random()]}
      for _ in range(n)
  ]
  for _ in range(draw(st.integers(0, 2))):
    ops[draw(st.integers(0, n - 1))] = {'op': 'reset'}
  c.update(
      ops=ops,
      features=draw(st.sampled_from(['view', 'material'])),
      rate=draw(st.sampled_from([0.0, 0.0, 0.2])),
      limit=draw(st.one_of(st.integers(50, 300), st.just(600))),
  )
  return c


def build(c, observers=()):
  """An environment as the experiments set it up."""

  def adapters_and_goal():
    goal = goals.SingleSiliconGoalReaching()
    if c['kind'] == 'direct':
      adapter = aa.DirectActionAdapter()
    elif c['kind'] == 'delta':
      adapter = aa.DeltaPositionActionAdapter(np.random.default_rng())
    elif c['kind'] == 'timed':
      adapter = aa.RelativeToSiliconActionAdapter(
          dwell_time_range=(dt.timedelta(seconds=1), dt.timedelta(seconds=4))
      )
    elif c['kind'] == 'material':
      adapter = aa.RelativeToSiliconMaterialFrameActionAdapter()
    else:
      adapter = aa.RelativeToSiliconActionAdapter()
    features = {
        'view': fc.SingleSiliconPristineGrapheneFeatureConstuctor,
        'material': fc.SingleSiliconMaterialFrameFeatureConstructor,
        'image': fc.ImageFeatureConstructor,
    }[c['features']]()
    parts['goal'] = goal
    return experiments.AdaptersAndGoal(adapter, features, goal)

  parts = {}
  got = adapters_and_goal()
  config = lambda: experiments.SimulatorConfig(
      material=graphene.PristineSingleDopedGraphene(
          rate_function=GoalSeeking(parts['goal'], c['rate'], c['jitter']),
          grid_columns=50,
      ),
      image_duration=dt.timedelta(seconds=c['duration']),
  )
  env = run_helpers.create_putting_dune_env(
      c['seed'],
      get_adapters_and_goal=lambda: got,
      get_simulator_config=config,
      simulator_observers=observers,
      step_limit=c['limit'],
  )
  return env


def act(c, o):
  return np.array(
      o['a'] if c['kind'] == 'timed' else o['a'][:2], dtype=np.float32
  )


def account(log):
  """Simulated seconds of the last call."""
  t = dt.timedelta()
  for e in log:
    if e[0] == 'control':
      t += e[1].dwell_time
    elif e[0] == 'take':
      t += e[1]
  return t.total_seconds()


def validate(spec, value):
  if isinstance(spec, dict):
    for k in spec:
      spec[k].validate(value[k])
    return set(spec) == set(value)
  spec.validate(value)
  return True


def same_features(a, b):
  if isinstance(a, dict):
    return set(a) == set(b) and all(np.array_equal(a[k], b[k]) for k in a)
  return np.array_equal(a, b)


def features_of(ctx, c, observation, env):
  """What an agent is shown, checked against the material itself."""
  p = np.asarray(env.sim.material.grid.atom_positions)
  si = p[np.asarray(env.sim.material.grid.atomic_numbers) == 14][0]
  to_goal = np.asarray(env.goal.goal_position_material_frame) - si
  got = (
      observation['goal_delta_angstroms']
      if isinstance(observation, dict)
      else observation[-2:]
  )
  ctx.close(got, to_goal, 'offset to the goal in the features', atol=1e-3)
  if c['features'] == 'material':
    ctx.close(observation[:2], si, 'silicon in the features', atol=1e-3)
  return float(np.hypot(*to_goal))


def check_history(c, ctx):
  rec = simkit.Recorder()
  env = build(c, (rec,))
  steps = None  # None: the next call of step starts an episode.
  beam = None
  ended = begun = 0
  for o in c['ops']:
    rec.log.clear()
    if o['op'] == 'seed':
      env.seed(o['seed'])
      ctx.check(not rec.log, 'seeding touched the material')
      continue
    fresh = steps is None or o['op'] == 'reset'
    if o['op'] == 'step' and steps is not None:
      last = env.last_microscope_observation
      before = np.asarray(env.sim.material.grid.atom_positions)[
          np.asarray(env.sim.material.grid.atomic_numbers) == 14
      ][0]
      t = env.step(act(c, o))
      steps += 1
      seconds = account(rec.log)
      distance = features_of(ctx, c, t.observation, env)
      there = distance < 0.71
      ctx.close(
          env.last_microscope_observation.elapsed_time.total_seconds(),
          seconds,
          'elapsed time of the step',
          atol=1e-6,
      )
      reward = obskit.GAMMA**seconds if there else 0.0
      ctx.close(float(t.reward), reward, 'reward', atol=1e-9)
      ctx.check(
          t.last() == (there or steps >= c['limit']),
          f'after {steps} of {c["limit"]} steps, {distance:.2f} A from the'
          f' goal: {t.step_type}',
      )
      ctx.check(not t.first(), 'a step within an episode came back as first')
      discount = 0.0 if there else obskit.GAMMA**seconds
      ctx.close(float(t.discount), discount, 'discount', atol=1e-9)
      controls = [e[1] for e in rec.log if e[0] == 'control']
      ctx.check(len(controls) == 1, f'{len(controls)} exposures in one step')
      if c['kind'] in ('relative', 'timed', 'material'):
        a = act(c, o).astype(float)
        want = before + (
            np.clip(a[:2], -1, 1) * 1.42
            if c['kind'] != 'material'
            else a[:2]
        )
        f = gen.fov_array(last.fov)
        want = np.clip(want, f[0], f[1])
        ctx.close(
            gen.pt(controls[0].position), want, 'beam position', atol=1e-4
        )
      if t.last():
        steps = None
        ended += 1
        ctx.label('goal' if there else 'limit')
    else:
      t = env.reset() if o['op'] == 'reset' else env.step(act(c, o))
      steps = 0
      begun += 1
      ctx.check(t.first(), f'a new episode starts with {t.step_type}')
      ctx.check(not t.reward, 'reward for starting')
      if t.discount is not None:
        ctx.close(
            float(t.discount),
            obskit.GAMMA ** account(rec.log),
            'discount at the start',
            atol=1e-9,
        )
      ctx.check(
          not [e for e in rec.log if e[0] == 'control'],
          'the material was exposed by a reset',
      )
      ctx.check(rec.log and rec.log[0][0] == 'reset', 'the material is not new')
      distance = features_of(ctx, c, t.observation, env)
      ctx.check(distance > 0.71, 'an episode starts at its goal')
      p = np.asarray(env.sim.material.grid.atom_positions)
      g = np.asarray(env.goal.goal_position_material_frame)
      ctx.check(
          np.hypot(*(p - g).T).min() < 1e-6, 'the goal is not a lattice site'
      )
      f = gen.fov_array(env.last_microscope_observation.fov)
      ctx.check(
          bool(np.all(g >= f[0] - 1e-6) and np.all(g <= f[1] + 1e-6)),
          'the goal is out of view',
      )
    if fresh:
      beam = None
    for e in rec.log:
      if e[0] == 'take':
        ctx.close(
            e[1].total_seconds(), c['duration'], 'time of an image', atol=1e-6
        )
    if c['kind'] == 'delta' and not fresh:
      # The beam moves on from where it was, within the view.
      at = gen.pt(env.last_microscope_observation.controls[0].position)
      if beam is not None:
        ctx.close(
            at,
            np.clip(beam + act(c, o), 0, 1),
            'beam after moving on',
            atol=1e-5,
        )
      beam = at
    ctx.check(
        validate(env.observation_spec(), t.observation),
        'observation does not fit its specification',
    )
    image = env.last_microscope_observation.image
    ctx.check(
        (image is not None) == (c['features'] == 'image'),
        'an image is rendered exactly when the features need one',
    )
  ctx.nontrivial(ended >= 1 and begun >= 2)
  ctx.label('ended' if ended else 'no end')


def play(c, env):
  """Time steps and, for each, where the beam was."""
  out = [(env.reset(), [])]
  for o in c['ops']:
    if o['op'] == 'step':
      t = env.step(act(c, o))
    elif o['op'] == 'reset':
      t = env.reset()
    else:
      continue
    controls = env.last_microscope_observation.controls
    out.append((t, [tuple(gen.pt(k.position)) for k in controls]))
  return out


def check_seed(c, ctx):
  """The seed decides everything, whatever happened before."""
  first = build(c)
  a = play(c, first)
  # A used environment, seeded again.
  first.seed(c['seed'])
  b = play(c, first)
  # Another new one.
  other = build(dict(c, seed=c['seed'] + 1))
  other.step(act(c, {'a': [0.1, 0.2, 0.3]}))
  other.step(act(c, {'a': [0.1, 0.2, 0.3]}))
  different = other.reset()
  other.seed(c['seed'])
  d = play(c, other)
  for name, run in (('reseeded', b), ('another environment', d)):
    for i, ((x, at), (y, where)) in enumerate(zip(a, run)):
      ctx.check(
          at == where, f'{name}: step {i} exposes {where} instead of {at}'
      )
      ctx.check(
          x.step_type == y.step_type
          and x.reward == y.reward
          and x.discount == y.discount
          and same_features(x.observation, y.observation),
          f'{name}: step {i} differs: {x} / {y}',
      )
  ctx.check(
      not same_features(a[0][0].observation, different.observation),
      'different seeds give the same episode',
  )
  ctx.nontrivial(len(a) >= 3)


@st.composite
def limit_case(draw):
  return {
      'limit': draw(st.one_of(st.none(), st.integers(1, 5))),
      'script': draw(
          st.lists(
              st.sampled_from(['mid', 'mid', 'end', 'cut']),
              min_size=1,
              max_size=30,
          )
      ),
      'resets': draw(st.lists(st.integers(0, 29), max_size=4)),
      'discount': draw(gen.real(0.5, 1.0)),
  }


def check_limit(c, ctx):
  """The step-limit wrapper around a scripted environment."""
  import dm_env  # pylint: disable=g-import-not-at-top

  class Scripted(dm_env.Environment):
    """Obeys the dm_env conventions and counts."""

    def __init__(self):
      self.calls = []
      self.fresh = True
      self.script = list(c['script'])
      self.extra = 'attribute'

    def reset(self):
      self.calls.append('reset')
      self.fresh = False
      return dm_env.restart(np.array([0.0]))

    def step(self, a):
      if self.fresh:
        return self.reset()
      self.calls.append(('step', a))
      k = self.script.pop(0) if self.script else 'mid'
      n = float(len(self.calls))
      if k == 'mid':
        return dm_env.transition(n, np.array([n]), c['discount'])
      self.fresh = True
      if k == 'end':
        return dm_env.termination(n, np.array([n]))
      return dm_env.truncation(n, np.array([n]), c['discount'])

    def action_spec(self):
      return 'actions'

    def observation_spec(self):
      return 'observations'

    def reward_spec(self):
      return 'rewards'

    def discount_spec(self):
      return 'discounts'

    def close(self):
      self.closed = True

  inner = Scripted()
  env = run_helpers.StepLimitWrapper(inner, c['limit'])
  ctx.check(env.extra == 'attribute', 'attributes are not passed through')
  ctx.check(
      env.action_spec() == 'actions'
      and env.observation_spec() == 'observations'
      and env.reward_spec() == 'rewards'
      and env.discount_spec() == 'discounts',
      'specifications are not passed through',
  )
  ctx.raises(AttributeError, lambda: env.no_such_attribute, 'no attribute')
  count = None
  for i in range(len(c['script']) + 3):
    n = len(inner.calls)
    if i in c['resets']:
      t = env.reset()
      expect_first = True
    else:
      expect_first = count is None
      t = env.step(i)
    ctx.check(len(inner.calls) == n + 1, 'the environment was called twice')
    if expect_first:
      ctx.check(t.first(), f'call {i}: {t.step_type} instead of a new episode')
      ctx.check(inner.calls[-1] == 'reset', f'call {i}: no reset inside')
      count = 0
      continue
    count += 1
    kind, passed = inner.calls[-1]
    ctx.check(kind == 'step' and passed == i, 'the action was not passed on')
    ended = inner.fresh
    over = c['limit'] is not None and count >= c['limit']
    ctx.check(
        t.last() == (ended or over) and not t.first(),
        f'call {i}, step {count} of {c["limit"]}: {t.step_type}',
    )
    ctx.check(
        t.reward == float(n + 1) and t.observation[0] == n + 1,
        'reward or observation changed',
    )
    if not ended:
      ctx.check(t.discount == c['discount'], f'discount {t.discount}')
    elif t.discount not in (0.0, c['discount']):
      ctx.check(False, f'discount {t.discount}')
    if t.last():
      ctx.nontrivial()
      count = None
  env.close()
  ctx.check(getattr(inner, 'closed', False), 'the environment is not closed')


@st.composite
def verdict_case(draw):
  return {
      'seed': draw(gen.seeds()),
      'duration': draw(gen.real(0.0, 5.0)),
      'limit': draw(st.one_of(st.integers(1, 6), st.just(600))),
      'script': draw(
          st.lists(
              st.tuples(
                  st.sampled_from(['on', 'on', 'on', 'end', 'cut', 'both']),
                  gen.real(-2.0, 2.0),
              ).map(list),
              min_size=1,
              max_size=15,
          )
      ),
      'resets': draw(st.lists(st.integers(0, 15), max_size=3)),
      'image': draw(st.integers(0, 4)) == 0,
  }


def check_verdict(c, ctx):
  """Any goal, any features: the environment plays by what they say."""
  from dm_env import specs  # pylint: disable=g-import-not-at-top

  calls = []
  script = [list(x) for x in c['script']]

  class Goal(goals.Goal):

    def reset(self, rng, initial_observation):
      calls.append(('goal reset', initial_observation))

    def calculate_reward_and_terminal(self, observation):
      kind, reward = script.pop(0) if script else ['on', 0.0]
      calls.append(('verdict', observation, kind, reward))
      return goals.GoalReturn(
          reward, kind in ('end', 'both'), kind in ('cut', 'both')
      )

  class Features(fc.FeatureConstructor):
    requires_image = c['image']

    def reset(self):
      calls.append(('features reset',))

    def get_features(self, observation, goal):
      calls.append(('features', observation, goal))
      return np.array([len(calls)], dtype=np.float32)

    def observation_spec(self):
      return specs.Array((1,), np.float32)

  goal = Goal()
  env = run_helpers.create_putting_dune_env(
      c['seed'],
      get_adapters_and_goal=lambda: experiments.AdaptersAndGoal(
          aa.DirectActionAdapter(), Features(), goal
      ),
      get_simulator_config=lambda: experiments.SimulatorConfig(
          material=graphene.PristineSingleDopedGraphene(
              rate_function=simkit.DriftRates(0.5, 1.0), grid_columns=50
          ),
          image_duration=dt.timedelta(seconds=c['duration']),
      ),
      step_limit=c['limit'],
  )
  steps = None
  ends = 0
  for i in range(len(c['script']) + 2):
    del calls[:]
    if i in c['resets']:
      t = env.reset()
      steps = None
    else:
      t = env.step(np.array([0.5, 0.5], dtype=np.float32))
    now = env.last_microscope_observation
    ctx.check(
        (now.image is not None) == c['image'],
        'an image is rendered exactly when the features need one',
    )
    shown = [k for k in calls if k[0] == 'features']
    ctx.check(
        len(shown) == 1 and shown[0][1] is now and shown[0][2] is goal,
        f'call {i}: features of something else than the present state',
    )
    ctx.check(
        t.observation[0] == calls.index(shown[0]) + 1,
        f'call {i}: the features are not what the agent is shown',
    )
    verdicts = [k for k in calls if k[0] == 'verdict']
    resets = [k for k in calls if k[0] == 'goal reset']
    fresh = [k for k in calls if k[0] == 'features reset']
    if steps is None:
      ctx.check(
          t.first() and not verdicts, f'call {i}: {t.step_type}, not the first'
      )
      ctx.check(
          len(resets) == 1 and resets[0][1] is now and len(fresh) == 1,
          f'call {i}: goal and features were not made new',
      )
      ctx.check(
          calls.index(resets[0]) < calls.index(shown[0])
          and calls.index(fresh[0]) < calls.index(shown[0]),
          f'call {i}: features of the goal before',
      )
      steps = 0
      continue
    steps += 1
    ctx.check(
        len(verdicts) == 1 and verdicts[0][1] is now and not resets
        and not fresh,
        f'call {i}: the goal is asked about something else',
    )
    _, _, kind, reward = verdicts[0]
    over = kind != 'on' or steps >= c['limit']
    ctx.check(
        t.last() == over and not t.first(), f'call {i}: {kind}: {t.step_type}'
    )
    ctx.close(float(t.reward), reward, f'call {i}: reward', atol=1e-6)
    want = obskit.GAMMA ** now.elapsed_time.total_seconds()
    if kind in ('end', 'both'):
      want = 0.0
    ctx.close(float(t.discount), want, f'call {i}: {kind}: discount', atol=1e-9)
    if over:
      steps = None
      ends += 1
  ctx.nontrivial(ends >= 1)


PARTS = [
    Part('history', history, check_history, 90, 2500),
    Part('long', long_history, check_history, 6, 100),
    Part('seed', lambda: history(False), check_seed, 30, 800),
    Part('verdict', verdict_case, check_verdict, 60, 1500),
    Part('limit', limit_case, check_limit, 200, 5000),
]
WEIGHTS = {'history': 4.0, 'long': 40.0, 'seed': 3.0}

ASSUMPTIONS = [
    'the silicon stays on the sheet (70 angstrom across)',
    'the observer notifications are right (P08)',
]

