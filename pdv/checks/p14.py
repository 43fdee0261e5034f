"""P14: evaluation results."""

import datetime as dt
import math
import os
import tempfile
import time
import types

import dm_env
from hypothesis import strategies as st
import numpy as np
from pdv import gen
from pdv.core import Part
from putting_dune import eval_lib
from putting_dune import simulator_observers
from putting_dune.agents import agent_lib

PROPERTY = 'P14'
RULE = (
    'Scripted episodes (elapsed times, rewards, termination, truncation or'
    ' neither) for every seed of a generated suite, with a generated timeout;'
    ' the results are compared with an account of what was played. Aggregates'
    ' are compared with their definition on generated results. Non-trivial: at'
    ' least two seeds with different outcomes.'
)


@st.composite
def episode(draw):
  n = draw(st.integers(1, 8))
  # Some episodes are long, with short steps.
  times = draw(st.sampled_from([1, 1, 1, 1, 1, 25, 45]))
  longest = 60 if times == 1 else 1
  return {
      'start': draw(st.sampled_from([0.0, 2.0, 3.5])),
      # Dyadic, so that sums are exact and the timeout is never a close call.
      'elapsed': [draw(gen.nice(0, longest, 4)) for _ in range(n)] * times,
      'reward': [draw(gen.nice(-2, 2, 8)) for _ in range(n)] * times,
      'end': draw(st.sampled_from(['goal', 'goal', 'cut', 'none'])),
  }


@st.composite
def eval_case(draw):
  seeds = draw(
      st.lists(st.integers(0, 10**6), min_size=1, max_size=6, unique=True)
  )
  episodes = [draw(episode()) for _ in seeds]
  pause = draw(st.sampled_from([0.0, 0.0, 0.002]))
  if max(len(e['elapsed']) for e in episodes) > 8:
    pause = 0.0
  if draw(st.integers(0, 5)) == 0:
    # A suite may ask for the same seed twice.
    seeds, episodes = seeds + seeds[:1], episodes + episodes[:1]
  return {
      'seeds': seeds,
      'episodes': episodes,
      # Half a step away from any sum of elapsed times.
      'timeout': draw(gen.nice(1, 200, 4)) + 0.125,
      'pause': pause,
  }


class Scripted(dm_env.Environment):
  """Plays the episode that belongs to the seed it was given."""

  def __init__(self, c):
    self.plan = dict(zip(c['seeds'], c['episodes']))
    self.log = []
    self.observers = []
    self.sim = types.SimpleNamespace(
        add_observer=self.observers.append,
        remove_observer=self.observers.remove,
    )
    self.goal = types.SimpleNamespace(
        goal_position_material_frame=np.zeros(2)
    )
    self.last_microscope_observation = None
    self.current = None

  def seed(self, seed):
    self.log.append(('seed', seed))
    self.next_seed = seed

  def _observe(self, seconds):
    self.last_microscope_observation = types.SimpleNamespace(
        elapsed_time=dt.timedelta(seconds=seconds)
    )

  def reset(self):
    self.log.append(('reset',))
    self.current = self.plan[self.next_seed]
    self.i = 0
    self._observe(self.current['start'])
    return dm_env.restart(np.array([float(self.next_seed), -1.0]))

  def step(self, action):
    e = self.current
    i = self.i % len(e['elapsed'])
    self.i += 1
    self.log.append(('step', action))
    self._observe(e['elapsed'][i])
    o = np.array([float(self.next_seed), float(self.i)])
    if self.i == len(e['elapsed']) and e['end'] == 'goal':
      return dm_env.termination(e['reward'][i], o)
    if self.i == len(e['elapsed']) and e['end'] == 'cut':
      return dm_env.truncation(e['reward'][i], o, 0.5)
    if self.i > 1000:
      return dm_env.truncation(0.0, o, 0.5)
    return dm_env.transition(e['reward'][i], o, 0.99)

  def action_spec(self):
    return None

  def observation_spec(self):
    return None


class Probe(agent_lib.Agent):
  """Returns what it was shown, so that the environment can tell."""

  def __init__(self, pause):
    self.mode = None
    self.pause = pause
    self.steps = 0

  def step(self, time_step):
    if self.pause:
      time.sleep(self.pause)
    self.steps += 1
    return np.array(time_step.observation)

  def set_mode(self, mode):
    self.mode = mode


def check_eval(c, ctx):
  env = Scripted(c)
  agent = Probe(c['pause'])
  t0 = time.perf_counter()
  results = eval_lib.evaluate(
      agent,
      env,
      eval_lib.EvalSuite(tuple(c['seeds'])),
      timeout=dt.timedelta(seconds=c['timeout']),
  )
  wall = time.perf_counter() - t0
  if wall > 0.1:
    return  # The machine stalled; agent time could sway the timeout.
  ctx.check(agent.mode == agent_lib.AgentMode.EVAL, f'mode {agent.mode}')
  ctx.check(
      [r.seed for r in results] == c['seeds'], 'one result per seed, in order'
  )
  # What was played.
  runs, log = [], list(env.log)
  while log:
    kind = log.pop(0)
    ctx.check(kind[0] == 'seed', 'an episode does not start with its seed')
    ctx.check(
        log and log.pop(0)[0] == 'reset', 'the environment was not reset'
    )
    n = 0
    while log and log[0][0] == 'step':
      shown = log.pop(0)[1]
      ctx.check(
          shown[0] == kind[1] and shown[1] == (n if n else -1),
          'the agent did not see the latest time step',
      )
      n += 1
    runs.append((kind[1], n))
  ctx.check([r[0] for r in runs] == c['seeds'], 'seeds played')
  for r, (_, n), e in zip(results, runs, c['episodes']):
    k = len(e['elapsed'])
    # How many actions fit, by the definition of the timeout.
    total, steps, over = e['start'], 0, False
    while total < c['timeout'] and steps < 1001 and not over:
      total += e['elapsed'][steps % k]
      steps += 1
      over = steps == k and e['end'] != 'none'
    if steps >= 1001:
      return
    ctx.check(n == steps, f'{n} actions were taken, {steps} expected')
    ctx.check(r.num_actions_taken == n, 'number of actions')
    reached = over and e['end'] == 'goal'
    ctx.check(bool(r.reached_goal) == reached, f'reached goal: {r}')
    want = sum(e['reward'][i % k] for i in range(n))
    ctx.close(r.total_reward, want, 'total reward', atol=1e-9)
    ctx.label(
        'reached' if reached else ('truncated' if over else 'timed out')
    )
    if reached:
      ctx.close(
          r.environment_seconds_to_goal, total, 'environment time', atol=1e-5
      )
      ctx.check(
          n * c['pause'] * 0.9 - 1e-4 <= r.agent_seconds_to_goal <= wall + 1e-3,
          f'agent time {r.agent_seconds_to_goal}, {wall} s in all',
      )
      ctx.close(
          r.seconds_to_goal,
          r.agent_seconds_to_goal + r.environment_seconds_to_goal,
          'total time',
      )
    else:
      ctx.check(
          math.isnan(r.agent_seconds_to_goal)
          and math.isnan(r.environment_seconds_to_goal)
          and math.isnan(r.seconds_to_goal),
          'a time to goal although it was not reached',
      )
  ctx.check(not env.observers, 'observers were left behind')
  ctx.nontrivial(len({e['end'] for e in c['episodes']}) > 1)


def check_slow_agent(c, ctx):
  """The timeout covers the time an agent spends thinking."""
  c = dict(c, episodes=[dict(e, end='none', elapsed=[0.0]) for e in c['episodes']])
  c['seeds'], c['episodes'] = c['seeds'][:1], c['episodes'][:1]
  c['episodes'][0]['start'] = 0.0
  env = Scripted(c)
  agent = Probe(0.01)
  results = eval_lib.evaluate(
      agent,
      env,
      eval_lib.EvalSuite(tuple(c['seeds'])),
      timeout=dt.timedelta(seconds=0.1),
  )
  ctx.check(
      1 <= agent.steps <= 11,
      f'{agent.steps} actions of 10 ms each within a timeout of 100 ms',
  )
  ctx.check(not results[0].reached_goal, 'goal reached')
  ctx.nontrivial()


@st.composite
def aggregate_case(draw):
  out = []
  for i in range(draw(st.integers(1, 12))):
    reached = draw(st.booleans())
    out.append({
        # Results of several evaluations may be put together.
        'seed': draw(st.sampled_from([i, i, i, 0])),
        'reached': reached,
        'n': draw(st.integers(0, 200)),
        'agent': draw(gen.real(0, 50)),
        'env': draw(gen.real(0, 600)),
        'reward': draw(gen.real(-5, 5)),
    })
  return out


def check_aggregate(c, ctx):
  nan = float('nan')
  results = [
      eval_lib.EvalResult(
          seed=r['seed'],
          reached_goal=r['reached'],
          num_actions_taken=r['n'],
          agent_seconds_to_goal=r['agent'] if r['reached'] else nan,
          environment_seconds_to_goal=r['env'] if r['reached'] else nan,
          total_reward=r['reward'],
      )
      for r in c
  ]
  a = eval_lib.aggregate_results(results)
  good = [r for r in c if r['reached']]
  mean = lambda k: sum(r[k] for r in good) / len(good) if good else 0.0
  ctx.close(
      a.average_num_times_reached_goal, len(good) / len(c), 'success rate'
  )
  for name, key in (
      ('average_num_actions_taken', 'n'),
      ('average_agent_seconds_to_goal', 'agent'),
      ('average_environment_seconds_to_goal', 'env'),
      ('average_total_reward', 'reward'),
  ):
    ctx.close(getattr(a, name), mean(key), name, rtol=1e-9)
  ctx.close(
      a.average_seconds_to_goal, mean('agent') + mean('env'), 'average time'
  )
  ctx.nontrivial(0 < len(good) < len(c))
  # The order of the results does not matter.
  b = eval_lib.aggregate_results(results[::-1])
  ctx.close(b.average_total_reward, a.average_total_reward, 'order')


def check_suites(c, ctx):
  """The named suites are sets of distinct seeds of growing size."""
  del c
  sizes = []
  for name in ('tiny_eval', 'small_eval', 'medium_eval', 'big_eval'):
    s = eval_lib.EVAL_SUITES[name].seeds
    ctx.check(len(set(s)) == len(s), f'{name} repeats a seed')
    sizes.append(len(s))
  ctx.check(sizes == [10, 100, 1000, 10000], f'suite sizes {sizes}')
  ctx.nontrivial()


@st.composite
def real_case(draw):
  return {
      'seeds': draw(
          st.lists(st.integers(0, 999), min_size=1, max_size=3, unique=True)
      ),
      'other': draw(st.integers(0, 999)),
      'timeout': draw(st.sampled_from([20.0, 60.0, 200.0])),
      'greedy': draw(st.booleans()),
  }


def check_real(c, ctx):
  """With the simulator: a seed's result does not depend on the others."""
  from putting_dune import run_helpers  # pylint: disable=g-import-not-at-top
  from putting_dune.experiments import registry  # pylint: disable=g-import-not-at-top

  class Fixed(agent_lib.Agent):

    def step(self, time_step):
      o = time_step.observation
      nb = np.asarray(o[2:8]).reshape(3, 2)
      return nb[np.argmax(nb @ o[8:])] * (1.0 if c['greedy'] else -0.5)

    def set_mode(self, mode):
      pass

  experiment = registry.create_train_experiment('relative_simple_rates')

  def run(seeds):
    env = run_helpers.create_putting_dune_env(
        7,
        get_adapters_and_goal=experiment.get_adapters_and_goal,
        get_simulator_config=experiment.get_simulator_config,
        step_limit=30,
    )
    book = simulator_observers.EventObserver()
    env.sim.add_observer(book)
    return eval_lib.evaluate(
        Fixed(),
        env,
        eval_lib.EvalSuite(tuple(seeds)),
        timeout=dt.timedelta(seconds=c['timeout']),
    )

  key = lambda r: (
      r.seed,
      r.reached_goal,
      r.num_actions_taken,
      r.total_reward,
      str(r.environment_seconds_to_goal),
  )
  both = [key(r) for r in run([c['other'] + 1000, *c['seeds']])][1:]
  alone = [key(run([s])[0]) for s in c['seeds']]
  ctx.check(both == alone, f'{both} in a suite, {alone} on their own')
  for r in both:
    ctx.label('reached' if r[1] else 'not reached')
    if r[1]:
      ctx.check(0 < r[3] <= 1.0, f'reward {r[3]} for reaching the goal')
      ctx.check(
          abs(float(r[4]) - (2.0 + 3.5 * r[2])) < 2.0 * r[2] + 1e-6,
          'environment time',
      )
    else:
      ctx.check(r[3] == 0.0, f'reward {r[3]} without reaching the goal')
  ctx.nontrivial()


@st.composite
def filmed_case(draw):
  return {
      'seeds': draw(
          st.lists(st.integers(0, 999), min_size=1, max_size=2, unique=True)
      ),
      'steps': draw(st.integers(1, 2)),
  }


def check_filmed(c, ctx):
  """Saving videos changes neither the agent's mode nor the results."""
  from putting_dune import run_helpers  # pylint: disable=g-import-not-at-top
  from putting_dune.experiments import registry  # pylint: disable=g-import-not-at-top

  experiment = registry.create_train_experiment('relative_simple_rates')

  class Modal(agent_lib.Agent):
    mode = agent_lib.AgentMode.TRAIN

    def step(self, time_step):
      del time_step
      if self.mode != agent_lib.AgentMode.EVAL:
        return np.array([5.0, 5.0], np.float32)
      return np.array([0.25, -0.5], np.float32)

    def set_mode(self, mode):
      self.mode = mode

  def run(where):
    env = run_helpers.create_putting_dune_env(
        7,
        get_adapters_and_goal=experiment.get_adapters_and_goal,
        get_simulator_config=experiment.get_simulator_config,
        step_limit=c['steps'],
    )
    seen = []
    step = env.step
    env.step = lambda action: (seen.append(np.array(action)), step(action))[1]
    agent = Modal()
    results = eval_lib.evaluate(
        agent,
        env,
        eval_lib.EvalSuite(tuple(c['seeds'])),
        video_save_dir=where,
    )
    ctx.check(agent.mode == agent_lib.AgentMode.EVAL, f'mode {agent.mode}')
    ctx.check(
        all(np.array_equal(a, [0.25, -0.5]) for a in seen),
        'played before the agent was in evaluation mode',
    )
    return [
        (r.seed, r.reached_goal, r.num_actions_taken, r.total_reward)
        for r in results
    ]

  plain = run(None)
  with tempfile.TemporaryDirectory(prefix='pdv_film_') as scratch:
    filmed = run(scratch)
    names = sorted(os.listdir(scratch))
  ctx.check(filmed == plain, f'{filmed} with videos, {plain} without')
  ctx.check(
      names == sorted(f"{s}.gif" for s in c['seeds']), f'videos {names}'
  )
  ctx.nontrivial()


PARTS = [
    Part('evaluate', eval_case, check_eval, 250, 8000),
    Part('slow agent', eval_case, check_slow_agent, 4, 40),
    Part('aggregate', aggregate_case, check_aggregate, 300, 8000),
    Part('suites', lambda: st.just(0), check_suites, 1, 1, shards=1),
    Part('real', real_case, check_real, 12, 300),
    Part('filmed', filmed_case, check_filmed, 3, 40),
]
WEIGHTS = {'real': 3.0}

ASSUMPTIONS = [
    'agents of the scripted part answer within 0.1 s per evaluation; slower'
    ' runs are not judged',
]
