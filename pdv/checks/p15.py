"""P15: running an agent on a microscope, and its log."""

import csv
import os
import re
import shutil
import tempfile

import dm_env
from hypothesis import strategies as st
import numpy as np
from pdv import gen
from pdv import obskit
from pdv.core import Part
from putting_dune import action_adapters as aa
from putting_dune import feature_constructors as fc
from putting_dune import goals
from putting_dune import io as pdio
from putting_dune import microscope_agent
from putting_dune import microscope_utils as mu
from putting_dune.experiments import experiments

PROPERTY = 'P15'
RULE = (
    'Histories of resets, steps (with the silicon at a generated distance from'
    ' the goal, or lost), and flushes of the log, for agents with scripted'
    ' actions and goals that may also cut an episode off. The calls the agent'
    ' receives and the files are compared with an account of the history.'
    ' Non-trivial: at least two episodes with steps, or silicon was lost and'
    ' found again.'
)


class CuttingGoal(goals.SingleSiliconGoalReaching):
  """Also truncates after a number of questions; counts the questions."""

  def __init__(self, cut):
    super().__init__()
    self.cut = cut
    self.asked = 0

  def reset(self, rng, initial_observation):
    super().reset(rng, initial_observation)
    self.since = 0

  def calculate_reward_and_terminal(self, observation):
    r = super().calculate_reward_and_terminal(observation)
    self.asked += 1
    self.since += 1
    if self.cut and self.since % self.cut == 0 and not r.is_terminal:
      return goals.GoalReturn(0.25, False, True)
    return r


class PlainGoal(goals.Goal):
  """A goal that has no position."""

  def __init__(self, cut):
    self.cut = cut or 3
    self.asked = 0

  def reset(self, rng, initial_observation):
    self.since = 0

  def calculate_reward_and_terminal(self, observation):
    self.asked += 1
    self.since += 1
    return goals.GoalReturn(
        self.since / 8, False, self.since % self.cut == 0
    )


class PlainFeatures(fc.FeatureConstructor):

  def reset(self):
    self.was_reset = True

  def get_features(self, observation, goal):
    return np.asarray(observation.grid.atom_positions).sum(axis=0)

  def observation_spec(self):
    raise NotImplementedError

  @property
  def requires_image(self):
    return False


class Probe:
  """Plays scripted actions and keeps what it was shown."""

  def __init__(self, actions):
    self.actions = actions
    self.seen = []

  def step(self, time_step):
    a = self.actions[len(self.seen) % len(self.actions)]
    self.seen.append(time_step)
    return np.asarray(a, dtype=np.float32)


@st.composite
def history(draw):
  ops = [{'op': 'reset', 'obs': draw(obskit.obs_case())}]
  # Long episodes, or short ones that often start without silicon in view.
  kinds = draw(
      st.sampled_from([
          ['step'] * 7 + ['lost', 'reset', 'flush'],
          ['step'] * 4 + ['lost'] * 3 + ['reset'] * 4 + ['flush'],
      ])
  )
  # Mostly short, sometimes long.
  n = draw(st.one_of(st.integers(1, 14), st.integers(1, 14), st.integers(20, 50)))
  for _ in range(n):
    k = draw(st.sampled_from(kinds))
    o = {'op': k}
    if k == 'reset':
      o['obs'] = draw(obskit.obs_case())
    elif k in ('step', 'lost'):
      o.update(
          # Not right at the limit of 0.71.
          d=draw(st.one_of(gen.real(0.72, 3.0), gen.real(0.0, 0.7))),
          angle=draw(gen.real(0, 6.28)),
          spin=draw(gen.real(0, 6.28)),
          size=draw(gen.real(8.0, 25.0)),
          at=[draw(gen.real(0.3, 0.7)), draw(gen.real(0.3, 0.7))],
          elapsed=draw(
              st.one_of(
                  gen.real(0, 60),
                  st.just(0.0),
                  st.just(1.5),
                  gen.real(60, 900),
              )
          ),
          controls=draw(st.integers(0, 2)),
          image=draw(st.integers(0, 4)) == 0,
          more=draw(st.sampled_from([0, 0, 0, 1, 12, 60, 250])),
      )
    ops.append(o)
  goal = draw(st.sampled_from(['site', 'site', 'site', 'plain']))
  return {
      'ops': ops,
      'seed': draw(gen.seeds()),
      'goal': goal,
      'cut': draw(st.sampled_from([0, 0, 1, 2, 3])),
      'actions': draw(st.lists(gen.xy(-1.3, 1.3), min_size=1, max_size=6)),
      'end': draw(st.sampled_from(['with', 'flush', 'twice', 'error'])),
      # Only goals that look for the silicon let the adapter rely on it.
      'adapter': draw(
          st.sampled_from(
              ['direct', 'delta'] + ['relative'] * 2 * (goal == 'site')
          )
      ),
  }


def observation(o, goal_position):
  """Silicon with three neighbors at a given distance from the goal."""
  si = goal_position + o['d'] * np.array([np.cos(o['angle']), np.sin(o['angle'])])
  t = o['spin'] + np.arange(3) * 2 * np.pi / 3
  p = np.concatenate([[si], si + 1.42 * np.stack([np.cos(t), np.sin(t)], 1)])
  z = np.array([6 if o['op'] == 'lost' else 14, 6, 6, 6])
  ll = si - np.asarray(o['at']) * o['size']
  # Carbons that are nobody's neighbor, all over the view.
  k = np.arange(o.get('more', 0))
  away = np.stack([np.mod(k * 0.618034, 1), np.mod(k * 0.754878, 1)], 1)
  away = ll + away * o['size']
  away = away[np.hypot(*(away - si).T) > 3.5]
  p, z = np.concatenate([p, away]), np.concatenate([z, np.full(len(away), 6)])
  order = [1, 0, *range(2, len(p))]
  return mu.MicroscopeObservation(
      grid=mu.AtomicGrid(((p - ll) / o['size'])[order], z[order]),
      fov=mu.MicroscopeFieldOfView(
          gen.make_point(ll), gen.make_point(ll + o['size'])
      ),
      controls=tuple(
          gen.make_control({'xy': [0.25, 0.5 * i], 'dwell': 1.5, 'kv': 60.0, 'na': 0.5})
          for i in range(o['controls'])
      ),
      elapsed_time=obskit.dt.timedelta(seconds=o['elapsed']),
      image=(
          np.arange(12, dtype=np.float32).reshape(3, 4) / 8 + o['at'][0]
          if o.get('image')
          else None
      ),
  )


def build(c):
  probe = Probe(c['actions'])
  goal = (PlainGoal if c['goal'] == 'plain' else CuttingGoal)(c['cut'])
  adapter = {
      'relative': aa.RelativeToSiliconActionAdapter,
      'direct': aa.DirectActionAdapter,
      'delta': lambda: aa.DeltaPositionActionAdapter(np.random.default_rng(1)),
  }[c['adapter']]()
  features = (
      PlainFeatures()
      if c['goal'] == 'plain'
      else fc.SingleSiliconMaterialFrameFeatureConstructor()
  )
  experiment = experiments.MicroscopeExperiment(
      get_agent=lambda rng, _: probe,
      get_adapters_and_goal=lambda: experiments.AdaptersAndGoal(
          adapter, features, goal
      ),
  )
  agent = microscope_agent.MicroscopeAgent(
      np.random.default_rng(c['seed']), experiment
  )
  return agent, probe, goal


def same_observation(ctx, a, b, what):
  ctx.close(
      a.grid.atom_positions, b.grid.atom_positions, what + ': atoms', atol=1e-6
  )
  ctx.check(
      np.array_equal(a.grid.atomic_numbers, b.grid.atomic_numbers),
      f'{what}: elements differ',
  )
  ctx.close(gen.fov_array(a.fov), gen.fov_array(b.fov), what + ': view', atol=1e-5)
  ctx.close(
      a.elapsed_time.total_seconds(),
      b.elapsed_time.total_seconds(),
      f'{what}: elapsed time',
      atol=1e-4,
      rtol=1e-6,
  )
  ctx.check(len(a.controls) == len(b.controls), f'{what}: controls')
  for x, y in zip(a.controls, b.controls):
    ctx.close(
        gen.pt(x.position), gen.pt(y.position), f'{what}: exposure', atol=1e-6
    )
    ctx.close(
        x.dwell_time.total_seconds(),
        y.dwell_time.total_seconds(),
        f'{what}: dwell time',
        atol=1e-5,
    )
  ctx.check((a.image is None) == (b.image is None), f'{what}: image')
  if b.image is not None:
    ctx.close(
        np.squeeze(np.asarray(a.image)), b.image, f'{what}: image', atol=1e-5
    )


def read_log(path):
  def rows(name):
    with open(os.path.join(path, name)) as f:
      return list(csv.DictReader(f))

  trajectories = list(
      pdio.read_records(os.path.join(path, 'trajectories.tfrecords'), mu.Trajectory)
  )
  return rows('steps.csv'), rows('episodes.csv'), trajectories


def check_log(ctx, path, episodes, what):
  """The files tell of exactly these episodes."""
  steps, records, trajectories = read_log(path)
  played = [e for e in episodes if e['steps']]
  want = [(i, s) for i, e in enumerate(played) for s in e['steps']]
  ctx.check(
      len(steps) == len(want), f'{what}: {len(steps)} steps, {len(want)} were made'
  )
  number = {}
  for row, (i, s) in zip(steps, want):
    number.setdefault(i, set()).add(int(row['episode']))
    ctx.close(float(row['reward']), s['reward'], f'{what}: reward', atol=1e-9)
    ctx.close(
        float(row['elapsed_seconds']), s['elapsed'], f'{what}: time', atol=1e-6
    )
    ctx.check(
        row['terminal'] == str(bool(s['terminal'])),
        f"{what}: terminal is {row['terminal']}",
    )
  ctx.check(
      [sorted(number[i]) for i in range(len(played))]
      == [[i] for i in range(len(played))],
      f'{what}: episode numbers of the steps {number}',
  )
  counts = [int(r['episode_step']) for r in steps]
  for i, e in enumerate(played):
    mine = [k for k, (j, _) in zip(counts, want) if j == i]
    ctx.check(
        np.array_equal(np.diff(mine), np.ones(len(mine) - 1)),
        f'{what}: steps of an episode are numbered {mine}',
    )
    ctx.check(mine[0] in (0, 1), f'{what}: first step is number {mine[0]}')
  ctx.check(
      len(records) == len(played),
      f'{what}: {len(records)} episode records, {len(played)} were played',
  )
  for i, (row, e) in enumerate(zip(records, played)):
    ctx.check(int(row['episode']) == i, f"{what}: record {i} is {row['episode']}")
    ctx.check(
        int(row['episode_steps']) == len(e['steps']), f'{what}: number of steps'
    )
    ctx.close(
        float(row['episode_return']),
        sum(s['reward'] for s in e['steps']),
        f'{what}: return',
        atol=1e-9,
    )
    numbers = [
        float(x)
        for x in re.findall(r'-?\d+\.?\d*(?:e[-+]?\d+)?', row['episode_goal'])
    ]
    if e['goal'] is None:
      ctx.check(not numbers, f"{what}: goal {row['episode_goal']}")
    else:
      ctx.close(numbers, e['goal'], f'{what}: goal', atol=1e-6)
  ctx.check(
      len(trajectories) == len(played),
      f'{what}: {len(trajectories)} trajectories, {len(played)} were played',
  )
  for t, e in zip(trajectories, played):
    ctx.check(
        len(t.observations) == len(e['steps']), f'{what}: trajectory length'
    )
    for a, s in zip(t.observations, e['steps']):
      same_observation(ctx, a, s['obs'], f'{what}: trajectory')


class Stop(Exception):
  pass


def check(c, ctx):
  scratch = tempfile.mkdtemp(prefix='pdv_log_')
  try:
    _check(c, ctx, scratch)
  finally:
    shutil.rmtree(scratch, ignore_errors=True)


def _check(c, ctx, scratch):
  plain, _, plain_goal = build(c)
  agent, probe, goal = build(c)
  logger = microscope_agent.MicroscopeAgentLogger(agent, logdir=scratch)
  rng, plain_rng = (np.random.default_rng(c['seed']) for _ in range(2))
  episodes = []
  fresh = True
  seen_lost = found = False

  def run():
    nonlocal fresh, seen_lost, found
    for o in c['ops']:
      if o['op'] == 'flush':
        logger.flush()
        check_log(ctx, scratch, episodes, 'flush on the way')
        ctx.label('flush on the way')
        continue
      if o['op'] == 'reset':
        obs = obskit.View(o['obs']).observation()
        logger.reset(rng, obs)
        plain.reset(plain_rng, obs)
        here = None
        if c['goal'] != 'plain':
          here = np.asarray(
              goal.goal_position_material_frame, dtype=float
          ).reshape(-1)
          ctx.close(
              here,
              np.asarray(plain_goal.goal_position_material_frame).reshape(-1),
              'goal with and without a log',
          )
          here = here.tolist()
        episodes.append({'goal': here, 'steps': []})
        fresh = True
        continue
      where = np.array(episodes[-1]['goal'] or [0.0, 0.0])
      obs = observation(o, where)
      asked, looked = goal.asked, len(probe.seen)
      controls = logger.step(obs)
      others = plain.step(obs)
      ctx.check(
          len(controls) == len(others) == 1
          and np.allclose(
              gen.pt(controls[0].position), gen.pt(others[0].position), atol=1e-9
          )
          and controls[0].dwell_time == others[0].dwell_time,
          f'controls with a log {controls}, without {others}',
      )
      elapsed = obs.elapsed_time.total_seconds()
      blind = o['op'] == 'lost' and (
          c['goal'] != 'plain'
      )
      if blind:
        seen_lost = True
        ctx.check(
            len(probe.seen) == looked, 'the agent acted on a view without silicon'
        )
        ctx.check(
            controls[0].dwell_time.total_seconds() == 0,
            f'exposed for {controls[0].dwell_time} without silicon in view',
        )
        episodes[-1]['steps'].append(
            {'reward': 0.0, 'terminal': False, 'elapsed': elapsed, 'obs': obs}
        )
        continue
      found = seen_lost
      ctx.check(goal.asked == asked + 1, f'the goal was asked {goal.asked - asked} times')
      ctx.check(len(probe.seen) == looked + 1, 'the agent was not asked once')
      t = probe.seen[-1]
      if c['goal'] == 'plain':
        there = False
        reward = goal.since / 8
        cut = goal.since % goal.cut == 0
      else:
        there = o['d'] < 0.71
        reward = obskit.GAMMA**elapsed if there else 0.0
        cut = bool(c['cut']) and goal.since % c['cut'] == 0 and not there
        if cut:
          reward = 0.25
      discount = obskit.GAMMA**elapsed
      kind = (
          dm_env.StepType.LAST
          if there or cut
          else dm_env.StepType.FIRST if fresh else dm_env.StepType.MID
      )
      ctx.check(t.step_type == kind, f'{t.step_type}, expected {kind}')
      if kind != dm_env.StepType.FIRST:
        ctx.close(float(t.reward), reward, 'reward shown', atol=1e-9)
        ctx.close(
            float(t.discount), 0.0 if there else discount, 'discount', atol=1e-9
        )
      features = agent.feature_constructor.get_features(obs, goal)
      ctx.check(np.array_equal(t.observation, features), 'features shown')
      fresh = False
      # The control is where the action denotes.
      a = np.asarray(c['actions'][looked % len(c['actions'])], np.float32)
      got = gen.pt(controls[0].position)
      if c['adapter'] == 'direct':
        ctx.close(got, np.clip(a, 0, 1), 'beam position', atol=1e-6)
      elif c['adapter'] == 'relative':
        want = np.asarray(o['at']) + np.clip(a, -1, 1) * 1.42 / o['size']
        ctx.close(got, np.clip(want, 0, 1), 'beam position', atol=1e-5)
      ctx.check(controls[0].dwell_time.total_seconds() > 0, 'no exposure')
      episodes[-1]['steps'].append({
          'reward': reward,
          'terminal': there,
          'elapsed': elapsed,
          'obs': obs,
      })
    if c['end'] == 'error':
      raise Stop()

  if c['end'] in ('with', 'error'):
    try:
      with logger:
        run()
    except Stop:
      ctx.label('error')
    else:
      check_log(ctx, scratch, episodes, 'leaving the log')
  else:
    run()
    logger.flush()
    if c['end'] == 'twice':
      logger.flush()
    check_log(ctx, scratch, episodes, 'flush')
  ctx.nontrivial(
      found or sum(bool(e['steps']) for e in episodes) >= 2
  )


PARTS = [Part('history', history, check, 150, 4000)]

ASSUMPTIONS = [
    'an agent is reset before its first step',
    'episodes without a single step leave no trace in the log',
]
