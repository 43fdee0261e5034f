"""P31: the named experiments, and the program that evaluates them."""

import datetime as dt
import inspect
import logging as std_logging
import math
import pathlib
import re
import tempfile
from unittest import mock

from absl import logging
import dm_env
from hypothesis import strategies as st
import numpy as np
from pdv import gen
from pdv import obskit
from pdv.core import Part
from putting_dune import eval as eval_program
from putting_dune import eval_lib
from putting_dune import microscope_agent
from putting_dune import plotting_utils
from putting_dune import run_helpers
from putting_dune import simulator_observers
from putting_dune.agents import agent_lib
from putting_dune.experiments import experiments
from putting_dune.experiments import registry

PROPERTY = 'P31'
RULE = (
    'Environments and microscope agents are made from the named experiments'
    ' and played, alone and with others being made, reset, seeded and stepped'
    ' in between, and the two accounts are compared; the evaluation program is'
    ' run on generated results and episodes. Non-trivial: another environment'
    ' or agent was used in between, or at least two results.'
)

BOND = 1.42
TRAIN = (
    'relative_simple_rates',
    'relative_prior_rates',
    'relative_simple_rates_from_images',
    'relative_simple_rates_from_images_variable_time',
    'direct_simple_rates_from_images',
)
EVAL = ('relative_random_simple', 'relative_random_prior_rates')
# The furthest they aim from the silicon, in bond lengths, and their dwell times.
RANDOM = {
    'relative_random': (1, 1.5, 1.5),
    'relative_random_long': (2, 1.0, 5.0),
    'relative_random_extra_long': (3, 1.0, 5.0),
}
GREEDY = (
    'greedy_on_neighbor',
    'greedy_short_of_neighbor',
    'greedy_on_neighbor_offset_horizontally',
    'greedy_from_learned_rates_v3',
    'greedy_from_learned_rates_v5',
)


# Environments.


@st.composite
def env_case(draw, pixels=False):
  name = st.sampled_from(
      [n for n in TRAIN + EVAL if ('image' in n) == pixels]
  )
  first = draw(name)
  second = draw(
      st.one_of(
          st.just(first), name, st.sampled_from(['relative_simple_rates'])
      )
  )
  op = st.tuples(
      st.sampled_from(['step'] * 8 + ['reset', 'seed', 'new']),
      st.booleans(),
      st.integers(0, 9999),
  ).map(list)
  return {
      'names': [first, second],
      'seeds': [draw(st.integers(0, 99)), draw(st.integers(0, 99))],
      'limit': draw(st.integers(2, 30)),
      'ops': draw(st.lists(op, min_size=4, max_size=6 if pixels else 40)),
      'far': draw(st.booleans()),
  }


def make_env(name, seed, limit):
  if name in TRAIN:
    e = registry.create_train_experiment(name)
  else:
    e = registry.create_eval_experiment(name)
  return run_helpers.create_putting_dune_env(
      seed,
      get_adapters_and_goal=e.get_adapters_and_goal,
      get_simulator_config=e.get_simulator_config,
      step_limit=limit,
  )


def seen(observation):
  """An observation as a list, named parts in the order of their names."""
  if isinstance(observation, dict):
    return [observation[k] for k in sorted(observation)]
  return [observation]


def account(env, time_step):
  last = env.last_microscope_observation
  return [
      int(time_step.step_type),
      time_step.reward,
      time_step.discount,
      *(np.array(x, copy=True) for x in seen(time_step.observation)),
      np.array(last.grid.atom_positions, copy=True),
      np.array(last.grid.atomic_numbers, copy=True),
      gen.fov_array(last.fov),
      last.elapsed_time,
      [(c.position.x, c.position.y, c.dwell_time) for c in last.controls],
      (
          env.goal.goal_position_material_frame.x,
          env.goal.goal_position_material_frame.y,
      )
      if hasattr(env.goal.goal_position_material_frame, 'x')
      else tuple(np.asarray(env.goal.goal_position_material_frame).ravel()),
  ]


def same(a, b):
  for x, y in zip(a, b):
    if isinstance(x, np.ndarray):
      if x.shape != y.shape or not np.array_equal(x, y):
        return False
    elif x != y:
      return False
  return True


def play(c, ctx, alone):
  """What happens in the first environment."""
  envs = [make_env(c['names'][0], c['seeds'][0], c['limit'])]
  if not alone:
    envs.append(make_env(c['names'][1], c['seeds'][1], c['limit']))
  history = [account(envs[0], envs[0].reset())]
  if not alone:
    envs[1].reset()
  for kind, other, number in c['ops']:
    if other and alone:
      continue
    i = int(other)
    env = envs[i]
    if kind == 'new':
      if other:
        envs[1] = make_env(c['names'][1], number, c['limit'])
        envs[1].reset()
      continue
    if kind == 'seed':
      env.seed(number)
      continue
    if kind == 'reset':
      ts = env.reset()
    else:
      spec = env.action_spec()
      rng = np.random.default_rng(number)
      low = np.broadcast_to(spec.minimum, spec.shape)
      high = np.broadcast_to(spec.maximum, spec.shape)
      a = rng.uniform(low, high)
      if c['far']:
        a = np.where(rng.uniform(size=a.shape) < 0.5, low, high)
      ts = env.step(a.astype(spec.dtype))
    if i == 0:
      history.append(account(env, ts))
      if alone:
        spec = env.observation_spec()
        try:
          for s, x in zip(seen(spec), seen(ts.observation), strict=True):
            s.validate(x)
        except ValueError as e:
          ctx.fail(f'{c["names"][0]}: {e}')
  return history


def check_env(c, ctx):
  alone = play(c, ctx, True)
  together = play(c, ctx, False)
  ctx.check(len(alone) == len(together), f'{len(alone)} and {len(together)}')
  for i, (a, b) in enumerate(zip(alone, together)):
    ctx.check(
        same(a, b),
        f'{c["names"][0]}: observation {i} depends on what happens in another'
        f' environment ({c["names"][1]})',
    )
  if c['seeds'][0] != c['seeds'][1]:
    other = make_env(c['names'][0], c['seeds'][1], c['limit'])
    ctx.check(
        not same(alone[0], account(other, other.reset())),
        f'{c["names"][0]}: seeds {c["seeds"]} play the same episode',
    )
  steps = 0
  for h in alone:
    steps = 0 if h[0] == dm_env.StepType.FIRST else steps + 1
    ctx.check(
        steps < c['limit'] or h[0] == dm_env.StepType.LAST,
        f'{c["names"][0]}: an episode goes on after {steps} steps, the limit'
        f' is {c["limit"]}',
    )
  for h in alone[1:]:
    for x, y, dwell in h[-2]:
      ctx.check(
          -1e-9 <= x <= 1 + 1e-9 and -1e-9 <= y <= 1 + 1e-9,
          f'beam at {x}, {y}',
      )
      s = dwell.total_seconds()
      low, high = (
          (1.0, 10.0) if 'variable_time' in c['names'][0] else (1.5, 1.5)
      )
      ctx.check(
          low - 1e-6 <= s <= high + 1e-6,
          f'{c["names"][0]} exposes for {s} seconds',
      )
  ctx.nontrivial(
      sum(1 for k, o, _ in c['ops'] if o) >= 1
      and sum(1 for k, o, _ in c['ops'] if not o and k == 'step') >= 2
  )
  ctx.label(c['names'][0])


# Agents for the microscope.


@st.composite
def agent_case(draw):
  name = st.sampled_from(tuple(RANDOM) + GREEDY)
  first = draw(name)
  obs = draw(obskit.obs_case())
  views = [draw(obskit.changed(obs)) for _ in range(draw(st.integers(1, 12)))]
  return {
      'names': [first, draw(st.one_of(st.just(first), name))],
      'seeds': [draw(gen.seeds()), draw(gen.seeds())],
      'obs': obs,
      'views': views,
      'between': draw(st.lists(st.booleans(), min_size=12, max_size=12)),
  }


def drive(c, alone):
  """The controls of the first agent, view by view."""

  def make(i):
    rng = np.random.default_rng(c['seeds'][i])
    agent = microscope_agent.MicroscopeAgent(
        rng, registry.create_microscope_experiment(c['names'][i])
    )
    agent.reset(rng, obskit.View(c['obs']).observation())
    return agent

  first = make(0)
  second = None if alone else make(1)
  out = []
  for view, between in zip(c['views'], c['between']):
    if second is not None and between:
      second.step(obskit.View(c['obs']).observation())
      second.reset(
          np.random.default_rng(c['seeds'][1] + 1),
          obskit.View(view).observation(),
      )
    out.append(first.step(obskit.View(view).observation()))
  return out, first.goal


def goal_xy(goal):
  p = goal.goal_position_material_frame
  return np.array([p.x, p.y]) if hasattr(p, 'x') else np.asarray(p).ravel()


def check_agent(c, ctx):
  alone, goal = drive(c, True)
  together, _ = drive(c, False)
  name = c['names'][0]
  flat = lambda cs: [
      [(x.position.x, x.position.y, x.dwell_time) for x in k] for k in cs
  ]
  ctx.check(
      flat(alone) == flat(together),
      f'{name}: {flat(alone)} alone, {flat(together)} with {c["names"][1]}',
  )
  for case, controls in zip(c['views'], alone):
    view = obskit.View(case)
    ctx.check(len(controls) == 1, f'{name}: {len(controls)} controls')
    at = np.array([controls[0].position.x, controls[0].position.y])
    dwell = controls[0].dwell_time.total_seconds()
    ctx.check(
        bool(np.all(at >= 0) and np.all(at <= 1)), f'{name}: beam at {at}'
    )
    inside = bool(np.all((at > 1e-9) & (at < 1 - 1e-9)))
    beam = view.lower_left + at * view.size
    si = view.p[view.si]
    off = beam - si
    if name in RANDOM:
      reach, low, high = RANDOM[name]
      ctx.check(
          bool(np.all(np.abs(off) <= reach * BOND + 1e-3)),
          f'{name}: beam {off} from the silicon',
      )
      ctx.check(
          low - 1e-6 <= dwell <= high + 1e-6, f'{name}: exposure of {dwell} s'
      )
      ctx.label('random')
      continue
    ctx.check(abs(dwell - 5.0) < 1e-6, f'{name}: exposure of {dwell} s')
    nb = view.p[view.neighbors(view.si)] - si
    # The neighbour nearest the goal; not when two are about as near.
    d = np.sort(np.hypot(*(nb - (goal_xy(goal) - si)).T))
    if not inside or d[1] - d[0] < 1e-3 or np.ptp(np.hypot(*nb.T)) > 0.2:
      ctx.label('at the edge' if not inside else 'undecided')
      continue
    best = nb[int(np.argmin(np.hypot(*(nb - (goal_xy(goal) - si)).T)))]
    u = best / np.hypot(*best)
    along, across = off @ u, u[0] * off[1] - u[1] * off[0]
    what = f'{name}: beam {along:.3f} along and {across:.3f} across the bond'
    if name == 'greedy_on_neighbor':
      ctx.check(abs(along - BOND) < 0.05 and abs(across) < 0.05, what)
    elif name == 'greedy_short_of_neighbor':
      ctx.check(0.1 < along < BOND - 0.1 and abs(across) < 0.05, what)
    elif name == 'greedy_on_neighbor_offset_horizontally':
      ctx.check(abs(along - BOND) < 0.05 and abs(across) > 0.1, what)
    else:
      ctx.check(along > BOND and abs(across) < 0.5, what)
    ctx.label('greedy')
  ctx.nontrivial(any(c['between'][: len(c['views'])]))


@st.composite
def reach_case(draw):
  return {
      'name': draw(st.sampled_from(tuple(RANDOM))),
      'seed': draw(gen.seeds()),
      'obs': dict(draw(obskit.obs_case()), size=[22.0, 22.0], at=[0.5, 0.5]),
  }


def check_reach(c, ctx):
  """Random agents use all of the range that their name speaks of."""
  reach, low, high = RANDOM[c['name']]
  view = obskit.View(c['obs'])
  rng = np.random.default_rng(c['seed'])
  agent = microscope_agent.MicroscopeAgent(
      rng, registry.create_microscope_experiment(c['name'])
  )
  observation = view.observation()
  agent.reset(rng, observation)
  n = 60
  at, dwell = [], []
  while len(at) < n:
    control = agent.step(observation)[0]
    at.append([control.position.x, control.position.y])
    dwell.append(control.dwell_time.total_seconds())
  off = view.lower_left + np.array(at) * view.size - view.p[view.si]
  # Missing the outer third at one end by chance has p = (5/6)^60 < 2e-5, so
  # only a gap at three ends is reported.
  ends = np.concatenate([off.min(axis=0) * -1, off.max(axis=0)])
  ctx.check(
      np.sum(ends < reach * BOND * 2 / 3) < 3,
      f'{c["name"]} reaches only {ends} of {reach * BOND}',
  )
  if high > low:
    spread = (np.array(dwell) - low) / (high - low)
    ctx.check(
        spread.min() < 0.4 and spread.max() > 0.6,
        f'{c["name"]} exposes from {min(dwell)} to {max(dwell)} seconds',
    )
  ctx.nontrivial(True)
  ctx.label(c['name'])


# The registry.


@st.composite
def names_case(draw):
  return {
      'unknown': draw(
          st.one_of(
              st.text(max_size=8),
              st.sampled_from(TRAIN + EVAL + tuple(RANDOM)).map(
                  lambda n: n + '_'
              ),
              st.sampled_from(TRAIN + EVAL).map(str.upper),
          )
      ),
      'suffix': draw(gen.seeds()),
      'replace': draw(st.booleans()),
      'known': draw(st.sampled_from(EVAL)),
  }


def check_names(c, ctx):
  kinds = {
      registry.create_train_experiment: TRAIN,
      registry.create_eval_experiment: EVAL,
      registry.create_microscope_experiment: tuple(RANDOM) + GREEDY,
  }
  for create, names in kinds.items():
    for name in names:
      create(name)
    try:
      create(c['unknown'])
      ctx.fail(f'there is no experiment {c["unknown"]!r}')
    except ValueError as e:
      ctx.check(
          c['unknown'] in str(e), f'{e} does not say which one is unknown'
      )
  for name in TRAIN:
    ctx.check(
        name not in EVAL and _refuses(registry.create_eval_experiment, name),
        f'{name} is not for evaluation',
    )
  # A new experiment is there from then on, and replaces none.
  before = {n: registry.create_eval_experiment(n) for n in EVAL}
  name = c['known'] if c['replace'] else f'new {c["suffix"]}'
  own = experiments.EvalExperiment(
      get_agent=lambda rng, parts: None,
      get_adapters_and_goal=lambda: None,
      get_simulator_config=lambda: None,
  )
  existed = not _refuses(registry.create_eval_experiment, name)
  registry.register_eval_experiment(name, own)
  if not existed:
    ctx.check(
        registry.create_eval_experiment(name) is own, f'{name} is another one'
    )
  for n in EVAL:
    ctx.check(
        registry.create_eval_experiment(n) is before[n], f'{n} was replaced'
    )
  ctx.nontrivial(True)


def _refuses(create, name):
  try:
    create(name)
    return False
  except ValueError:
    return True


# The evaluation program.


@st.composite
def result(draw):
  reached = draw(st.booleans())
  seconds = lambda: draw(gen.real(0.0, 500.0)) if reached else math.nan
  return {
      'seed': draw(st.integers(0, 99)),
      'reached_goal': reached,
      'num_actions_taken': draw(st.integers(0, 600)),
      'agent_seconds_to_goal': seconds(),
      'environment_seconds_to_goal': seconds(),
      'total_reward': draw(gen.real(0.0, 1.0)),
  }


@st.composite
def program_case(draw):
  return {
      'results': draw(st.lists(result(), min_size=1, max_size=8)),
      'name': draw(st.sampled_from(EVAL)),
      'suite': draw(st.sampled_from(sorted(['tiny_eval', 'small_eval']))),
      'videos': draw(st.sampled_from([None, '/nowhere/videos'])),
  }


def check_program(c, ctx):
  asked = {}

  signature = inspect.signature(eval_lib.evaluate)

  def evaluate(*args, **kwargs):
    bound = dict(signature.bind(*args, **kwargs).arguments)
    asked.update(bound, suite=bound['eval_suite'])
    return [eval_lib.EvalResult(**r) for r in c['results']]

  said = []

  class Handler(std_logging.Handler):

    def emit(self, r):
      said.append(r.getMessage())

  handler = Handler()
  logger = logging.get_absl_logger()
  verbosity = logging.get_verbosity()
  with mock.patch.object(eval_lib, 'evaluate', evaluate):
    logger.addHandler(handler)
    logging.set_verbosity(logging.INFO)
    try:
      eval_program.main(
          eval_program.Args(
              experiment_name=c['name'],
              eval_suite=c['suite'],
              video_save_dir=c['videos'],
          )
      )
    finally:
      logger.removeHandler(handler)
      logging.set_verbosity(verbosity)
  ctx.check(
      asked['suite'] == eval_lib.EVAL_SUITES[c['suite']]
      and asked.get('video_save_dir') == c['videos'],
      f'evaluated with {asked}',
  )
  ts = asked['env'].reset()
  asked['env'].step(asked['agent'].step(ts))
  good = [r for r in c['results'] if r['reached_goal']]
  mean = lambda k: float(np.mean([k(r) for r in good])) if good else 0.0
  agent = lambda r: r['agent_seconds_to_goal']
  env = lambda r: r['environment_seconds_to_goal']
  want = {
      'proportion': len(good) / len(c['results']),
      'actions': mean(lambda r: r['num_actions_taken']),
      'agent seconds': mean(agent),
      'environment seconds': mean(env),
      'total reward': mean(lambda r: r['total_reward']),
      'average seconds': mean(lambda r: agent(r) + env(r)),
  }
  for key, value in want.items():
    lines = [s for s in said if key in s.lower()]
    ctx.check(len(lines) == 1, f'{key}: {lines} in {said}')
    got = float(re.findall(r'-?[\d.]+|nan', lines[0])[-1])
    ctx.check(abs(got - value) <= 0.005 + 1e-6, f'{lines[0]}; it is {value}')
  ctx.nontrivial(len(c['results']) >= 2)
  ctx.label('some reached' if good else 'none reached')


# Videos of an evaluation.


@st.composite
def video_case(draw):
  return {
      'seeds': draw(
          st.lists(st.integers(0, 99), min_size=1, max_size=3, unique=True)
      ),
      'timeout': draw(st.sampled_from([8.0, 15.0, 30.0])),
      'limit': draw(st.integers(1, 6)),
      'greedy': draw(st.booleans()),
  }


def check_video(c, ctx):
  """Each episode has a video of its own, and the results do not change."""
  made = []

  class Anim:

    def __init__(self, events, goal):
      self.events = list(events)
      self.goal = goal

    def save(self, target, *args, **kwargs):
      del args, kwargs
      made.append(self)
      with open(target, 'wb') as f:
        f.write(b'video %d' % len(made))

  class Agent(agent_lib.Agent):

    def step(self, time_step):
      o = time_step.observation
      nb = np.asarray(o[2:8]).reshape(3, 2)
      return nb[np.argmax(nb @ o[8:])] * (1.0 if c['greedy'] else -0.5)

    def set_mode(self, mode):
      pass

  def run(directory):
    env = make_env('relative_simple_rates', 3, c['limit'])
    watching = []
    add, remove = env.sim.add_observer, env.sim.remove_observer

    def add_observer(o):
      watching.append(o)
      add(o)

    def remove_observer(o):
      watching.remove(o)
      remove(o)

    env.sim.add_observer = add_observer
    env.sim.remove_observer = remove_observer
    results = eval_lib.evaluate(
        Agent(),
        env,
        eval_lib.EvalSuite(tuple(c['seeds'])),
        timeout=dt.timedelta(seconds=c['timeout']),
        video_save_dir=directory,
    )
    ctx.check(not watching, 'what records for the videos is left behind')
    return [
        (r.seed, r.reached_goal, r.num_actions_taken, r.total_reward)
        for r in results
    ]

  plain = run(None)
  with tempfile.TemporaryDirectory(prefix='pdv_p31_') as tmp:
    target = pathlib.Path(tmp) / 'a' / 'videos'
    with mock.patch.object(
        plotting_utils, 'generate_video_from_simulator_events', Anim
    ):
      filmed = run(str(target))
    ctx.check(plain == filmed, f'{plain} unfilmed, {filmed} filmed')
    files = sorted(p.name for p in target.iterdir())
    ctx.check(
        files == sorted(f'{s}.gif' for s in c['seeds']), f'videos {files}'
    )
    for i, s in enumerate(c['seeds']):
      ctx.check(
          (target / f'{s}.gif').read_bytes() == b'video %d' % (i + 1),
          f'the video of seed {s} is another one',
      )
  kinds = simulator_observers.SimulatorEventType
  for anim, r in zip(made, filmed):
    n = sum(1 for e in anim.events if e.event_type == kinds.APPLY_CONTROL)
    ctx.check(
        n == r[2], f'{r[2]} actions, {n} exposures in the video of seed {r[0]}'
    )
    resets = sum(1 for e in anim.events if e.event_type == kinds.RESET)
    ctx.check(resets == 1, f'{resets} resets in a video')
  ctx.nontrivial(len(c['seeds']) >= 2)
  ctx.label('reached' if any(r[1] for r in plain) else 'not reached')


PARTS = [
    Part('environments', lambda: env_case(), check_env, 40, 1000),
    Part('pixels', lambda: env_case(True), check_env, 10, 250),
    Part('agents', agent_case, check_agent, 120, 4000),
    Part('reach', reach_case, check_reach, 25, 600),
    Part('names', names_case, check_names, 30, 400),
    Part('program', program_case, check_program, 60, 1500),
    Part('videos', video_case, check_video, 15, 400),
]

ASSUMPTIONS = [
    'networks of published agents are not fetched (see P29)',
    'the rendering of a video is replaced by a stand-in (see P26)',
]
