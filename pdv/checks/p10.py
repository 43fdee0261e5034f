"""P10: goals."""

from hypothesis import strategies as st
import numpy as np
from pdv import gen
from pdv import obskit
from pdv.core import Part
from putting_dune import goals
from putting_dune import graphene
from putting_dune import microscope_utils as mu

PROPERTY = 'P10'
RULE = (
    'Observations of rotated sheets in square and oblong views with one or'
    ' several silicon atoms; goal distances on both sides of the limits, and'
    ' histories in which the silicon sits at generated distances from the'
    ' goal. Non-trivial: an oblong view, or a history that reaches the goal.'
)


@st.composite
def pick_case(draw):
  c = draw(obskit.obs_case(max_silicon=3))
  lo = draw(st.sampled_from([0.1, 1.0, 1.5, 3.0, 5.0]))
  c['range'] = draw(
      st.one_of(
          st.none(),
          st.just([lo, lo + draw(gen.real(0.05, 3.0))]),
      )
  )
  c['seed'] = draw(gen.seeds())
  c['full'] = draw(st.integers(0, 9)) == 0
  # What the same goal is reset with before.
  c['before'] = draw(
      st.one_of(st.none(), obskit.changed(dict(c)), obskit.obs_case())
  )
  return c


@st.composite
def every_case(draw):
  """Large views with every visible atom permitted."""
  c = draw(obskit.obs_case())
  c.update(
      radius=26.0,
      size=[draw(gen.real(20.0, 30.0)), draw(gen.real(20.0, 30.0))],
      range=None,
      seed=draw(gen.seeds()),
      full=True,
      before=None,
  )
  return c


def make_goal(c):
  g = goals.SingleSiliconGoalReaching()
  if c.get('range') is not None:
    g.goal_range_angstroms = tuple(c['range'])
  return g


def check_pick(c, ctx):
  v = obskit.View(c)
  if v.ambiguous:
    return
  lo, hi = c['range'] or (0.1, 50.0)
  d = np.hypot(*(v.p - v.p[v.si]).T)
  if np.any(np.abs(d - lo) < 1e-6) or np.any(np.abs(d - hi) < 1e-6):
    return
  allowed = v.p[(d > lo) & (d < hi)]
  rng = np.random.default_rng(c['seed'])
  goal = make_goal(c)
  obs = v.observation()
  if c.get('before'):
    try:
      goal.reset(rng, obskit.View(c['before']).observation())
    except RuntimeError:
      pass  # No goal there.
    ctx.label('reset before')
  if not len(allowed):
    e = ctx.raises(
        RuntimeError, lambda: goal.reset(rng, obs), 'no atom in range'
    )
    ctx.check(
        not isinstance(e, graphene.SiliconNotFoundError),
        'reported as missing silicon',
    )
    ctx.label('no goal')
    return
  ctx.nontrivial(abs(v.size[0] - v.size[1]) > 0.5)
  seen = set()
  full = len(allowed) <= 3 or c.get('full')
  draws = 8
  if full:
    # An atom that is one of n is missed with probability exp(-22).
    draws = 22 * len(allowed)
  for _ in range(draws):
    goal.reset(rng, obs)
    g = np.asarray(goal.goal_position_material_frame, dtype=float).reshape(-1)
    ctx.check(g.shape == (2,), f'goal has shape {g.shape}')
    off = np.hypot(*(allowed - g).T)
    ctx.check(
        off.min() < 1e-6,
        f'goal {g} is {off.min():.3g} A from the closest permitted atom',
    )
    seen.add(int(off.argmin()))
    ctx.close(gen.pt(goal.current_goal), g, 'current goal', atol=1e-9)
  if full:
    ctx.check(
        len(seen) == len(allowed),
        f'only {len(seen)} of {len(allowed)} possible goals are ever chosen',
    )
    ctx.label('few goals' if len(allowed) <= 3 else 'all goals drawn')
  # Nothing is remembered from the previous observation or the seed's history.
  again = make_goal(c)
  a, b = np.random.default_rng(5), np.random.default_rng(5)
  goal.reset(a, obs)
  again.reset(b, obs)
  ctx.close(
      goal.goal_position_material_frame,
      again.goal_position_material_frame,
      'same seed, same goal',
  )


@st.composite
def reward_case(draw):
  c = draw(obskit.obs_case())
  c['seed'] = draw(gen.seeds())
  steps = []
  for _ in range(draw(st.integers(1, 8))):
    steps.append({
        'd': draw(
            st.one_of(
                gen.real(0.0, 3.0),
                gen.real(0.60, 0.82),
                st.sampled_from([0.0, 0.7, 0.72, 1.42]),
            )
        ),
        'angle': draw(gen.real(0, 6.28)),
        'elapsed': draw(st.one_of(gen.real(0.0, 60.0), gen.real(60.0, 3600.0))),
        'size': [draw(gen.real(9.0, 22.0)), draw(gen.real(9.0, 22.0))],
        'at': [draw(gen.real(0.2, 0.8)), draw(gen.real(0.2, 0.8))],
        'reset': draw(st.integers(0, 4)) == 0,
        'lost': draw(st.integers(0, 5)) == 0,
    })
  c['steps'] = steps
  return c


def check_reward(c, ctx):
  v = obskit.View(c)
  goal = goals.SingleSiliconGoalReaching()
  rng = np.random.default_rng(c['seed'])
  goal.reset(rng, v.observation())
  at_goal = 0
  for s in c['steps']:
    if s['reset']:
      goal.reset(rng, v.observation())
    g = np.asarray(goal.goal_position_material_frame, dtype=float).reshape(-1)
    si = g + s['d'] * np.array([np.cos(s['angle']), np.sin(s['angle'])])
    size = np.array(s['size'])
    ll = si - np.array(s['at']) * size
    # A second atom off to the side, so that rows cannot be mixed up.
    other = ll + 0.05 * size
    rel = (np.stack([other, si]) - ll) / size
    obs = mu.MicroscopeObservation(
        grid=mu.AtomicGrid(rel, np.array([6, 6 if s['lost'] else 14])),
        fov=mu.MicroscopeFieldOfView(
            gen.make_point(ll), gen.make_point(ll + size)
        ),
        controls=(),
        elapsed_time=obskit.dt.timedelta(seconds=s['elapsed']),
    )
    if s['lost']:
      ctx.raises(
          graphene.SiliconNotFoundError,
          lambda: goal.calculate_reward_and_terminal(obs),  # pylint: disable=cell-var-from-loop
          'no silicon in view',
      )
      continue
    if abs(s['d'] - 0.71) < 1e-6:
      continue
    r = goal.calculate_reward_and_terminal(obs)
    here = s['d'] < 0.71
    at_goal += here
    ctx.check(
        bool(r.is_terminal) == here,
        f"terminal={r.is_terminal} at {s['d']:.3f} A from the goal",
    )
    ctx.check(not r.is_truncated, 'truncated')
    want = obskit.GAMMA ** obskit.seconds(s['elapsed']) if here else 0.0
    ctx.close(float(r.reward), want, 'reward', rtol=1e-6, atol=1e-9)
    ctx.check(
        np.allclose(goal.goal_position_material_frame, g),
        'the goal moved although it was not reset',
    )
  ctx.nontrivial(0 < at_goal)
  ctx.label('reached' if at_goal else 'not reached')


def check_lost(c, ctx):
  v = obskit.View(c)
  ctx.raises(
      graphene.SiliconNotFoundError,
      lambda: goals.SingleSiliconGoalReaching().reset(
          np.random.default_rng(0), v.observation()
      ),
      'no silicon to choose a goal for',
  )
  ctx.nontrivial()



PARTS = [
    Part('pick', pick_case, check_pick, 200, 6000),
    Part('every', every_case, check_pick, 4, 100),
    Part('reward', reward_case, check_reward, 250, 8000),
    Part(
        'lost',
        lambda: obskit.obs_case(max_silicon=0, min_silicon=0),
        check_lost,
        20,
        300,
    ),
]

ASSUMPTIONS = ['views have positive width and height']
