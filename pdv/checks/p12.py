"""P12: features."""

from hypothesis import strategies as st
import numpy as np
from pdv import gen
from pdv import obskit
from pdv.core import Part
from putting_dune import feature_constructors as fc
from putting_dune import goals
from putting_dune import graphene

PROPERTY = 'P12'
RULE = (
    'Rotated, shifted and re-ordered sheets seen through square and oblong'
    ' views with zero to three silicon atoms and a goal inside or outside the'
    ' view; the same constructor is then shown the view re-ordered, moved,'
    ' turned or with the silicon elsewhere. Non-trivial: the goal is not the silicon itself and the sheet is'
    ' not aligned with the view.'
)


@st.composite
def vector_case(draw, min_silicon=1, max_silicon=3):
  kind = draw(st.sampled_from(['view', 'material']))
  c = draw(
      obskit.obs_case(
          square=True if kind == 'view' else None,
          max_silicon=max_silicon,
          min_silicon=min_silicon,
      )
  )
  c['kind'] = kind
  c['goal'] = draw(gen.xy(-15.0, 15.0))  # relative to the silicon
  # What the same constructor is shown afterwards.
  c['then'], last = [], c
  for _ in range(draw(st.integers(0, 3))):
    last = draw(obskit.changed({k: v for k, v in last.items() if k != 'then'}))
    if draw(st.booleans()):
      last['goal'] = draw(gen.xy(-15.0, 15.0))
    c['then'].append(last)
  return c


def make_goal(position):
  goal = goals.SingleSiliconGoalReaching()
  goal.goal_position_material_frame = np.asarray(position, dtype=float)
  return goal


def match_rows(ctx, got, want, what, atol):
  got = np.asarray(got, float).reshape(-1, 2)
  want = np.asarray(want, float).reshape(-1, 2)
  d = np.hypot(*(got[:, None] - want[None]).transpose(2, 0, 1))
  nearest = d.argmin(axis=1)
  ctx.check(
      sorted(nearest.tolist()) == list(range(len(want)))
      and bool(np.all(d.min(axis=1) < atol)),
      f'{what}: {got.tolist()}, expected (in any order) {want.tolist()}',
  )


def check_vector(c, ctx):
  constructor = (
      fc.SingleSiliconPristineGrapheneFeatureConstuctor()
      if c['kind'] == 'view'
      else fc.SingleSiliconMaterialFrameFeatureConstructor()
  )
  constructor.reset()
  goal, absolute, last_goal = None, None, None
  for k, now in enumerate([c] + c.get('then', [])):
    v = obskit.View(now)
    if v.ambiguous:
      return
    ctx.label(now.get('changed', 'first'))
    if goal is None or now['goal'] != last_goal:
      # A new goal, for a new episode; otherwise it stays where it was.
      absolute = v.p[v.si] + np.asarray(now['goal'])
      goal = make_goal(absolute)
      last_goal = now['goal']
      if k:
        constructor.reset()
    check_one(v, c['kind'], constructor, goal, absolute, ctx)


def check_one(v, kind, constructor, goal, absolute, ctx):
  si = v.p[v.si]
  offset = absolute - si
  f = constructor.get_features(v.observation(), goal)
  ctx.check(
      np.array_equal(f, constructor.observation_spec().validate(f)),
      'features do not fit their specification',
  )
  ctx.check(not constructor.requires_image, 'asks for an image')
  delta = v.p[v.neighbors(v.si)] - si
  scale = max(np.abs(v.p).max(), np.abs(absolute).max())
  tol = 2e-6 * max(scale, 10.0)
  if kind == 'view':
    ctx.close(f[:2], v.rel[v.si], 'silicon position', atol=1e-6)
    match_rows(
        ctx,
        f[2:8],
        delta / np.hypot(*delta.T)[:, None],
        'neighbor directions',
        1e-4,
    )
  else:
    ctx.close(f[:2], si, 'silicon position', atol=tol, rtol=1e-6)
    match_rows(ctx, f[2:8], delta, 'neighbor offsets', 1e-3)
  ctx.close(f[8:], offset, 'goal offset', atol=tol, rtol=1e-5)
  ctx.nontrivial(np.hypot(*offset) > 1.0)
  ctx.label(f'{len(v.silicons)} silicon')
  ctx.label('oblong' if abs(v.size[0] - v.size[1]) > 0.5 else 'square')


def check_lost(c, ctx):
  """Without silicon every constructor says so."""
  v = obskit.View(c)
  image = np.zeros((32, 32, 1), np.float32)
  for cls in (
      fc.SingleSiliconPristineGrapheneFeatureConstuctor,
      fc.SingleSiliconMaterialFrameFeatureConstructor,
      fc.ImageFeatureConstructor,
  ):
    ctx.raises(
        graphene.SiliconNotFoundError,
        lambda: cls().get_features(  # pylint: disable=cell-var-from-loop
            v.observation(image), make_goal(v.lower_left)
        ),
        f'{cls.__name__} without silicon',
    )
  ctx.nontrivial()


@st.composite
def image_case(draw):
  c = draw(obskit.obs_case(max_silicon=2))
  c['goal'] = draw(gen.xy(-15.0, 15.0))
  c['factor'] = draw(st.sampled_from([1, 2, 4]))
  c['cells'] = draw(gen.seeds())
  c['type'] = draw(st.sampled_from(['float32', 'float64', 'uint8']))
  c['dims'] = draw(st.sampled_from([2, 3]))
  return c


def check_image(c, ctx):
  v = obskit.View(c)
  if v.ambiguous:
    return
  rng = np.random.default_rng(c['cells'])
  # An image that is constant over the pixels that become one feature pixel
  # has only one sensible reduction.
  coarse = rng.integers(0, 256, size=(128, 128))
  coarse = coarse.astype(float)
  if c['type'] != 'uint8':
    coarse = coarse / 255.0
  k = c['factor']
  full = np.repeat(np.repeat(coarse, k, axis=0), k, axis=1).astype(c['type'])
  if c['dims'] == 3:
    full = full[..., None]
  kept = full.copy()
  goal_position = v.p[v.si] + np.asarray(c['goal'])
  constructor = fc.ImageFeatureConstructor()
  ctx.check(constructor.requires_image, 'does not ask for an image')
  f = constructor.get_features(v.observation(full), make_goal(goal_position))
  spec = constructor.observation_spec()
  ctx.check(set(f) == set(spec), f'features {sorted(f)}')
  for name in spec:
    spec[name].validate(f[name])
  ctx.close(
      f['image'][..., 0], coarse.astype(np.float32), 'image', atol=1e-5
  )
  ctx.check(np.array_equal(full, kept), 'the image was changed')
  tol = 2e-6 * max(np.abs(v.p).max(), 10.0)
  ctx.close(
      f['goal_delta_angstroms'], c['goal'], 'goal offset', atol=tol, rtol=1e-5
  )
  ctx.raises(
      RuntimeError,
      lambda: constructor.get_features(
          v.observation(), make_goal(goal_position)
      ),
      'an observation without an image',
  )
  ctx.nontrivial()
  ctx.label(f'factor {k}')


class _OtherGoal(goals.Goal):

  def reset(self, rng, initial_observation):
    pass

  def calculate_reward_and_terminal(self, observation):
    return goals.GoalReturn(0.0, False, False)


def check_goal_kind(c, ctx):
  v = obskit.View(c)
  for cls in (
      fc.SingleSiliconPristineGrapheneFeatureConstuctor,
      fc.SingleSiliconMaterialFrameFeatureConstructor,
      fc.ImageFeatureConstructor,
  ):
    ctx.raises(
        ValueError,
        lambda: cls().get_features(  # pylint: disable=cell-var-from-loop
            v.observation(np.zeros((8, 8, 1))), _OtherGoal()
        ),
        f'{cls.__name__} with a foreign goal',
    )
  ctx.nontrivial()


PARTS = [
    Part('vector', vector_case, check_vector, 350, 10000),
    Part('image', image_case, check_image, 60, 1500),
    Part('lost', lambda: vector_case(0, 0), check_lost, 30, 500),
    Part('goal kind', obskit.obs_case, check_goal_kind, 15, 200),
]

ASSUMPTIONS = [
    'the features in view coordinates are only judged in square views, which'
    ' is what the simulator and microscope use',
    'at least four atoms are in view',
]
