"""P26: what the plots and videos show is the state, the place and the time."""

import datetime as dt
import math
import re

from hypothesis import strategies as st
import matplotlib
from matplotlib import animation
from matplotlib.backends import backend_agg as agg
from matplotlib import colors as mcolors
from matplotlib import pyplot as plt
import numpy as np
from pdv import gen
from pdv import lattice
from pdv import simkit
from pdv.core import Part
from putting_dune import action_adapters
from putting_dune import feature_constructors
from putting_dune import geometry
from putting_dune import goals
from putting_dune import graphene
from putting_dune import microscope_utils as mu
from putting_dune import plotting_utils
from putting_dune import run_helpers
from putting_dune import simulator
from putting_dune import simulator_observers
from putting_dune.experiments import experiments
import seaborn

PROPERTY = 'P26'
RULE = (
    'Durations of every size; generated histories of resets, controls,'
    ' transitions and images, and runs of the simulator, drawn frame by frame'
    ' and read back off the axes; and rate functions with a different value'
    ' at every beam position and for every neighbour. Non-trivial: the'
    ' duration is near a carry, the history has at least two frames that'
    ' differ, or the rate is not constant.'
)

EVENT = simulator_observers.SimulatorEventType


# Durations.


@st.composite
def time_case(draw):
  whole = draw(
      st.one_of(
          st.integers(0, 200),
          st.sampled_from([0, 59, 60, 119, 599, 3599, 3600, 5999]),
          st.integers(0, 5990),
      )
  )
  part = draw(
      st.one_of(
          st.integers(0, 999_999),
          st.sampled_from([0, 4999, 5001, 990_000, 994_999, 995_001, 999_999]),
          st.integers(994_000, 999_999),
          st.integers(0, 99).map(lambda k: k * 10_000),
      )
  )
  return {'us': whole * 1_000_000 + part}


def read_clock(ctx, text, us, what):
  """A written clock says minutes, seconds and hundredths of the duration."""
  m = re.fullmatch(r'(\d{2,}):(\d{2}):(\d{2})', text)
  ctx.check(m is not None, f'{what}: {us} us written as {text!r}')
  minutes, seconds, hundredths = map(int, m.groups())
  ctx.check(seconds < 60, f'{what}: {text!r} has {seconds} seconds')
  said = (minutes * 60 + seconds) * 1_000_000 + hundredths * 10_000
  # To the nearest hundredth, or cut off to it.
  ctx.check(
      -10_000 < said - us <= 5_001, f'{what}: {us} us written as {text!r}'
  )


def check_time(c, ctx):
  delta = dt.timedelta(microseconds=c['us'])
  read_clock(ctx, plotting_utils.format_timedelta(delta), c['us'], 'duration')
  rest = c['us'] % 1_000_000
  ctx.nontrivial(rest > 900_000 or c['us'] >= 60_000_000)
  ctx.label('carry' if rest >= 995_000 else 'plain')


# Reading axes.


def artists(ax):
  """Everything drawn: (kind, points, colour, marker)."""
  out = []
  for l in ax.get_lines():
    xy = np.stack(
        [np.atleast_1d(l.get_xdata()), np.atleast_1d(l.get_ydata())], axis=-1
    ).astype(float)
    out.append(
        (l.get_linestyle(), xy, mcolors.to_rgb(l.get_color()), l.get_marker())
    )
  for k in ax.collections:
    xy = np.asarray(k.get_offsets(), dtype=float)
    faces = k.get_facecolor()
    out.append((
        'points',
        xy.reshape(-1, 2),
        tuple(faces[0][:3]) if len(faces) else (0, 0, 0),
        'collection',
    ))
  return out


def as_set(p):
  p = np.round(np.asarray(p, dtype=float).reshape(-1, 2), 6) + 0.0
  return p[np.lexsort(p.T)]


def same_points(a, b):
  return len(a) == len(b) and np.allclose(
      as_set(a), as_set(b), rtol=1e-6, atol=1e-6
  )


def expect_points(ctx, drawn, points, what, where=lambda a: True):
  """Some artist shows exactly these points; it is taken off the list."""
  if len(points) == 0:
    return None
  for i, a in enumerate(drawn):
    if where(a) and same_points(a[1], points):
      return drawn.pop(i)
  ctx.check(False, f'{what} not drawn at {np.asarray(points).tolist()}')
  return None


def read_panel(ctx, ax, p, z, goal, control, fov, what):
  """Carbon, silicon, goal, control and view are where they belong."""
  drawn = [a for a in artists(ax) if len(a[1])]
  looks = {}
  carbon = expect_points(ctx, drawn, p[z == 6], what + ': carbon')
  silicon = expect_points(ctx, drawn, p[z == 14], what + ': silicon')
  looks['carbon'], looks['silicon'] = carbon, silicon
  if fov is not None:
    corners = fov[[0, 1, 1, 0, 0], [0, 0, 1, 1, 0]]
    corners = np.stack(
        [fov[[0, 1, 1, 0], 0], fov[[0, 0, 1, 1], 1]], axis=-1
    )

    def around(a):
      return len(a[1]) == 5 and np.allclose(a[1][0], a[1][-1])

    for i, a in enumerate(drawn):
      if around(a) and same_points(a[1][:4], corners):
        step = np.abs(np.diff(a[1], axis=0)) > 1e-9
        ctx.check(
            bool(np.all(step.sum(axis=1) == 1)),
            f'{what}: the outline of the view crosses itself',
        )
        drawn.pop(i)
        break
    else:
      patches = [
          r for r in ax.patches if isinstance(r, matplotlib.patches.Rectangle)
      ]
      ctx.check(
          any(
              np.allclose(
                  [r.get_xy(), np.add(r.get_xy(), (r.get_width(),
                                                   r.get_height()))],
                  fov, atol=1e-6
              )
              for r in patches
          ),
          f'{what}: no outline of the view {fov.tolist()}',
      )
  if goal is not None:
    looks['goal'] = expect_points(ctx, drawn, [goal], what + ': goal')
  if control is not None:
    looks['control'] = expect_points(ctx, drawn, [control], what + ': control')
  ctx.check(
      not drawn, f'{what}: also drawn: {[a[1][:3].tolist() for a in drawn[:2]]}'
  )
  style = {k: (v[2], v[3]) for k, v in looks.items() if v is not None}
  ctx.check(
      len(set(style.values())) == len(style),
      f'{what}: two things look the same: {sorted(style)}',
  )
  return style


def in_view(points, fov):
  return (np.asarray(points) - fov[0]) / (fov[1] - fov[0])


# Videos.


@st.composite
def story(draw):
  images = draw(st.booleans())
  steps = draw(
      st.lists(
          st.fixed_dictionaries({
              'control': st.booleans(),
              'moves': st.integers(0, 2),
              'at': gen.xy(-0.3, 1.3),
              'dwell': st.one_of(
                  gen.real(0.0, 5.0), st.sampled_from([0.0, 0.999, 59.996])
              ),
              'take': st.booleans(),
              'image': st.booleans(),
              'duration': st.one_of(
                  gen.real(0.0, 8.0), st.sampled_from([0.0, 0.998, 2.0])
              ),
              'fov': gen.fov(30.0, 2.0, 40.0),
          }),
          min_size=0,
          max_size=draw(st.sampled_from([5, 5, 5, 10])),
      )
  )
  return {
      'sheet': draw(lattice.sheet(4.5, 6.0)),
      'fov': draw(gen.fov(30.0, 2.0, 40.0)),
      'goal': draw(gen.xy(-30.0, 30.0)),
      'images': images,
      'steps': steps,
      'seed': draw(gen.seeds()),
      'observer': draw(st.booleans()),
  }


class Reader(animation.AbstractMovieWriter):
  """A movie writer that looks at every frame instead of encoding it."""

  def __init__(self, look):
    super().__init__(fps=5)
    self.look = look
    self.count = 0

  def setup(self, fig, outfile, dpi=None):
    super().setup(fig, outfile, dpi=dpi)

  def grab_frame(self, **kwargs):
    self.look(self.count, self.fig)
    self.count += 1

  def finish(self):
    pass


def panel_of(ctx, fig, kind):
  axes = fig.get_axes()
  ctx.check(len(axes) >= 2, f'{len(axes)} panels')
  return axes[{'material': 0, 'microscope': 1, 'image': 2}[kind]]


def watch(ctx, events, goal, frames):
  """Plays the video of `events` against the frames it should have."""
  plt.close('all')
  seen_styles = []

  def look(k, fig):
    ctx.check(k < len(frames), f'frame {k}, only {len(frames)} expected')
    f = frames[k]
    what = f'frame {k}'
    style = read_panel(
        ctx,
        panel_of(ctx, fig, 'material'),
        f['p'],
        f['z'],
        goal,
        f['control'],
        f['fov'],
        what + ', material',
    )
    seen_styles.append(style)
    clocks = [
        t.get_text()
        for t in panel_of(ctx, fig, 'material').texts
        if ':' in t.get_text()
    ]
    ctx.check(len(clocks) == 1, f'{what}: clocks {clocks}')
    read_clock(ctx, clocks[0], round(f['time'] * 1e6), what)
    close = panel_of(ctx, fig, 'microscope')
    read_panel(
        ctx,
        close,
        in_view(f['p'], f['fov']),
        f['z'],
        in_view(goal, f['fov']),
        None if f['control'] is None else in_view(f['control'], f['fov']),
        None,
        what + ', microscope',
    )
    ctx.close(close.get_xlim(), (0, 1), what + ': shown range of x')
    ctx.close(close.get_ylim(), (0, 1), what + ': shown range of y')
    wide = panel_of(ctx, fig, 'material')
    lo = np.array([wide.get_xlim()[0], wide.get_ylim()[0]])
    hi = np.array([wide.get_xlim()[1], wide.get_ylim()[1]])
    ctx.check(
        bool(np.all(f['p'] >= lo) and np.all(f['p'] <= hi)),
        f'{what}: atoms outside what the material panel shows',
    )
    if any(g['image'] is not None for g in frames) or len(fig.get_axes()) > 2:
      shown = panel_of(ctx, fig, 'image').get_images()
      if f['image'] is None:
        ctx.check(not shown, f'{what}: an image before one was taken')
      else:
        ctx.check(len(shown) == 1, f'{what}: {len(shown)} images')
        ctx.close(
            np.asarray(shown[0].get_array(), dtype=float),
            np.asarray(f['image'], dtype=float),
            what + ': image',
        )

  anim = plotting_utils.generate_video_from_simulator_events(
      events, goal_position=np.asarray(goal)
  )
  ctx.check(isinstance(anim, animation.Animation), 'not an animation')
  reader = Reader(look)
  anim.save('unused.none', writer=reader)
  plt.close('all')
  ctx.check(
      reader.count == len(frames), f'{reader.count} frames of {len(frames)}'
  )
  ctx.check(
      all(
          s[k] == t[k]
          for s in seen_styles
          for t in seen_styles
          for k in set(s) & set(t)
      ),
      'things change their looks from frame to frame',
  )


def narrate(log, goal):
  """The frames a history should have, from (kind, ...) notifications.

  One before every control is applied, and the final state.
  """
  del goal
  state = {'control': None, 'image': None, 'time': 0.0}
  frames = []
  for e in log:
    if e[0] == 'reset':
      state.update(
          p=np.asarray(e[1].atom_positions),
          z=np.asarray(e[1].atomic_numbers),
          fov=gen.fov_array(e[2]),
      )
    elif e[0] == 'control':
      state['control'] = gen.pt(e[1].position)
      frames.append(dict(state))
      state['time'] += e[1].dwell_time.total_seconds()
    elif e[0] == 'transition':
      state.update(
          p=np.asarray(e[2].atom_positions), z=np.asarray(e[2].atomic_numbers)
      )
    elif e[0] == 'take':
      state['fov'] = gen.fov_array(e[2])
      state['time'] += e[1].total_seconds()
    elif e[0] == 'image':
      state['image'] = e[1]
  frames.append(dict(state))
  return frames


def material(p, z):
  return mu.AtomicGridMaterialFrame(mu.AtomicGrid(p, z))


def check_story(c, ctx):
  rng = np.random.default_rng(c['seed'])
  p, z = lattice.build(c['sheet'])
  log = [('reset', material(p, z), gen.make_fov(c['fov']))]
  for s in c['steps']:
    if s['control']:
      at = p.min(axis=0) + np.asarray(s['at']) * np.ptp(p, axis=0)
      log.append((
          'control',
          mu.BeamControlMaterialFrame(
              mu.BeamControl(
                  geometry.Point(at), dt.timedelta(seconds=s['dwell'])
              )
          ),
      ))
      for k in range(s['moves']):
        si = int(np.nonzero(z == 14)[0][0])
        to = int(rng.choice(lattice.neighbors3(p, si)))
        z = z.copy()
        z[si], z[to] = 6, 14
        log.append((
            'transition',
            dt.timedelta(seconds=s['dwell'] * (k + 1) / 4),
            material(p, z),
        ))
    if s['take']:
      log.append((
          'take',
          dt.timedelta(seconds=s['duration']),
          gen.make_fov(s['fov']),
      ))
      if s['image'] and c['images']:
        log.append(('image', rng.random((4, 5))))
  book = simulator_observers.EventObserver()
  if c['observer']:
    # What came before a reset does not matter.
    book.observe_take_image(dt.timedelta(seconds=5), gen.make_fov(c['fov']))
    book.observe_transition(dt.timedelta(seconds=5), material(p, z))
  for e in log:
    {
        'reset': book.observe_reset,
        'control': book.observe_apply_control,
        'transition': book.observe_transition,
        'take': book.observe_take_image,
        'image': book.observe_generated_image,
    }[e[0]](*e[1:])
  frames = narrate(log, c['goal'])
  watch(ctx, book.events, np.asarray(c['goal']), frames)
  ctx.nontrivial(len(frames) > 2)
  ctx.label(f'{len(frames)} frames')
  ctx.label('images' if any(f['image'] is not None for f in frames) else 'none')


# Runs of the simulator.


@st.composite
def run_case(draw):
  return {
      'seed': draw(gen.seeds()),
      'rate': draw(st.sampled_from([0.0, 1.0, 2.0])),
      'angle': draw(gen.real(0, 6.28)),
      'duration': draw(gen.real(0.1, 6.0)),
      'image': draw(st.booleans()),
      'resets': draw(st.integers(1, 2)),
      'goal': draw(gen.xy(-15.0, 15.0)),
      'steps': draw(
          st.lists(
              st.lists(gen.control(-0.2, 1.2), min_size=0, max_size=2),
              min_size=0,
              max_size=3,
          )
      ),
  }


def check_run(c, ctx):
  rec = simkit.Recorder()
  book = simulator_observers.EventObserver()
  sim = simulator.PuttingDuneSimulator(
      graphene.PristineSingleDopedGraphene(
          rate_function=simkit.DriftRates(c['rate'], c['angle']),
          grid_columns=50,
      ),
      image_duration=dt.timedelta(seconds=c['duration']),
      observers=(rec, book),
  )
  rng = np.random.default_rng(c['seed'])
  for _ in range(c['resets']):
    rec.log.clear()
    spent = sim.reset(rng, return_image=c['image']).elapsed_time
    for controls in c['steps']:
      spent += sim.step_and_image(
          rng, [gen.make_control(k) for k in controls], return_image=c['image']
      ).elapsed_time
  frames = narrate(rec.log, c['goal'])
  ctx.check(
      abs(frames[-1]['time'] - spent.total_seconds()) < 1e-5,
      f'notified of {frames[-1]["time"]} s, the simulator is at'
      f' {spent}',
  )
  watch(ctx, book.events, np.asarray(c['goal']), frames)
  ctx.nontrivial(len(frames) > 2)
  ctx.label('images' if c['image'] else 'none')


# The environment drawn.


@st.composite
def scene_case(draw):
  return {
      'seed': draw(gen.seeds()),
      'rate': draw(st.sampled_from([0.0, 2.0, 4.0])),
      'angle': draw(gen.real(0, 6.28)),
      'ops': draw(
          st.lists(
              st.one_of(
                  gen.xy(0.0, 1.0).map(list), gen.xy(0.0, 1.0).map(list),
                  st.just('reset'),
              ),
              min_size=1,
              max_size=draw(st.sampled_from([8, 8, 16])),
          )
      ),
  }


def check_scene(c, ctx):
  """Rendering the environment shows it as it is now."""
  from matplotlib import figure as figures  # pylint: disable=g-import-not-at-top

  rec = simkit.Recorder()
  env = run_helpers.create_putting_dune_env(
      c['seed'],
      get_adapters_and_goal=lambda: experiments.AdaptersAndGoal(
          action_adapters.DirectActionAdapter(),
          feature_constructors.SingleSiliconMaterialFrameFeatureConstructor(),
          goals.SingleSiliconGoalReaching(),
      ),
      get_simulator_config=lambda: experiments.SimulatorConfig(
          material=graphene.PristineSingleDopedGraphene(
              rate_function=simkit.DriftRates(c['rate'], c['angle']),
              grid_columns=50,
          ),
          image_duration=dt.timedelta(seconds=2),
      ),
      simulator_observers=(rec,),
  )
  plt.close('all')
  made = []
  original = figures.Figure.__init__

  def init(self, *args, **kwargs):
    original(self, *args, **kwargs)
    made.append(self)

  exposed = moved = 0
  for i, o in enumerate(['reset'] + c['ops']):
    rec.log.clear()
    if o == 'reset':
      env.reset()
    else:
      env.step(np.asarray(o, dtype=np.float32))
    del made[:]
    figures.Figure.__init__ = init
    try:
      image = np.asarray(env.render())
    finally:
      figures.Figure.__init__ = original
    what = f'rendering {i}'
    ctx.check(
        image.ndim == 3 and image.shape[2] == 3 and image.dtype == np.uint8,
        f'{what}: an image of shape {image.shape}',
    )
    ctx.check(len(made) == 1, f'{what}: {len(made)} figures')
    fig = made[0]
    ctx.check(
        not plt.get_fignums(), f'{what}: the figure is left open for ever'
    )
    ctx.check(len(fig.axes) == 1, f'{what}: {len(fig.axes)} panels')
    fov = gen.fov_array(env.last_microscope_observation.fov)
    p = np.asarray(env.sim.material.grid.atom_positions)
    z = np.asarray(env.sim.material.grid.atomic_numbers)
    inside = np.all((p >= fov[0]) & (p <= fov[1]), axis=1)
    controls = [e[1] for e in rec.log if e[0] == 'control']
    control = None
    if controls:
      control = in_view(gen.pt(controls[-1].position), fov)
      exposed += 1
      moved += any(e[0] == 'fov' for e in rec.log)
    read_panel(
        ctx,
        fig.axes[0],
        in_view(p[inside], fov),
        z[inside],
        in_view(env.goal.goal_position_material_frame, fov),
        control,
        None,
        what,
    )
    ctx.close(fig.axes[0].get_xlim(), (0, 1), 'horizontal limits', atol=1e-9)
    ctx.close(fig.axes[0].get_ylim(), (0, 1), 'vertical limits', atol=1e-9)
    # What came back is what was drawn.
    agg.FigureCanvasAgg(fig).draw()
    drawn = np.asarray(fig.canvas.buffer_rgba())[..., :3]
    ctx.check(
        drawn.shape == image.shape
        and bool(np.mean(drawn.astype(int) != image.astype(int)) < 0.01),
        f'{what}: the image is not the picture that was drawn',
    )
    del drawn
  ctx.nontrivial(exposed >= 1)
  ctx.label('view moved' if moved else 'same view')


# Rates.


@st.composite
def rate_case(draw):
  return {
      'sheet': draw(lattice.sheet(4.5, 6.5)),
      'coef': draw(
          st.lists(gen.real(-2.0, 2.0), min_size=12, max_size=12)
      ),
      'lo': draw(gen.real(-5.0, 0.0)),
      'hi': draw(gen.real(1.5, 10.0)),
      'points': draw(st.integers(8, 25)),
      'radius': draw(gen.real(0.2, 3.0)),
      'half': draw(gen.real(2.0, 6.0)),
  }


class Rates:
  """A smooth positive rate for each neighbour, told by its direction."""

  def __init__(self, coef, expected):
    self.coef = np.asarray(coef).reshape(3, 4)
    self.expected = expected
    self.asked = []

  def at(self, k, beam):
    a, b, w, s = self.coef[k]
    return 0.1 + (1.2 + math.sin(a * beam[0] + b * beam[1] + s)) * (
        1 + 0.3 * k + 0.1 * w * math.tanh(beam[0] - beam[1])
    )

  def __call__(self, grid, beam_pos):
    p = np.asarray(grid.atom_positions)
    z = np.asarray(grid.atomic_numbers)
    si = int(np.nonzero(z == 14)[0][0])
    beam = gen.pt(beam_pos)
    self.asked.append((beam, p[si].copy()))
    states = []
    for k, v in enumerate(self.expected):
      to = int(np.argmin(np.hypot(*(p - p[si] - v).T)))
      zz = np.full_like(z, 6)
      zz[to] = 14
      states.append(
          graphene.SuccessorState(material(p, zz), self.at(k, beam - p[si]))
      )
    return graphene.Rates(states)


def lines_of(ax):
  """Drawn curves, as (x, y, colour)."""
  out = []
  for l in ax.get_lines():
    x = np.asarray(l.get_xdata(), dtype=float)
    if len(x):
      out.append((
          x,
          np.asarray(l.get_ydata(), dtype=float),
          mcolors.to_hex(l.get_color()),
      ))
  return out


def rate_scene(c):
  p, z = lattice.build(c['sheet'])
  si = int(np.nonzero(z == 14)[0][0])
  v = p[lattice.neighbors3(p, si)] - p[si]
  return p, z, si, v, Rates(c['coef'], v)


def check_vector(c, ctx):
  p, z, si, v, rates = rate_scene(c)
  del si
  fig, ax = plt.subplots()
  try:
    plotting_utils.plot_rate_along_neighbor_vector3(
        ax,
        rates,
        material(p, z),
        extent=(c['lo'], c['hi']),
        num_points=c['points'],
    )
    curves = lines_of(ax)
    ctx.check(len(curves) == 1, f'{len(curves)} curves')
    x, y, _ = curves[0]
    ctx.close(
        x, np.linspace(c['lo'], c['hi'], c['points']), 'places', atol=1e-7
    )
    fits = [
        k
        for k in range(3)
        if np.allclose(y, [rates.at(k, t * v[k]) for t in x], rtol=1e-5)
    ]
    ctx.check(
        bool(fits), 'the curve is not the rate towards any one neighbour'
    )
    marks = [
        s
        for col in ax.collections
        for s in np.asarray(
            col.get_segments() if hasattr(col, 'get_segments') else []
        )
    ]
    ctx.check(
        sorted(round(float(s[0][0]), 6) for s in marks) == [0.0, 1.0],
        'the atoms are marked at 0 and 1',
    )
  finally:
    plt.close(fig)
  ctx.nontrivial()


def check_arc(c, ctx):
  p, z, si, v, rates = rate_scene(c)
  del si
  fig, ax = plt.subplots()
  try:
    plotting_utils.plot_rate_along_arc3(
        ax,
        rates,
        material(p, z),
        normalized_radius=c['radius'],
        num_points=c['points'],
    )
    legend = ax.get_legend()
    labels = [t.get_text() for t in legend.get_texts()]
    handles = (
        legend.legend_handles
        if hasattr(legend, 'legend_handles')
        else legend.legendHandles
    )
    named = {
        mcolors.to_hex(h.get_color()): t for h, t in zip(handles, labels)
    }
    curves = lines_of(ax)
    ctx.check(
        len(curves) == 4 and len(named) == 4,
        f'{len(curves)} curves, named {labels}',
    )
    by_name = {named[c[2]]: c for c in curves}
    radius = c['radius'] * np.mean(np.hypot(*v.T))
    x = np.linspace(0.0, 2 * math.pi, c['points'])
    total = by_name.pop('Total rate', None)
    ctx.check(total is not None, f'no total among {labels}')
    for name, curve in list(by_name.items()) + [('total', total)]:
      ctx.close(curve[0], x, f'angles of {name}', atol=1e-6)

    # Which way the angle runs, and from where, is a convention: any will do,
    # as long as it is the same one for every curve.
    def curve_of(k, start, way):
      return np.array([
          rates.at(
              k,
              radius
              * np.array(
                  [math.cos(start + way * t), math.sin(start + way * t)]
              ),
          )
          for t in x
      ])

    good = False
    for start in (0.0, math.pi / 2, math.pi, -math.pi / 2):
      for way in (1, -1):
        want = [curve_of(k, start, way) for k in range(3)]
        match = [
            [
                k
                for k in range(3)
                if np.allclose(curve[1], want[k], rtol=1e-4, atol=1e-6)
            ]
            for curve in by_name.values()
        ]
        if (
            all(match)
            and len(set.union(*map(set, match))) == 3
            and np.allclose(total[1], sum(want), rtol=1e-4, atol=1e-6)
        ):
          good = True
    ctx.check(
        good, 'the curves are not the rates on the circle, one per neighbour'
    )
  finally:
    plt.close(fig)
  ctx.nontrivial()


def check_field(c, ctx):
  """The raster covers the extent; neighbours are told apart by colour."""
  p, z, si, v, rates = rate_scene(c)
  n = c['points'] // 2
  half = c['half']
  fig, ax = plt.subplots()
  calls = []
  real = seaborn.kdeplot

  def spy(*args, **kwargs):
    if args:
      kwargs['data'] = args[0]
    calls.append(kwargs)
    return real(**kwargs)

  def column(call, name):
    value = call.get(name)
    return np.asarray(
        call['data'][value] if isinstance(value, str) else value, dtype=float
    )

  seaborn.kdeplot = spy
  try:
    plotting_utils.plot_rate_function3(
        ax,
        rates,
        material(p, z),
        extent=(-half, half),
        num_raster_points=n,
    )
    asked = np.array([b - s for b, s in rates.asked])
    side = np.linspace(-half, half, n)
    want = np.stack(np.meshgrid(side, side), axis=-1).reshape(-1, 2)
    ctx.check(
        same_points(asked, want),
        'the rates are not taken on the raster of the extent',
    )
    ctx.close(ax.get_xlim(), (-half, half), 'shown x')
    ctx.close(ax.get_ylim(), (-half, half), 'shown y')
    dots = [
        (np.asarray(k.get_offsets(), dtype=float), k.get_facecolor())
        for k in ax.collections
        if isinstance(k, matplotlib.collections.PathCollection)
        and len(k.get_offsets())
    ]
    ctx.check(
        any(same_points(d[0], p - p[si]) for d in dots), 'atoms not drawn'
    )
    ctx.check(
        any(same_points(d[0], [[0.0, 0.0]]) for d in dots), 'silicon not drawn'
    )
    marked = [d for d in dots if same_points(d[0], v) and len(d[1]) == 3]
    ctx.check(bool(marked), 'neighbours not drawn in three colours')
    # The contours of a neighbour's rate come in that neighbour's colour.
    if calls and all('weights' in a and a.get('cmap') for a in calls):
      ctx.check(len(calls) == 3, f'{len(calls)} contour plots')
      for where, colour in zip(*marked[0]):
        k = int(np.argmin(np.hypot(*(v - where).T)))
        mine = [
            a
            for a in calls
            if np.allclose(
                matplotlib.colormaps[a['cmap']](1.0)
                if isinstance(a['cmap'], str)
                else a['cmap'](1.0),
                colour,
            )
        ]
        ctx.check(len(mine) == 1, 'colours of dots and contours differ')
        x, y = column(mine[0], 'x'), column(mine[0], 'y')
        ctx.close(
            column(mine[0], 'weights'),
            [rates.at(k, np.array(b)) for b in zip(x, y)],
            'contours of one neighbour in the colour of another',
            rtol=1e-5,
        )
        ctx.check(
            same_points(np.stack([x, y], axis=-1), want),
            'contours at other places',
        )
      ctx.label('contours')
  finally:
    seaborn.kdeplot = real
    plt.close(fig)
  ctx.nontrivial()


def check_rates(c, ctx):
  check_vector(c, ctx)
  check_arc(c, ctx)
  p, z = lattice.build(c['sheet'])
  for plot in (
      plotting_utils.plot_rate_along_arc3,
      plotting_utils.plot_rate_along_neighbor_vector3,
      plotting_utils.plot_rate_function3,
  ):
    fig, ax = plt.subplots()
    try:
      ctx.raises(
          ValueError,
          lambda: plot(ax, Rates(c['coef'], []), material(p, np.full_like(z, 6))),  # pylint: disable=cell-var-from-loop
          'a sheet without silicon',
      )
    finally:
      plt.close(fig)


PARTS = [
    Part('time', time_case, check_time, 400, 20000),
    Part('story', story, check_story, 60, 1500),
    Part('run', run_case, check_run, 25, 500),
    Part('scene', scene_case, check_scene, 20, 400),
    Part('rates', rate_case, check_rates, 25, 600),
    Part('field', rate_case, check_field, 10, 120),
]
WEIGHTS = {'time': 1, 'story': 30, 'run': 15, 'scene': 15, 'rates': 10, 'field': 12}

ASSUMPTIONS = [
    'times are not negative and below 100 hours',
    'rate plots are of scenes with at most two silicon atoms',
]
