"""P01: stored records come back as they were written."""

import datetime as dt
import os
import tempfile

from hypothesis import strategies as st
import numpy as np
from pdv import gen
from pdv.core import Part
from putting_dune import io as pd_io
from putting_dune import microscope_utils as mu

PROPERTY = 'P01'
RULE = (
    'Records of every kind (grids, controls, fields of view, observations,'
    ' trajectories, transitions, drifts, labelled trajectories) are generated'
    ' field by field, with every combination of present/absent images and'
    ' labels; non-trivial: the record holds at least one atom, control or'
    ' image (files: at least two records).'
)

DTYPES = ['uint8', 'float32', 'float64', 'int32', 'bool', 'uint16']


@st.composite
def image(draw):
  side = draw(st.sampled_from([4, 4, 4, 70]))
  shape = [draw(st.integers(0, side)), draw(st.integers(1, side))]
  if draw(st.booleans()):
    shape.append(draw(st.sampled_from([1, 3])))
  return {
      'dtype': draw(st.sampled_from(DTYPES)),
      'shape': shape,
      'seed': draw(st.integers(0, 1000)),
  }


def opt_image():
  return st.one_of(st.none(), image())


def make_image(spec):
  if spec is None:
    return None
  r = np.random.default_rng(spec['seed'])
  d = np.dtype(spec['dtype'])
  shape = tuple(spec['shape'])
  if d == np.bool_:
    return r.integers(0, 2, shape).astype(bool)
  if d.kind == 'f':
    return r.normal(size=shape).astype(d)
  return r.integers(0, np.iinfo(d).max, shape, endpoint=True).astype(d)


@st.composite
def observation(draw):
  return {
      'grid': draw(gen.any_grid()),
      'fov': draw(gen.fov()),
      'controls': draw(st.lists(gen.control(), max_size=3)),
      'elapsed': draw(
          st.one_of(gen.real(0.0, 5000.0), gen.real(5000.0, 1e7))
      ),
      'image': draw(opt_image()),
      'label': draw(opt_image()),
  }


@st.composite
def drift(draw):
  return {
      'jitter': draw(gen.points(-5, 5, max_size=5)),
      'drift': draw(gen.xy(-30, 30)),
  }


@st.composite
def record(draw, kinds=None):
  kind = draw(
      st.sampled_from(
          kinds
          or [
              'grid',
              'control',
              'fov',
              'observation',
              'trajectory',
              'transition',
              'transition',
              'drift',
              'labeled',
          ]
      )
  )
  if kind == 'grid':
    body = draw(gen.any_grid(max_size=12))
  elif kind == 'control':
    body = draw(gen.control())
  elif kind == 'fov':
    body = draw(gen.fov())
  elif kind == 'observation':
    body = draw(observation())
  elif kind == 'trajectory':
    body = draw(
        st.lists(observation(), max_size=draw(st.sampled_from([3, 3, 12])))
    )
  elif kind == 'transition':
    body = {
        'grid_before': draw(gen.any_grid(max_size=4)),
        'grid_after': draw(gen.any_grid(max_size=4)),
        'fov_before': draw(gen.fov()),
        'fov_after': draw(gen.fov()),
        'controls': draw(st.lists(gen.control(), max_size=2)),
        'images': draw(st.tuples(*[opt_image()] * 4).map(list)),
    }
  elif kind == 'drift':
    body = draw(drift())
  else:
    body = {
        'observations': draw(st.lists(observation(), max_size=2)),
        'drifts': draw(st.lists(drift(), max_size=3)),
    }
  return {'kind': kind, 'body': body}


def make_observation(o):
  return mu.MicroscopeObservation(
      grid=gen.make_grid(o['grid']),
      fov=gen.make_fov(o['fov']),
      controls=tuple(gen.make_control(c) for c in o['controls']),
      elapsed_time=dt.timedelta(seconds=o['elapsed']),
      image=make_image(o['image']),
      label_image=make_image(o['label']),
  )


def make_drift(d):
  return mu.Drift(jitter=gen.arr(d['jitter']), drift=np.asarray(d['drift']))


CLASSES = {
    'grid': mu.AtomicGrid,
    'control': mu.BeamControl,
    'fov': mu.MicroscopeFieldOfView,
    'observation': mu.MicroscopeObservation,
    'trajectory': mu.Trajectory,
    'transition': mu.Transition,
    'drift': mu.Drift,
    'labeled': mu.LabeledAlignmentTrajectory,
}


def make(rec):
  k, b = rec['kind'], rec['body']
  if k == 'grid':
    return gen.make_grid(b)
  if k == 'control':
    return gen.make_control(b)
  if k == 'fov':
    return gen.make_fov(b)
  if k == 'observation':
    return make_observation(b)
  if k == 'trajectory':
    return mu.Trajectory(tuple(make_observation(o) for o in b))
  if k == 'transition':
    im = [make_image(i) for i in b['images']]
    return mu.Transition(
        grid_before=gen.make_grid(b['grid_before']),
        grid_after=gen.make_grid(b['grid_after']),
        fov_before=gen.make_fov(b['fov_before']),
        fov_after=gen.make_fov(b['fov_after']),
        controls=tuple(gen.make_control(c) for c in b['controls']),
        image_before=im[0],
        image_after=im[1],
        label_image_before=im[2],
        label_image_after=im[3],
    )
  if k == 'drift':
    return make_drift(b)
  return mu.LabeledAlignmentTrajectory(
      trajectory=mu.Trajectory(
          tuple(make_observation(o) for o in b['observations'])
      ),
      drifts=[make_drift(d) for d in b['drifts']],
  )


# --- oracle: compare with the generated *data*, never with another conversion.


F32 = dict(rtol=2e-7, atol=1e-9)


def same_image(ctx, got, spec, what):
  if spec is None:
    ctx.check(got is None, '%s: appeared although none was stored', what)
    return
  want = make_image(spec)
  ctx.check(got is not None, '%s: lost', what)
  got = np.asarray(got)
  ctx.check(got.dtype == want.dtype, f'{what}: dtype {got.dtype}')
  ctx.check(got.shape == want.shape, f'{what}: shape {got.shape}')
  ctx.check(bool(np.array_equal(got, want)), f'{what}: pixels changed')


def same_grid(ctx, got, spec, what):
  ctx.close(got.atom_positions, gen.arr(spec['xy']), what + ' positions', **F32)
  got_z = np.asarray(got.atomic_numbers)
  ctx.check(
      got_z.shape == (len(spec['z']),) and got_z.tolist() == list(spec['z']),
      f"{what}: atomic numbers {got_z.tolist()}, expected {spec['z']}",
  )


def same_seconds(ctx, got, want, what):
  got = got.total_seconds()
  ctx.check(
      abs(got - want) <= 1.1e-6 + 2e-7 * abs(want),
      f'{what}: {got} s, expected {want} s',
  )


def same_control(ctx, got, spec, what):
  ctx.close(gen.pt(got.position), spec['xy'], what + ' position', **F32)
  same_seconds(ctx, got.dwell_time, spec['dwell'], what + ' dwell time')
  ctx.close(got.voltage_kv, spec['kv'], what + ' voltage', **F32)
  ctx.close(got.current_na, spec['na'], what + ' current', **F32)


def same_fov(ctx, got, spec, what):
  ctx.close(gen.fov_array(got).reshape(-1), spec, what, **F32)


def same_observation(ctx, got, spec, what):
  same_grid(ctx, got.grid, spec['grid'], what + ' grid')
  same_fov(ctx, got.fov, spec['fov'], what + ' field of view')
  ctx.check(
      len(got.controls) == len(spec['controls']), f'{what}: control count'
  )
  for i, (c, s) in enumerate(zip(got.controls, spec['controls'])):
    same_control(ctx, c, s, f'{what} control {i}')
  same_seconds(ctx, got.elapsed_time, spec['elapsed'], what + ' elapsed time')
  same_image(ctx, got.image, spec['image'], what + ' image')
  same_image(ctx, got.label_image, spec['label'], what + ' label image')


def same_drift(ctx, got, spec, what):
  ctx.close(got.jitter, gen.arr(spec['jitter']), what + ' jitter', **F32)
  ctx.close(got.drift, spec['drift'], what + ' vector', **F32)


def same(ctx, got, rec, what):
  k, b = rec['kind'], rec['body']
  ctx.check(
      isinstance(got, CLASSES[k]), f'{what}: read back as {type(got).__name__}'
  )
  if k == 'grid':
    same_grid(ctx, got, b, what)
  elif k == 'control':
    same_control(ctx, got, b, what)
  elif k == 'fov':
    same_fov(ctx, got, b, what)
  elif k == 'observation':
    same_observation(ctx, got, b, what)
  elif k == 'trajectory':
    ctx.check(len(got.observations) == len(b), f'{what}: observation count')
    for i, (o, s) in enumerate(zip(got.observations, b)):
      same_observation(ctx, o, s, f'{what} observation {i}')
  elif k == 'transition':
    same_grid(ctx, got.grid_before, b['grid_before'], what + ' grid before')
    same_grid(ctx, got.grid_after, b['grid_after'], what + ' grid after')
    same_fov(ctx, got.fov_before, b['fov_before'], what + ' fov before')
    same_fov(ctx, got.fov_after, b['fov_after'], what + ' fov after')
    ctx.check(len(got.controls) == len(b['controls']), f'{what}: controls')
    for c, s in zip(got.controls, b['controls']):
      same_control(ctx, c, s, what + ' control')
    got_images = [
        got.image_before,
        got.image_after,
        got.label_image_before,
        got.label_image_after,
    ]
    names = ['image before', 'image after', 'label before', 'label after']
    for n, g, s in zip(names, got_images, b['images']):
      same_image(ctx, g, s, f'{what} {n}')
  elif k == 'drift':
    same_drift(ctx, got, b, what)
  else:
    obs = got.trajectory.observations
    ctx.check(len(obs) == len(b['observations']), f'{what}: observations')
    for o, s in zip(obs, b['observations']):
      same_observation(ctx, o, s, what + ' observation')
    ctx.check(len(got.drifts) == len(b['drifts']), f'{what}: drift count')
    for d, s in zip(got.drifts, b['drifts']):
      same_drift(ctx, d, s, what + ' drift')


def nontrivial(rec):
  text = repr(rec['body'])
  return "'xy': [[" in text or 'dwell' in text or 'dtype' in text or (
      rec['kind'] in ('fov', 'drift')
  )


def check_message(case, ctx):
  """In memory: object -> message -> bytes -> object."""
  ctx.label(case['kind'])
  ctx.nontrivial(nontrivial(case))
  cls = CLASSES[case['kind']]
  message = make(case).to_proto()
  data = message.SerializeToString()
  got = cls.from_proto_string(data)
  same(ctx, got, case, case['kind'])
  # Once stored, storing again loses nothing further.
  again = cls.from_proto_string(got.to_proto().SerializeToString())
  same(ctx, again, case, case['kind'] + ' stored twice')
  ctx.check(
      got.to_proto() == again.to_proto(),
      'storing a restored record changed it again',
  )


@st.composite
def file_case(draw):
  kind = draw(
      st.sampled_from(['trajectory', 'transition', 'observation', 'labeled'])
  )
  return {
      'records': draw(
          st.lists(record([kind]), max_size=draw(st.sampled_from([4, 4, 12])))
      ),
      'kind': kind,
      'previous': draw(st.lists(st.binary(max_size=9).map(list), max_size=2)),
      'raw': draw(
          st.one_of(
              st.lists(st.binary(max_size=12).map(list), max_size=6),
              st.lists(st.binary(max_size=12).map(list), min_size=200,
                       max_size=201),
          )
      ),
      'as_str': draw(st.booleans()),
      'suffix': draw(
          st.sampled_from(['.txt', '', '.recordio', '.tfrecord', '.csv'])
      ),
  }


def check_file(case, ctx):
  """On disk, through the record file functions."""
  ctx.nontrivial(len(case['records']) >= 2)
  ctx.label(f"records={len(case['records'])}")
  with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, 'data.tfrecords')
    if not case['as_str']:
      import pathlib  # pylint: disable=g-import-not-at-top

      path = pathlib.Path(path)
    if case['previous']:
      pd_io.write_records(path, [bytes(b) for b in case['previous']])
    objects = [make(r) for r in case['records']]
    pd_io.write_records(path, iter(objects))
    cls = CLASSES[case['kind']]
    for attempt in range(2):
      got = list(pd_io.read_records(path, cls))
      ctx.check(
          len(got) == len(objects),
          f'read {len(got)} records, wrote {len(objects)}',
      )
      for i, (g, r) in enumerate(zip(got, case['records'])):
        same(ctx, g, r, f'record {i} (read {attempt})')
    raw = list(pd_io.read_records(path))
    ctx.check(
        raw == [o.to_proto().SerializeToString() for o in objects],
        'raw contents differ from the serialized records',
    )
    # Uninterpreted records.
    path2 = os.path.join(d, 'raw.tfrecords')
    want = [bytes(b) for b in case['raw']]
    pd_io.write_records(path2, want)
    ctx.check(list(pd_io.read_records(path2)) == want, 'raw records changed')
    # Files of a kind that is not supported are refused, not misread.
    other = os.path.join(d, 'data' + case['suffix'])
    ctx.raises(
        ValueError,
        lambda: pd_io.write_records(other, objects),
        f'writing {case["suffix"]!r}',
    )
    ctx.raises(
        ValueError,
        lambda: list(pd_io.read_records(other, cls)),
        f'reading {case["suffix"]!r}',
    )


# --- the wire format itself, through an independent decoder.


def wire(data):
  """Decodes protobuf wire format into [(field number, wire type, value)]."""
  out, i = [], 0

  def varint():
    nonlocal i
    shift = value = 0
    while True:
      byte = data[i]
      i += 1
      value |= (byte & 0x7F) << shift
      shift += 7
      if not byte & 0x80:
        return value

  while i < len(data):
    key = varint()
    number, kind = key >> 3, key & 7
    if kind == 0:
      out.append((number, kind, varint()))
    elif kind == 5:
      out.append(
          (number, kind, float(np.frombuffer(data[i : i + 4], '<f4')[0]))
      )
      i += 4
    elif kind == 1:
      out.append(
          (number, kind, float(np.frombuffer(data[i : i + 8], '<f8')[0]))
      )
      i += 8
    elif kind == 2:
      n = varint()
      out.append((number, kind, bytes(data[i : i + n])))
      i += n
    else:
      raise ValueError(f'wire type {kind}')
  return out


def fields(data, number):
  return [v for n, _, v in wire(data) if n == number]


def wire_xy(data):
  x, y = fields(data, 1), fields(data, 2)
  return [x[0] if x else 0.0, y[0] if y else 0.0]


def check_wire(case, ctx):
  """The committed field numbers and types, so stored data stays readable."""
  ctx.nontrivial(bool(case['grid']['z']) or bool(case['controls']))
  data = make_observation(case).to_proto().SerializeToString()
  f32 = lambda v: np.asarray(v, np.float32)
  atoms = fields(fields(data, 1)[0] if fields(data, 1) else b'', 1)
  ctx.check(len(atoms) == len(case['grid']['z']), 'wire: atom count')
  for a, z, p in zip(atoms, case['grid']['z'], case['grid']['xy']):
    ctx.check(fields(a, 1) == [z], 'wire: atomic number')
    ctx.close(wire_xy(fields(a, 2)[0]), f32(p), 'wire: atom position')
  fov = fields(data, 2)[0]
  ctx.close(
      wire_xy(fields(fov, 1)[0]) + wire_xy(fields(fov, 2)[0]),
      f32(case['fov']),
      'wire: field of view',
  )
  controls = fields(data, 3)
  ctx.check(len(controls) == len(case['controls']), 'wire: control count')
  for c, s in zip(controls, case['controls']):
    ctx.close(wire_xy(fields(c, 1)[0]), f32(s['xy']), 'wire: beam position')
    got = [fields(c, n)[0] for n in (2, 3, 4)]
    ctx.close(
        got,
        f32([s['dwell'], s['kv'], s['na']]),
        'wire: dwell/voltage/current',
        rtol=1e-6,
        atol=1e-6,
    )
  ctx.close(
      fields(data, 4)[0], case['elapsed'], 'wire: elapsed', rtol=1e-6, atol=1e-6
  )
  ctx.check(bool(fields(data, 5)) == (case['image'] is not None), 'wire: image')
  ctx.check(bool(fields(data, 6)) == (case['label'] is not None), 'wire: label')
  # And a file written by the committed format reads back the same.
  same_observation(
      ctx, mu.MicroscopeObservation.from_proto_string(data), case, 'wire'
  )


@st.composite
def apply_drift_case(draw):
  o = draw(observation())
  n = len(o['grid']['z'])
  return {
      'obs': o,
      'jitter': (
          [draw(gen.xy(-1, 1)) for _ in range(n)]
          if n <= 12
          else np.random.default_rng(n).uniform(-1, 1, (n, 2)).tolist()
      ),
      'drift': draw(gen.xy(-30, 30)),
      'other': draw(gen.xy(-30, 30)),
  }


def check_apply_drift(case, ctx):
  """Applying a drift changes the grid and FOV and nothing else."""
  n = len(case['obs']['grid']['z'])
  ctx.nontrivial(n > 0)
  d = mu.Drift(jitter=gen.arr(case['jitter']), drift=np.array(case['drift']))
  d0 = mu.Drift(
      jitter=np.zeros((n, 2)), drift=np.array(case['other'])
  )
  total = d.cumulate_drift(d0)
  ctx.close(
      total.drift,
      np.array(case['drift']) + np.array(case['other']),
      'accumulated drift',
  )
  ctx.close(total.jitter, gen.arr(case['jitter']), 'accumulated jitter')
  obs = make_observation(case['obs'])
  got = total.apply_to_observation(obs)
  want = dict(case['obs'])
  want['grid'] = {
      'xy': (gen.arr(case['obs']['grid']['xy']) - gen.arr(case['jitter'])).tolist(),
      'z': case['obs']['grid']['z'],
  }
  s = np.array(case['drift']) + np.array(case['other'])
  want['fov'] = (np.array(case['obs']['fov']) + np.concatenate([s, s])).tolist()
  same_observation(ctx, got, want, 'shifted')
  same_observation(ctx, obs, case['obs'], 'original observation')


PARTS = [
    Part('message', record, check_message, 500, 20000),
    Part('file', file_case, check_file, 60, 1500),
    Part('wire', observation, check_wire, 150, 5000),
    Part('drift', apply_drift_case, check_apply_drift, 120, 4000),
]
ASSUMPTIONS = [
    'positions, times, voltages and currents are finite float32-range numbers;'
    ' every control carries a voltage and a current'
]
