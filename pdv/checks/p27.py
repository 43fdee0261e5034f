"""P27: recordings of the instrument become the trajectories they were."""

import contextlib
import io
import json
import pathlib
import struct
import sys
import tempfile
import types
import zipfile

from hypothesis import strategies as st
import numpy as np
from pdv import gen
from pdv.core import Part


class RecordWriter:
  """Stands in for the record writer, which is not installed here."""

  def __init__(self, dest, **kwargs):
    del kwargs
    self.dest = dest

  def __enter__(self):
    return self

  def __exit__(self, *args):
    self.close()

  def close(self):
    pass

  def write_record(self, record):
    self.dest.write(struct.pack('<q', len(record)) + record)


def records(data):
  out = []
  while data:
    n = struct.unpack('<q', data[:8])[0]
    out.append(data[8 : 8 + n])
    data = data[8 + n :]
  return out


if 'riegeli' not in sys.modules:
  stand_in = types.ModuleType('riegeli')
  stand_in.RecordWriter = RecordWriter
  sys.modules['riegeli'] = stand_in

from google.cloud import storage  # pylint: disable=g-import-not-at-top
from putting_dune import microscope_utils as mu  # pylint: disable=g-import-not-at-top
from putting_dune import putting_dune_pb2  # pylint: disable=g-import-not-at-top
from putting_dune.pipeline import upload_microscope_data as upload  # pylint: disable=g-import-not-at-top

PROPERTY = 'P27'
RULE = (
    'Generated recordings in the format of the instrument (atoms, dopants,'
    ' beam, drift, padding, frames without dopants) are written to disk, loaded'
    ' and converted; and whole directories of them are uploaded to a stand-in'
    ' for the store. Non-trivial: frames with and without a dopant, and the'
    ' view drifts.'
)


@st.composite
def recording(draw, max_frames=9):
  n = draw(st.integers(4, draw(st.sampled_from([max_frames] * 3 + [30]))))
  atoms = draw(st.integers(1, 8 if n <= max_frames else 3))
  frames = []
  for _ in range(n):
    count = draw(st.integers(1, atoms))
    places = draw(
        st.lists(
            st.tuples(gen.real(0.0, 1.0), gen.real(0.0, 1.0)).map(list),
            min_size=count,
            max_size=count,
        )
    )
    if n <= max_frames and draw(st.integers(0, 5)) == 5:
      # Many more atoms, as in a real image.
      more = draw(st.integers(20, 200))
      extra = np.random.default_rng(more).random((more, 2))
      places, count = places + extra.tolist(), count + more
    frames.append({
        'atoms': places,
        'blast': draw(st.sampled_from([True, True, False])),
        'dopants': draw(st.lists(st.integers(0, count - 1), max_size=6)),
        'beam': draw(gen.xy(0.0, 1.0)),
        'dwell': draw(gen.real(0.001, 20.0)),
        'drift': draw(gen.xy(-9.0, 9.0)),
    })
  return {
      'frames': frames,
      'label': draw(st.sampled_from([8, 16, 40])),
      'scale': draw(st.sampled_from([1, 2, 3, 1.5, 0.5])),
      'fov': draw(gen.real(0.5, 8.0)),
      # Factors of the field of view, from some frame on.
      'zoom': draw(
          st.one_of(
              st.just([]),
              st.just([]),
              st.lists(st.sampled_from([0.5, 1.0, 2.0]), min_size=2, max_size=6),
          )
      ),
      'padding': draw(st.integers(0, 3)),
      'channels': draw(st.sampled_from([0, 0, 1])),
      'readout': draw(st.integers(0, 3)),
      'no_readout': draw(st.integers(0, 5)) == 0,
      'order': draw(gen.seeds()),
      'float': draw(st.sampled_from([False, True, 'counts'])),
  }


def side(c, t):
  """The length of the field of view at a frame, in nm."""
  zoom = c['zoom'] or [1.0]
  return c['fov'] * zoom[min(t, len(zoom) - 1)]


def write_recording(c, folder):
  """Writes what the instrument would; returns the images."""
  rng = np.random.default_rng(c['order'])
  n, size = len(c['frames']), int(c['label'] * c['scale'])
  shape = (n + c['padding'], size, size) + (1,) * c['channels']
  images = rng.integers(0, 256, shape).astype(np.uint8)
  if c['float'] == 'counts':
    # Counts of a camera of more than eight bits.
    images = images.astype(np.uint16) * 251
  elif c['float']:
    images = images.astype(np.float32) / np.float32(255)
  labels = rng.random((n + c['padding'], c['label'], c['label']))
  metadata = {}
  for t, f in enumerate(c['frames']):
    pixels = np.asarray(f['atoms']) * c['label']
    entry = {
        'All coordinates': {
            '0': np.concatenate(
                [pixels, np.zeros((len(pixels), 1))], axis=1
            ).tolist()
        },
        'All parameters': {'image_parameters': [side(c, t), 1.0]},
    }
    if f['blast']:
      entry['Blast coordinates'] = {
          'Dopants': pixels[sorted(set(f['dopants']))].reshape(-1, 2).tolist()
      }
      entry['Beam location'] = (np.asarray(f['beam']) * c['label']).tolist()
      entry['Beam dwelltime'] = f['dwell']
      entry['ADF intensities'] = [1.0, 2.0]
      entry['Pixelshifts'] = f['drift']
    if t >= min(c['readout'], n - 1) and not c['no_readout']:
      entry['ADF readouttime'] = 0.5
    metadata[str(t)] = entry
  folder.mkdir(parents=True, exist_ok=True)
  for name, data in (('ADF', images), ('Label', labels)):
    with zipfile.ZipFile(folder / f'{name}-stack-000.ndata1', 'w') as f:
      array = io.BytesIO()
      np.save(array, data)
      f.writestr('data.npy', array.getvalue())
      f.writestr('metadata.json', json.dumps({'metadata': metadata}))
  return images[:n]


def compare(c, images, trajectory, ctx, what, exact_images=True):
  """Every frame is one observation, in order."""
  got = trajectory.observations
  ctx.check(
      len(got) == len(c['frames']),
      f"{what}: {len(c['frames'])} frames, {len(got)} observations",
  )
  size = int(c['label'] * c['scale'])
  corner = np.zeros(2)
  last = np.array([[0.0, 0.0], [10 * side(c, 0)] * 2])
  for t, (f, o) in enumerate(zip(c['frames'], got)):
    where = f'{what}, frame {t}'
    atoms = np.asarray(f['atoms'])
    ctx.close(
        np.asarray(o.grid.atom_positions), atoms, where + ': atoms', atol=1e-6
    )
    z = np.full(len(atoms), 6)
    if f['blast']:
      for d in f['dopants']:
        # Atoms that coincide with a dopant are one and the same.
        z[np.hypot(*(atoms - atoms[d]).T) < 1e-6] = 14
      near = np.array([
          np.hypot(*(atoms - atoms[d]).T) for d in f['dopants']
      ]).reshape(-1, len(atoms))
      unsure = ((near > 1e-8) & (near < 1e-4)).any(axis=0)
      moved = 10 * side(c, t) * np.asarray(f['drift']) / size
    else:
      moved = np.zeros(2)
      unsure = np.zeros(len(atoms), dtype=bool)
    zz = np.asarray(o.grid.atomic_numbers)
    ctx.check(
        zz.shape == z.shape and np.array_equal(zz[~unsure], z[~unsure]),
        f'{where}: elements {zz.tolist()}, expected {z.tolist()}',
    )
    corner = corner + moved
    view = gen.fov_array(o.fov)
    if len(set(c['zoom'])) > 1:
      # What stays in place when the size changes is not specified: a corner or
      # the center has moved by the drift.
      fixed = [np.abs(view[i] - last[i] - moved).max() for i in (0, 1)]
      fixed.append(np.abs((view - last).mean(axis=0) - moved).max())
      ctx.check(
          min(fixed) < 1e-4 + 1e-5 * np.abs(view).max(),
          f'{where}: the view went from {last.tolist()} to {view.tolist()}, it'
          f' drifted by {moved.tolist()}',
      )
      ctx.label('changing size')
    else:
      ctx.close(
          view,
          np.stack([corner, corner + 10 * side(c, 0)]),
          where + ': field of view',
          atol=1e-4,
          rtol=1e-5,
      )
    last = view
    if f['blast']:
      ctx.check(len(o.controls) == 1, f'{where}: {len(o.controls)} controls')
      # Like every other observation: in the frame of the microscope.
      ctx.close(
          gen.pt(o.controls[0].position), f['beam'], where + ': beam', atol=1e-5
      )
      ctx.check(
          abs(o.controls[0].dwell_time.total_seconds() - f['dwell']) < 2e-6,
          f'{where}: dwell time {o.controls[0].dwell_time}',
      )
    else:
      ctx.check(not o.controls, f'{where}: a control that was not applied')
    elapsed = 2.0 + (f['dwell'] if f['blast'] else 0.0)
    ctx.check(
        abs(o.elapsed_time.total_seconds() - elapsed) < 2e-6,
        f'{where}: elapsed {o.elapsed_time}, expected {elapsed} s',
    )
    ctx.check(o.image is not None, f'{where}: no image')
    if exact_images:
      ctx.check(np.array_equal(o.image, images[t]), f'{where}: another image')
    else:
      a = np.asarray(o.image, dtype=float).squeeze()
      b = np.asarray(images[t], dtype=float).squeeze()
      ctx.check(
          a.shape == b.shape
          and np.allclose(a / max(a.max(), 1e-9), b / b.max(), atol=0.02),
          f'{where}: another image',
      )


def check_recording(c, ctx):
  with tempfile.TemporaryDirectory(prefix='pdv_p27_') as tmp:
    folder = pathlib.Path(tmp) / 'data'
    images = write_recording(c, folder)
    if c['no_readout']:
      ctx.raises(
          ValueError,
          lambda: upload.load_dataset(folder),
          'a recording without a readout time',
      )
      ctx.label('no readout time')
      return
    stack, coordinates, parameters = upload.load_dataset(folder)
  ctx.check(np.array_equal(stack, images), 'the images were changed')
  trajectory = upload.convert_dataset_to_proto(stack, coordinates, parameters)
  compare(c, images, trajectory, ctx, 'converted')
  ctx.nontrivial(
      any(f['blast'] for f in c['frames'])
      and not all(f['blast'] for f in c['frames'])
      and any(np.any(f['drift']) for f in c['frames'] if f['blast'])
  )
  ctx.label('padded' if c['padding'] else 'not padded')


@st.composite
def folder_case(draw):
  names = st.lists(
      st.sampled_from([
          'RunOne', 'day2', 'GrapheneSheet', 'a', 'B',
          'run 1.5', 'run 1.6', '2023.01.05', '2023.01.06',
      ]),
      min_size=1,
      max_size=3,
  )
  paths = draw(st.lists(names, max_size=4, unique_by='/'.join))
  return {
      'sets': [[p, draw(recording(5))] for p in paths],
      'broken': [
          draw(
              st.sampled_from(
                  [None, None, None, 'no label', 'cut', 'empty', 'metadata']
              )
          )
          for _ in paths
      ],
  }


def damage(folder, how):
  """What an interrupted copy or a crashed instrument leaves."""
  label = folder / 'Label-stack-000.ndata1'
  if how == 'no label':
    label.unlink()
  elif how == 'cut':
    label.write_bytes(label.read_bytes()[: label.stat().st_size // 2])
  elif how == 'empty':
    label.write_bytes(b'')
  else:
    with zipfile.ZipFile(label) as f:
      array = f.read('data.npy')
    with zipfile.ZipFile(label, 'w') as f:
      f.writestr('data.npy', array)
      f.writestr('metadata.json', json.dumps({'frames': {}}))


class Store:
  """Remembers what was uploaded, where."""

  def __init__(self):
    self.blobs = {}
    self.buckets = []

  def get_bucket(self, name):
    self.buckets.append(name)
    return self

  bucket = get_bucket

  def blob(self, name):
    store = self

    class Blob:

      def upload_from_file(self, f, rewind=False, **kwargs):
        del kwargs
        if rewind:
          f.seek(0)
        store.blobs.setdefault(name, []).append(f.read())

      def upload_from_string(self, data, **kwargs):
        del kwargs
        store.blobs.setdefault(name, []).append(data)

    class Bucket(Blob):
      pass

    return Bucket()


def check_folder(c, ctx):
  """Each good recording is uploaded once; bad ones do not stop the rest."""
  store = Store()
  real = storage.Client
  storage.Client = lambda *a, **k: store
  try:
    with tempfile.TemporaryDirectory(prefix='pdv_p27_') as tmp:
      tmp = pathlib.Path(tmp)
      images = [
          write_recording(r, tmp.joinpath(*path)) for path, r in c['sets']
      ]
      for (path, _), how in zip(c['sets'], c['broken']):
        if how:
          damage(tmp.joinpath(*path), how)
          ctx.label(how)
      (tmp / 'empty').mkdir()
      (tmp / 'notes.txt').write_text('nothing')
      args = upload.Args(directory=tmp, bucket='a-bucket')
      with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(
          io.StringIO()
      ):
        try:
          upload.main(args)
          code = 0
        except SystemExit as e:
          code = e.code
      ctx.check(
          bool(code) == (not c['sets']),
          f"{len(c['sets'])} recordings, exit code {code}",
      )
  finally:
    storage.Client = real
  good = [
      (p, r, i)
      for (p, r), i, how in zip(c['sets'], images, c['broken'])
      if not r['no_readout'] and not how
  ]
  ctx.check(set(store.buckets) <= {'a-bucket'}, f'buckets {store.buckets}')
  ctx.check(
      len(store.blobs) == len(good)
      and all(len(v) == 1 for v in store.blobs.values()),
      f'{len(good)} recordings, uploaded {sorted(store.blobs)}',
  )
  for path, r, i in good:
    words = '-'.join(path).replace('-', '').replace('_', '').lower()
    mine = [
        v[0]
        for k, v in store.blobs.items()
        if k.rsplit('.', 1)[0].replace('_', '').replace('-', '').lower()
        == words
        and k.rsplit('.', 1)[0].count('-') == len(path) - 1
    ]
    ctx.check(
        len(mine) == 1, f'{path} is not found among {sorted(store.blobs)}'
    )
    data = records(mine[0])
    ctx.check(len(data) == 1, f'{len(data)} records')
    message = putting_dune_pb2.Trajectory()
    message.ParseFromString(data[0])
    compare(
        r, i, mu.Trajectory.from_proto(message), ctx, '/'.join(path), False
    )
  ctx.nontrivial(len(good) > 1 or len(good) < len(c['sets']))
  ctx.label(f'{len(good)} of {len(c["sets"])}')


PARTS = [
    Part('recording', recording, check_recording, 200, 5000),
    Part('folder', folder_case, check_folder, 40, 800),
]

ASSUMPTIONS = [
    'square images and one magnification per recording',
    'a recording has at least four frames (the program skips shorter ones)',
    'the record writer and the store are stand-ins',
]
