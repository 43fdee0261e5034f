"""Pieces shared by the checks that run the simulator."""

import math

import numpy as np
from putting_dune import graphene
from putting_dune import microscope_utils as mu


class DriftRates:
  """Rates that push the silicon along a direction.

  The neighbor furthest along `angle` gets `rate`, the others a fraction.
  """

  def __init__(self, rate, angle, other=0.0):
    self.rate = rate
    self.direction = np.array([math.cos(angle), math.sin(angle)])
    self.other = other

  def __call__(self, grid, beam_position):
    p = np.asarray(grid.atom_positions)
    z = np.asarray(grid.atomic_numbers)
    si = int(np.nonzero(z == 14)[0][0])
    nb = np.argsort(np.hypot(*(p - p[si]).T))[1:4]
    best = nb[int(np.argmax((p[nb] - p[si]) @ self.direction))]
    states = []
    for k in nb:
      zz = np.full_like(z, 6)
      zz[k] = 14
      states.append(
          graphene.SuccessorState(
              mu.AtomicGridMaterialFrame(mu.AtomicGrid(p, zz)),
              np.float32(self.rate if k == best else self.other * self.rate),
          )
      )
    return graphene.Rates(states)


class Recorder(mu.SimulatorObserver):
  """Keeps every notification, in order."""

  def __init__(self):
    self.log = []

  def observe_reset(self, grid, fov):
    self.log.append(('reset', grid, fov))

  def observe_apply_control(self, control):
    self.log.append(('control', control))

  def observe_transition(self, time_since_control_was_applied, grid):
    self.log.append(('transition', time_since_control_was_applied, grid))

  def observe_fov_change(self, fov):
    self.log.append(('fov', fov))

  def observe_take_image(self, duration, fov):
    self.log.append(('take', duration, fov))

  def observe_generated_image(self, image):
    self.log.append(('image', image))


def kinds(log):
  return [e[0] for e in log]


def visible(p, z, fov):
  """Independent rendering of what a field of view shows."""
  ll = np.array([fov.lower_left.x, fov.lower_left.y])
  ur = np.array([fov.upper_right.x, fov.upper_right.y])
  rel = (p - ll) / (ur - ll)
  inside = np.all((p >= ll) & (p <= ur), axis=1)
  # Atoms on the very edge may go either way.
  unsure = np.any(
      (np.abs(rel) < 1e-9) | (np.abs(rel - 1) < 1e-9), axis=1
  ) & np.all((rel > -1e-9) & (rel < 1 + 1e-9), axis=1)
  return rel, inside, unsure


def same_view(ctx, grid, p, z, fov, what):
  """The observed grid lists exactly the atoms in view."""
  rel, inside, unsure = visible(p, z, fov)
  if unsure.any():
    return
  got_p = np.asarray(grid.atom_positions)
  got_z = np.asarray(grid.atomic_numbers)
  ctx.check(
      len(got_p) == int(inside.sum()) == len(got_z),
      f'{what}: {len(got_p)} atoms, {int(inside.sum())} are in view',
  )
  want_p, want_z = rel[inside], z[inside]
  a = np.lexsort(np.round(got_p, 7).T)
  b = np.lexsort(np.round(want_p, 7).T)
  ctx.close(got_p[a], want_p[b], what + ': positions', atol=1e-7)
  ctx.check(
      np.array_equal(got_z[a], want_z[b]), f'{what}: elements misplaced'
  )
