"""Random draws as inputs of a harness."""
import itertools
import numpy as np
from se import core


class Draw:
  def __init__(self, kind, loc, scale, z, value, call):
    self.kind, self.loc, self.scale, self.z, self.value, self.call = (
        kind, loc, scale, z, value, call)


class Draws:
  """Records each scalar draw; value = loc + scale * z for an arbitrary z.

  Discrete Laplace draws have an arbitrary value and `scale` is the parameter.
  """

  def __init__(self, env, cap=40):
    self.env = env
    self.log = []
    self.cap = cap
    self.calls = 0
    if env.symbolic:
      from se import shims
      shims.RNG.provider = self.draw
    else:
      self._patch()

  def one(self, kind, loc, scale):
    env = self.env
    i = len(self.log)
    if i >= self.cap:
      raise core.Inconclusive('more random draws than the harness allows')
    z = env.real('%s%d' % (kind, i))
    if kind == 'dlaplace':
      v = loc + z
    elif core.is_num(scale) and not core.sym(scale) and scale == 0:
      v = loc + 0.0 * 1
    else:
      v = loc + scale * z
    self.log.append(Draw(kind, loc, scale, z, v, self.calls))
    return v

  def draw(self, kind, params, size):
    self.calls += 1
    loc, scale = params if len(params) == 2 else (0, params[0])
    if size is None:
      shape = np.broadcast_shapes(np.shape(loc), np.shape(scale))
    else:
      shape = (size,) if np.ndim(size) == 0 else tuple(size)
    shape = tuple(int(n) for n in shape)
    L = np.broadcast_to(np.asarray(loc, dtype=object), shape)
    S = np.broadcast_to(np.asarray(scale, dtype=object), shape)
    if shape == ():
      return self.one(kind, L.item(), S.item())
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
      out[i] = self.one(kind, L[i], S[i])
    return out if self.env.symbolic else out.astype(float)

  def _patch(self):
    import scipy.stats
    d = self.draw

    class Gen:
      def normal(self, loc=0.0, scale=1.0, size=None):
        return d('normal', (loc, scale), size)

      def laplace(self, loc=0.0, scale=1.0, size=None):
        return d('laplace', (loc, scale), size)

      def gumbel(self, loc=0.0, scale=1.0, size=None):
        return d('gumbel', (loc, scale), size)

      def standard_normal(self, size=None):
        return d('normal', (0.0, 1.0), size)

      def randn(self, *size):
        return d('normal', (0.0, 1.0), size)
    g = Gen()
    for n in ('normal', 'laplace', 'gumbel', 'standard_normal', 'randn'):
      setattr(np.random, n, getattr(g, n))
    np.random.default_rng = lambda *a, **k: g

    def rvs(self, a, loc=0, size=None, random_state=None):
      r = d('dlaplace', (loc, a), size)
      return r
    type(scipy.stats.dlaplace).rvs = rvs
    self.gen = g

  def generator(self):
    """A generator object to hand to the code under test."""
    if self.env.symbolic:
      from se import shims
      return shims.NpRandom()
    return self.gen
