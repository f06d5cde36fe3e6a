"""Definitions of the additive noise mechanisms, independent of the code."""
from harness import pldlib as L
from se import core

KINDS = ('laplace', 'gaussian', 'dlaplace', 'dgauss')


class Mech:
  """Noise density by definition; symbolic parameters."""

  def __init__(self, env, kind, s=None, T=None):
    self.env, self.kind = env, kind
    self.discrete = kind in ('dlaplace', 'dgauss')
    self.p = env.pos('noise')
    if s is None:
      # no loss of generality: everything in units of the noise scale
      s = env.pos('sens') * self.p if kind == 'laplace' else env.pos('sens')
    self.s = s
    self.T = T

  def point(self, name, adj, xs=None):
    """Any output (for the Gaussian described by its loss without sampling)."""
    env = self.env
    if self.discrete:
      return env.choice(name, list(xs))
    if self.kind == 'laplace':
      return self.p * env.real(name)
    t = env.real(name)
    return (self.s if adj == 'ADD' else -self.s) / 2 - t * self.p * self.p / self.s

  def build(self, q, adj, **kw):
    M = self.env.mod(L.MECH)
    a = getattr(M.AdjacencyType, adj)
    if q is not None:
      kw['sampling_prob'] = q
    kw['sensitivity'] = self.s
    kw['adjacency_type'] = a
    if self.kind == 'dgauss' and self.T is not None:
      kw['truncation_bound'] = self.T
    return {'laplace': M.LaplacePrivacyLoss, 'gaussian': M.GaussianPrivacyLoss,
            'dlaplace': M.DiscreteLaplacePrivacyLoss,
            'dgauss': M.DiscreteGaussianPrivacyLoss}[self.kind](self.p, **kw)

  def log_density(self, x):
    """Up to the normalising constant; None where the density is zero."""
    p = self.p
    if self.kind in ('laplace', 'dlaplace'):
      ax = x if self.env.fork(x >= 0) else -x
      return -ax / p if self.kind == 'laplace' else -ax * p
    if self.kind == 'dgauss' and not -self.T <= x <= self.T:
      return None
    return -(x * x) / (2 * p * p)

  def ratio_log(self, x, adj):
    """log of mu(x)/mu(x-s) (ADD) or mu(x+s)/mu(x) (REMOVE); may be 'inf'/'-inf'/None."""
    a, b = (x, x - self.s) if adj == 'ADD' else (x + self.s, x)
    u, l = self.log_density(a), self.log_density(b)
    if u is None:
      return None if l is None else '-inf'
    return 'inf' if l is None else u - l

  def cdf(self, x):
    """Distribution function of the noise."""
    env, p = self.env, self.p
    if core.is_inf(x):
      return 1 if x > 0 else 0
    if self.kind == 'gaussian':
      return env.Phi(x / p)
    if self.kind == 'laplace':
      if env.fork(x < 0):
        return env.exp(x / p) / 2
      return 1 - env.exp(-x / p) / 2
    if self.kind == 'dlaplace':
      ea = env.exp(p)
      if x < 0:
        return env.exp(p * (x + 1)) / (ea + 1)
      return 1 - env.exp(-p * x) / (ea + 1)
    tot = up = 0
    for k in range(-self.T, self.T + 1):
      w = env.exp(-(k * k) / (2 * p * p))
      tot = tot + w
      if k <= x:
        up = up + w
    return up / tot


def sampling(env, sampled):
  if not sampled:
    return None
  return env.real('q', lo=0, hi=1, lo_open=True, hi_open=True)


def mixed(env, q, r_exp):
  """(1-q) + q*r."""
  return r_exp if q is None else (1 - q) + q * r_exp
