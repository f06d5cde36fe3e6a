"""C29: noise searches return noise that meets the privacy target."""
import inspect
import math
from se import core
from se.runner import Case
from harness import pldlib as L

FUNCTIONS = ['accountant.get_smallest_parameter / get_smallest_laplace_noise / '
             'get_smallest_discrete_laplace_noise / get_smallest_gaussian_noise / '
             'get_smallest_subsampled_gaussian_noise',
             'GaussianPrivacyLoss / LaplacePrivacyLoss / DiscreteLaplacePrivacyLoss / '
             'DiscreteGaussianPrivacyLoss.from_privacy_guarantee',
             'common.inverse_monotone_function']
BOUNDS = ['search tolerance set to a quarter (quick) / sixteenth (thorough) of the search range or '
          'of the initial guess; Gaussian: the target is met by twice the initial guess; number of '
          'queries symbolic (subsampled and plain Gaussian: 1, 2, 4; thorough also 9)']
ASSUMPTIONS = ['the accounted delta is an arbitrary weakly decreasing function of the noise '
               '(what it is, is C18 to C27)']


def target(env, eps, delta):
  return env.mod(L.COMMON).DifferentialPrivacyParameters(eps, delta)


def coarse(env, parts):
  c = env.mod(L.COMMON)
  real = c.BinarySearchParameters

  def f(lo, hi, *r, **kw):
    p = real(lo, hi, *r, **kw)
    w = (hi - lo) if hi != math.inf else p.initial_guess
    p.tolerance = w / parts
    return p
  c.BinarySearchParameters = f


class Pld:
  """Stands for the distribution of a mechanism with noise x."""

  def __init__(self, env, log, call, x, n=1):
    self.env, self.log, self.call, self.x, self.n = env, log, call, x, n

  def self_compose(self, num_times, *a, **k):
    return Pld(self.env, self.log, self.call, self.x, self.n * num_times)

  def get_delta_for_epsilon(self, epsilon):
    self.log.append((self.call, self.n, epsilon))
    return self.env.func('D', 'wdec')(self.x)

  def __getattr__(self, name):
    raise core.Inconclusive('the harness has no ' + name)


def stub(env, name, noise):
  """Replaces a constructor; noise(args) is the amount of noise asked for."""
  P = env.mod(L.PLD)
  sig = inspect.signature(getattr(P, name))
  log = []

  def make(*a, **kw):
    b = sig.bind(*a, **kw)
    b.apply_defaults()
    return Pld(env, log, b.arguments, noise(b.arguments))
  setattr(P, name, make)
  return log


def asked(env, log, n, eps, sens, q=1.0):
  if not log:
    raise core.Inconclusive('the accounting function was not consulted')
  for call, k, e in log:
    env.check_eq(k, n, 'accounted over the number of queries')
    env.check_eq(e, eps, 'accounted at the target epsilon')
    env.check_eq(call['sensitivity'], sens, 'accounted for the sensitivity')
    env.check_eq(call.get('sampling_prob', 1.0), q, 'accounted for the sampling probability')
    env.check(call['pessimistic_estimate'] is True, 'accounted pessimistically')
    env.check(call['value_discretization_interval'] > 0, 'positive discretization')


def laplace(env, parts, defaults):
  eps, delta = env.pos('eps'), env.real('delta', lo=0, hi=1)
  s = 1 if defaults else env.pos('s')
  n = 1 if defaults else env.nat('n', 1, 50)
  coarse(env, parts)
  log = stub(env, 'from_laplace_mechanism', lambda c: c['parameter'])
  a = env.mod(L.ACC)
  r = (a.get_smallest_laplace_noise(target(env, eps, delta)) if defaults else
       a.get_smallest_laplace_noise(target(env, eps, delta), n, s))
  asked(env, log, n, eps, s)
  env.check(r > 0, 'positive noise')
  if env.fork(env.func('D', 'wdec')(r) <= delta):
    env.reach('met')
    return
  env.reach('fallback')
  # the accounted delta of that noise exceeds the target: epsilon itself must be met
  env.check_le(n * s, eps * r, 'total epsilon at most the target')
  M = env.mod(L.MECH)
  d = M.LaplacePrivacyLoss(r, sensitivity=n * s).get_delta_for_epsilon(eps)
  env.check_le(d, delta, 'fallback meets the target')


def dlaplace(env, parts, defaults, sens=1, n=1):
  eps, delta = env.pos('eps'), env.real('delta', lo=0, hi=1)
  n = 1 if defaults else env.nat('n', 1, 50)
  coarse(env, parts)
  log = stub(env, 'from_discrete_laplace_mechanism', lambda c: 1 / c['parameter'])
  a = env.mod(L.ACC)
  r = (a.get_smallest_discrete_laplace_noise(target(env, eps, delta)) if defaults else
       a.get_smallest_discrete_laplace_noise(target(env, eps, delta), n, sens))
  asked(env, log, n, eps, sens)
  env.check(r > 0, 'positive parameter')
  if env.fork(env.func('D', 'wdec')(1 / r) <= delta):
    env.reach('met')
    return
  env.reach('fallback')
  env.check_le(r * n * sens, eps, 'total epsilon at most the target')


def gauss_delta(env, sig, s, eps):
  return env.Phi(s / (2 * sig) - eps * sig / s) - env.exp(eps) * env.Phi(
      -s / (2 * sig) - eps * sig / s)


def gauss_target(env):
  """delta by t with delta = 1.5 exp(-t^2/2), the initial guess being t s/eps."""
  eps = env.pos('eps')
  t = env.real('t', lo=env.frac(10, 11) if env.symbolic else 10 / 11, hi=20)
  return eps, t, env.frac(3, 2) * env.exp(-t * t / 2) if env.symbolic else 1.5 * math.exp(-t * t / 2)


def gaussian(env, parts, n, how):
  """sigma in units of the sensitivity over all queries."""
  eps, t, delta = gauss_target(env)
  s = env.pos('s')
  tot = s * env.sqrt(n)
  env.assume(gauss_delta(env, 2 * t * tot / eps, tot, eps) <= delta)
  coarse(env, parts)
  if how == 'search':
    r = env.mod(L.ACC).get_smallest_gaussian_noise(target(env, eps, delta), n, s)
  else:
    M = env.mod(L.MECH)
    adj = getattr(M.AdjacencyType, how)
    m = M.GaussianPrivacyLoss.from_privacy_guarantee(
        target(env, eps, delta), s, sampling_prob=1.0, adjacency_type=adj,
        pessimistic_estimate=False)
    r = m.standard_deviation
    env.check_eq(m.sensitivity, s, 'keeps the sensitivity')
    env.check_eq(m.sampling_prob, 1.0, 'keeps the sampling probability')
    env.check(m.adjacency_type == adj, 'keeps the adjacency')
    env.check(m._pessimistic_estimate is False, 'keeps the direction')
  env.check(r > 0, 'positive noise')
  env.check_le(gauss_delta(env, r, tot, eps), delta, 'delta at most the target')


def gaussian_sampled(env, cls, parts, adj):
  """The subsampled constructors search over the REMOVE delta of the same mechanism."""
  M = env.mod(L.MECH)
  C = getattr(M, cls)
  eps, delta = env.pos('eps'), env.real('delta', lo=0, hi=1, lo_open=True)
  q = env.real('q', lo=0, hi=1, lo_open=True)
  s = env.pos('s') if cls == 'GaussianPrivacyLoss' else env.choice('s', [1, 2])
  A = getattr(M.AdjacencyType, adj)
  made, seen = [], []
  D = env.func('D', 'wdec')

  class Stub:
    def __init__(self, sigma, sensitivity=1, pessimistic_estimate=True,
                 log_mass_truncation_bound=-50, sampling_prob=1.0, adjacency_type=None,
                 truncation_bound=None):
      if not sigma > 0:
        raise ValueError('bad sigma')
      self.sigma, self.sens, self.q = sigma, sensitivity, sampling_prob
      self.adj = adjacency_type
      made.append(self)

    def get_delta_for_epsilon(self, e):
      seen.append((self, e))
      return D(self.sigma)

  real_fn = C.from_privacy_guarantee.__func__
  g = real_fn.__globals__
  guess = g['math'].sqrt(2 * g['math'].log(1.5 / delta)) * s / eps
  env.assume(guess > 0)
  env.assume(D(2 * guess) <= delta)
  coarse(env, parts)
  save = g[cls]
  g[cls] = Stub
  try:
    m = real_fn(Stub, target(env, eps, delta), s, sampling_prob=q, adjacency_type=A)
  finally:
    g[cls] = save
  if not isinstance(m, Stub) or not seen:
    raise core.Inconclusive('built in a way the harness does not know')
  for o, e in seen:
    env.check_eq(o.sens, s, 'searched for the sensitivity')
    env.check_eq(o.q, q, 'searched for the sampling probability')
    env.check_eq(e, eps, 'searched at the target epsilon')
    env.check(o.adj == M.AdjacencyType.REMOVE, 'searched for the worse adjacency')
  env.check_eq(m.sens, s, 'keeps the sensitivity')
  env.check_eq(m.q, q, 'keeps the sampling probability')
  env.check(m.adj == A, 'keeps the adjacency')
  env.check_le(D(m.sigma), delta, 'delta at most the target')


def subsampled(env, parts, n):
  eps, delta = env.pos('eps'), env.real('delta', lo=0, hi=1, lo_open=True)
  s = env.pos('s')
  q = env.real('q', lo=0, hi=1, lo_open=True)
  ub = env.pos('ub')
  a = env.mod(L.ACC)
  calls = []
  real = inspect.signature(a.get_smallest_gaussian_noise)

  def smallest(*x, **k):
    b = real.bind(*x, **k)
    b.apply_defaults()
    calls.append(b.arguments)
    return ub
  a.get_smallest_gaussian_noise = smallest
  coarse(env, parts)
  log = stub(env, 'from_gaussian_mechanism', lambda c: c['standard_deviation'])
  r = a.get_smallest_subsampled_gaussian_noise(target(env, eps, delta), n, s, q)
  asked(env, log, n, eps, s, q)
  env.check(r > 0, 'positive noise')
  if env.fork(env.func('D', 'wdec')(r) <= delta):
    env.reach('met')
    return
  env.reach('fallback')
  if not calls:
    raise core.Inconclusive('the fallback is not the plain Gaussian search')
  c = calls[-1]
  env.check_le(ub, r, 'fallback at least the noise that is enough without sampling')
  env.check_eq(c['num_queries'], n, 'fallback searched for the number of queries')
  env.check_eq(c['sensitivity'], s, 'fallback searched for the sensitivity')
  env.check_eq(c['privacy_parameters'].epsilon, eps, 'fallback searched at the target')
  env.check_eq(c['privacy_parameters'].delta, delta, 'fallback searched at the target')


def closed(env, cls, adj, sens):
  """Laplace and discrete Laplace: closed-form parameters."""
  M = env.mod(L.MECH)
  eps = env.pos('eps')
  delta = env.real('delta', lo=0, hi=1)
  q = env.real('q', lo=0, hi=1, lo_open=True)
  s = env.pos('s') if sens is None else sens
  if cls == 'DiscreteLaplacePrivacyLoss':
    env.assume(q > env.frac(1, 100) if env.symbolic else q > 0.01)
  A = getattr(M.AdjacencyType, adj)
  m = getattr(M, cls).from_privacy_guarantee(target(env, eps, delta), s, sampling_prob=q,
                                             adjacency_type=A)
  env.check_eq(m.sensitivity, s, 'keeps the sensitivity')
  env.check_eq(m.sampling_prob, q, 'keeps the sampling probability')
  env.check(m.adjacency_type == A, 'keeps the adjacency')
  p = m.parameter
  env.check(p > 0, 'positive noise')
  # largest likelihood ratio of the subsampled mechanism
  top = s / p if cls == 'LaplacePrivacyLoss' else s * p
  env.check_le((1 - q) + q * env.exp(top), env.exp(eps), 'epsilon at most the target')


def cases(tier):
  q = tier == 'quick'
  parts = 4 if q else 16
  out = []
  for d in (True, False):
    out.append(Case('laplace-%s' % d, laplace, kw=dict(parts=parts, defaults=d),
                    must_reach=('met', 'fallback')))
  out.append(Case('dlaplace-default', dlaplace, kw=dict(parts=parts, defaults=True),
                  must_reach=('met', 'fallback')))
  for s in (1, 2, 3):
    out.append(Case('dlaplace-%d' % s, dlaplace, kw=dict(parts=parts, defaults=False, sens=s),
                    must_reach=('met', 'fallback')))
  for n in (1, 2, 4) if q else (1, 2, 4, 9):
    out.append(Case('gaussian-%d' % n, gaussian, kw=dict(parts=parts, n=n, how='search')))
    out.append(Case('subsampled-%d' % n, subsampled, kw=dict(parts=parts, n=n),
                    must_reach=('met', 'fallback')))
  for adj in ('ADD', 'REMOVE'):
    out.append(Case('gaussian-from-%s' % adj, gaussian, kw=dict(parts=parts, n=1, how=adj)))
    for c in ('GaussianPrivacyLoss', 'DiscreteGaussianPrivacyLoss'):
      out.append(Case('sampled-%s-%s' % (c, adj), gaussian_sampled, kw=dict(
          cls=c, parts=parts, adj=adj)))
    out.append(Case('closed-laplace-%s' % adj, closed, kw=dict(cls='LaplacePrivacyLoss', adj=adj, sens=None)))
    for s in (1, 2):
      out.append(Case('closed-dlaplace-%d-%s' % (s, adj), closed, kw=dict(
          cls='DiscreteLaplacePrivacyLoss', adj=adj, sens=s)))
  return out
