"""C25: mechanism delta is the hockey-stick divergence of its two outputs."""
import math
from se.runner import Case
from harness import pldlib as L
from harness import addnoise as N

FUNCTIONS = ['AdditiveNoisePrivacyLoss.get_delta_for_epsilon', 'AdditiveNoisePrivacyLoss.mu_upper_cdf',
             'AdditiveNoisePrivacyLoss.mu_lower_log_cdf', 'AdditiveNoisePrivacyLoss.inverse_privacy_loss',
             '{Laplace,Gaussian,DiscreteLaplace,DiscreteGaussian}PrivacyLoss.noise_cdf / noise_log_cdf']
BOUNDS = ['all epsilons, noise scales, sampling probabilities and (continuous) sensitivities; '
          'discrete noises: sensitivity up to 3 (4), truncation bound of the discrete Gaussian '
          'up to 2 (3); lists of up to 3 epsilons']
ASSUMPTIONS = ['The library values delta at a continuous mechanism through the output where the '
               'loss equals epsilon; that this output is the right one is C24.']


def sides(env, m, q, adj, x):
  """(upper cdf, lower cdf) at x by definition."""
  c = m.cdf(x)
  if adj == 'ADD':
    d = m.cdf(x - m.s)
    return c, (d if q is None else (1 - q) * c + q * d)
  d = m.cdf(x + m.s)
  return (d if q is None else (1 - q) * c + q * d), c


def loss_at(env, m, q, adj, x):
  r = m.ratio_log(x, adj)
  if q is None:
    return r
  if adj == 'ADD':
    return -env.log((1 - q) + q * env.exp(-r))
  return env.log((1 - q) + q * env.exp(r))


def window(env, q, adj, eps):
  """Leaves out epsilons the code treats as equal to the mixture's extreme loss."""
  if q is None:
    return
  edge = -env.log(1 - q)
  t = eps if adj == 'ADD' else -eps
  if env.fork(t < edge):
    env.assume(t < edge * (1 - env.frac(1, 10 ** 6)))


def cdfs(env, kind, adj, sampled, s=None, T=None, xs=None):
  """Poisson sampling gives the documented mixture on the documented side."""
  m = N.Mech(env, kind, s, T)
  q = N.sampling(env, sampled)
  pl = m.build(q, adj)
  x = m.point('x', adj, xs)
  u, l = sides(env, m, q, adj, x)
  env.check_eq(pl.mu_upper_cdf(x), u, 'first output distribution')
  g = pl.mu_lower_log_cdf(x)
  if kind == 'dgauss' and x < -T + (s if adj == 'ADD' and q is None else 0):
    env.check(g == -math.inf, 'second output distribution is zero below its support')
  else:
    env.check_eq(env.exp(g), l, 'second output distribution')
  xs2 = env.np.array([x, x])
  env.check_eq(pl.mu_upper_cdf(xs2)[1], u, 'list query agrees')


def gaussian(env, adj, sampled):
  """delta(loss(x)) is U(x) - exp(loss(x)) L(x)."""
  m = N.Mech(env, 'gaussian')
  q = N.sampling(env, sampled)
  pl = m.build(q, adj)
  x = m.point('x', adj)
  eps = loss_at(env, m, q, adj, x)
  window(env, q, adj, eps)
  u, l = sides(env, m, q, adj, x)
  got = pl.get_delta_for_epsilon(eps)
  want = u - env.exp(eps) * l
  # the reported value is clipped at zero and one
  if env.symbolic:
    if env.fork(want < 0):
      env.check_le(0, got, 'not negative')
      return
    if env.fork(want > 1):
      env.check_le(got, 1, 'at most one')
      return
  env.check_eq(got, want, 'delta is the hockey-stick divergence')


def laplace(env, adj, sampled):
  m = N.Mech(env, 'laplace')
  q = N.sampling(env, sampled)
  pl = m.build(q, adj)
  a = 0 if adj == 'ADD' else -m.s
  w = env.choice('where', ['inside', 'above', 'below'])
  if w == 'inside':
    x = m.point('x', adj)
    env.assume(x > a)
    env.assume(x < a + m.s)
    eps = loss_at(env, m, q, adj, x)
    window(env, q, adj, eps)
    u, l = sides(env, m, q, adj, x)
    want = u - env.exp(eps) * l
    got = pl.get_delta_for_epsilon(eps)
    if env.symbolic:
      # closed form is a sum of non-negative terms; clipping cannot bind
      if env.fork(want < 0):
        env.check_le(0, got, 'not negative')
        return
      if env.fork(want > 1):
        env.check_le(got, 1, 'at most one')
        return
    env.check_eq(got, want, 'delta is the hockey-stick divergence')
    return
  top = loss_at(env, m, q, adj, a)
  bot = loss_at(env, m, q, adj, a + m.s)
  far = env.pos('far')
  if w == 'above':
    got = pl.get_delta_for_epsilon(top + far)
    env.check_eq(got, 0, 'no delta above the largest loss')
  else:
    got = pl.get_delta_for_epsilon(bot - far)
    env.check_eq(got, 1 - env.exp(bot - far), 'whole mass below the smallest loss')


def discrete(env, kind, adj, sampled, s, T=None):
  """Sum over all outputs of the positive part of upper - exp(eps) lower."""
  m = N.Mech(env, kind, s, T)
  q = N.sampling(env, sampled)
  pl = m.build(q, adj)
  eps = env.real('eps')
  window(env, q, adj, eps)
  got = pl.get_delta_for_epsilon(eps)
  lo = (0 if adj == 'ADD' else -s) if kind == 'dlaplace' else -T - s - 1
  hi = (s if adj == 'ADD' else 0) if kind == 'dlaplace' else T + s + 1
  E = env.exp(eps)
  want = 0
  prev = (0, 0)
  for x in range(lo, hi + 1):
    if kind == 'dlaplace' and x == hi:
      cur = (1, 1)     # everything from here on has the same loss
    else:
      cur = sides(env, m, q, adj, x)
    du, dl = cur[0] - prev[0], cur[1] - prev[1]
    prev = cur
    t = du - E * dl
    if env.fork(t > 0):
      want = want + t
  env.check_eq(got, want, 'delta is the sum of positive differences')


def lists(env, kind, adj, sampled, s=None, T=None):
  m = N.Mech(env, kind, s, T)
  q = N.sampling(env, sampled)
  pl = m.build(q, adj)
  es = [env.real('e0'), env.real('e1')]
  one = [pl.get_delta_for_epsilon(e) for e in es]
  got = pl.get_delta_for_epsilon(env.np.array(es))
  env.check(len(got) == 2, 'one delta per epsilon')
  for i in range(2):
    env.check_eq(got[i], one[i], 'list query agrees with the single one')
    env.check_le(0, one[i], 'not negative')
    env.check_le(one[i], 1, 'at most one')


def edges(env, kind, adj, s=None, T=None):
  """Epsilons beyond the range of the sampled losses."""
  m = N.Mech(env, kind, s, T)
  q = N.sampling(env, True)
  pl = m.build(q, adj)
  far = env.real('far', lo=0)
  edge = -env.log(1 - q) + far
  if adj == 'ADD':
    env.check_eq(pl.get_delta_for_epsilon(edge), 0, 'no delta beyond the largest mixture loss')
    r = pl.get_delta_for_epsilon(env.np.array([edge, edge]))
    env.check_eq(r[1], 0, 'list query')
  else:
    want = 1 - env.exp(-edge)
    env.check_eq(pl.get_delta_for_epsilon(-edge), want, 'whole mass below the smallest mixture loss')
    r = pl.get_delta_for_epsilon(env.np.array([-edge, -edge]))
    env.check_eq(r[0], want, 'list query')


def cases(tier):
  q = tier == 'quick'
  out = []
  for adj in ('ADD', 'REMOVE'):
    a = adj.lower()
    for sampled in (False, True):
      t = '%s-%s' % (a, 'q' if sampled else '1')
      out.append(Case('gaussian-' + t, gaussian, kw=dict(adj=adj, sampled=sampled)))
      out.append(Case('laplace-' + t, laplace, kw=dict(adj=adj, sampled=sampled)))
      for s in (1, 2, 3) if q else (1, 2, 3, 4):
        out.append(Case('dlaplace-%d-%s' % (s, t), discrete,
                        kw=dict(kind='dlaplace', adj=adj, sampled=sampled, s=s)))
        out.append(Case('cdf-dlaplace-%d-%s' % (s, t), cdfs, kw=dict(
            kind='dlaplace', adj=adj, sampled=sampled, s=s, xs=range(-s - 2, s + 3))))
      for s, T in ((1, 1), (2, 1), (1, 2), (2, 2)) if q else ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)):
        out.append(Case('dgauss-%d-%d-%s' % (s, T, t), discrete,
                        kw=dict(kind='dgauss', adj=adj, sampled=sampled, s=s, T=T)))
        out.append(Case('cdf-dgauss-%d-%d-%s' % (s, T, t), cdfs, kw=dict(
            kind='dgauss', adj=adj, sampled=sampled, s=s, T=T, xs=range(-s - T - 2, s + T + 3))))
      for kind, kw in (('laplace', {}), ('gaussian', {}), ('dlaplace', dict(s=1)),
                       ('dgauss', dict(s=1, T=1))):
        if not kw:
          out.append(Case('cdf-%s-%s' % (kind, t), cdfs, kw=dict(kind=kind, adj=adj, sampled=sampled)))
        out.append(Case('lists-%s-%s' % (kind, t), lists, kw=dict(
            kw, kind=kind, adj=adj, sampled=sampled)))
    for kind, kw in (('laplace', {}), ('gaussian', {}), ('dlaplace', dict(s=2)),
                     ('dgauss', dict(s=1, T=2))):
      out.append(Case('edges-%s-%s' % (kind, a), edges, kw=dict(kw, kind=kind, adj=adj)))
  return out
