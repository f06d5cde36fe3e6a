"""C24: privacy loss and its inverse describe the noise mechanism."""
import math
from se.runner import Case
from harness import pldlib as L
from harness import addnoise as N

FUNCTIONS = ['AdditiveNoisePrivacyLoss.privacy_loss', 'AdditiveNoisePrivacyLoss.inverse_privacy_loss',
             '{Laplace,Gaussian,DiscreteLaplace,DiscreteGaussian}PrivacyLoss.'
             'privacy_loss_without_subsampling / inverse_privacy_loss_without_subsampling',
             'common.log_a_times_exp_b_plus_c']
BOUNDS = ['all real outputs, losses, noise scales, sampling probabilities and (continuous) '
          'sensitivities; discrete noises: sensitivity up to 3 (5), outputs within 3 (6) of '
          'the noise-relevant range, truncation bound of the discrete Gaussian up to 3 (4)']


def law(env, kind, adj, sampled, s=None, T=None, xs=None):
  """exp of the loss is the ratio of the two output densities."""
  m = N.Mech(env, kind, s, T)
  q = N.sampling(env, sampled)
  pl = m.build(q, adj)
  x = env.real('x') if not m.discrete else env.choice('x', list(xs))
  r = m.ratio_log(x, adj)
  if r is None:
    env.check(env.raises(lambda: pl.privacy_loss(x), ValueError) is not None,
              'undefined where neither distribution has mass')
    return
  loss = pl.privacy_loss(x)
  if r == 'inf':
    if q is None or adj == 'REMOVE':
      env.check(loss == math.inf, 'infinite loss where the second distribution has no mass')
    else:
      env.check_eq(env.exp(-loss), 1 - q, 'loss of the mixture')
    return
  if r == '-inf':
    if q is None or adj == 'ADD':
      env.check(loss == -math.inf, 'minus infinity where the first distribution has no mass')
    else:
      env.check_eq(env.exp(loss), 1 - q, 'loss of the mixture')
    return
  if q is None:
    env.check_eq(loss, r, 'loss is the log ratio of the densities')
  elif adj == 'ADD':
    env.check_eq(env.exp(-loss), N.mixed(env, q, env.exp(-r)), 'loss is the log ratio of the densities')
  else:
    env.check_eq(env.exp(loss), N.mixed(env, q, env.exp(r)), 'loss is the log ratio of the densities')


def monotone(env, kind, adj, sampled, s=None, T=None, xs=None):
  m = N.Mech(env, kind, s, T)
  q = N.sampling(env, sampled)
  pl = m.build(q, adj)
  if m.discrete:
    x = env.choice('x', list(xs)[:-1])
    if m.ratio_log(x, adj) is None or m.ratio_log(x + 1, adj) is None:
      return
    y = x + 1
  else:
    x = m.point('x', adj)
    y = x + (m.p if kind == 'laplace' else m.p * m.p / m.s) * env.real('step', lo=0)
  a, b = pl.privacy_loss(x), pl.privacy_loss(y)
  if a == math.inf or b == -math.inf:
    return
  if q is None:
    env.check_le(b, a, 'loss is non-increasing in the output')
  elif adj == 'ADD':
    env.check_le(env.exp(-a), env.exp(-b), 'loss is non-increasing in the output')
  else:
    env.check_le(env.exp(b), env.exp(a), 'loss is non-increasing in the output')


def inverse(env, kind, adj, sampled, s=None, T=None, xs=None):
  """x <= inverse(v) exactly when loss(x) >= v."""
  m = N.Mech(env, kind, s, T)
  q = N.sampling(env, sampled)
  pl = m.build(q, adj)
  v = env.real('v')
  if q is not None:
    edge = -env.log(1 - q)
    if adj == 'ADD':
      env.assume(v < edge * (1 - env.frac(1, 10 ** 6)))
    else:
      env.assume(v > -edge * (1 - env.frac(1, 10 ** 6)))
  r = pl.inverse_privacy_loss(v)
  x = m.point('x', adj, xs)
  t = m.ratio_log(x, adj)
  if t is None:
    return
  if m.discrete and r != math.inf and r != -math.inf:
    env.check(env.fork(r == env.num(math.floor(r))) if env.symbolic else r == math.floor(r),
              'discrete inverse is an integer')
  below = r == math.inf or (r != -math.inf and env.fork(x <= r))
  # loss(x) >= v, in terms of the definition
  if t == 'inf':
    if q is None or adj == 'REMOVE':
      env.check(below, 'outputs of infinite loss are below every inverse')
      return
    lhs, rhs = 1 - q, env.exp(-v)           # exp(-loss) <= exp(-v)
  elif t == '-inf':
    if q is None or adj == 'ADD':
      env.check(not below, 'outputs of loss minus infinity are above every inverse')
      return
    lhs, rhs = env.exp(v), 1 - q
  elif q is None:
    lhs, rhs = v, t
  elif adj == 'ADD':
    lhs, rhs = N.mixed(env, q, env.exp(-t)), env.exp(-v)
  else:
    lhs, rhs = env.exp(v), N.mixed(env, q, env.exp(t))
  if below:
    env.reach('below')
    env.check_le(lhs, rhs, 'outputs up to the inverse have at least the loss')
  else:
    env.reach('above')
    env.check_le(rhs, lhs, 'outputs beyond the inverse have at most the loss')
    if env.symbolic and kind != 'gaussian':
      env.check_lt(rhs, lhs, 'the inverse is the largest such output')


def outside(env, kind, adj, s=None, T=None):
  """Losses no output reaches under sampling."""
  m = N.Mech(env, kind, s, T)
  q = N.sampling(env, True)
  pl = m.build(q, adj)
  edge = -env.log(1 - q)
  far = env.pos('far')
  if adj == 'ADD':
    v = edge + far * edge + env.frac(1, 10)
    want = -math.inf
  else:
    v = -(edge + far * edge + env.frac(1, 10))
    want = math.inf
  box = []
  if env.raises(lambda: box.append(pl.inverse_privacy_loss(v)), ValueError) is None:
    r = box[0]
    if kind == 'dgauss':
      lim = m.s - m.T - 1 if adj == 'ADD' else m.T - m.s
      env.check(r == lim, 'unattainable loss: end of the range')
    else:
      env.check(r == want, 'unattainable loss: infinite inverse or an error')


def ends(env, kind, adj, sampled, s=None, T=None):
  """Losses at infinity."""
  m = N.Mech(env, kind, s, T)
  q = N.sampling(env, sampled)
  pl = m.build(q, adj)
  off = 0 if adj == 'ADD' else m.s
  for v in (math.inf, -math.inf):
    if q is not None and (v > 0) == (adj == 'ADD'):
      continue
    r = pl.inverse_privacy_loss(v)
    if kind == 'dgauss':
      want = (m.s - m.T - 1 if v > 0 else m.T) - off
      env.check_eq(r, want, 'inverse at infinite loss is the end of the support')
    else:
      env.check(r == -v, 'inverse at infinite loss is infinite')


def bad(env):
  """Sampling probability and sensitivity are validated."""
  M = env.mod(L.MECH)
  q, s, p = env.real('q'), env.real('s'), env.real('p')
  for adj in (M.AdjacencyType.ADD, M.AdjacencyType.REMOVE):
    for C in (M.LaplacePrivacyLoss, M.GaussianPrivacyLoss):
      ok = env.fork(p > 0) and env.fork(s > 0) and env.fork(q > 0) and env.fork(q <= 1)
      r = env.raises(lambda: C(p, sensitivity=s, sampling_prob=q, adjacency_type=adj), ValueError)
      env.check((r is None) == bool(ok), 'accepts exactly the valid parameters')


def cases(tier):
  q = tier == 'quick'
  out = [Case('bad', bad)]
  cfg = [('laplace', {}), ('gaussian', {})]
  for s in (1, 2, 3) if q else (1, 2, 3, 4, 5):
    cfg.append(('dlaplace', dict(s=s, xs=range(-s - 2, s + 3))))
  for s, T in (((1, 1), (2, 1), (1, 3), (3, 2), (2, 3)) if q
               else ((1, 1), (2, 1), (1, 3), (3, 2), (2, 3), (3, 3), (1, 4), (2, 4), (4, 3))):
    cfg.append(('dgauss', dict(s=s, T=T, xs=range(-s - T - 1, s + T + 2))))
  for kind, kw in cfg:
    nm = kind + ''.join('-%s' % v for k, v in sorted(kw.items()) if k != 'xs')
    for adj in ('ADD', 'REMOVE'):
      kk = dict(kw, kind=kind, adj=adj)
      ke = {k: v for k, v in kk.items() if k != 'xs'}
      for sampled in (False, True):
        t = '%s-%s-%s' % (nm, adj.lower(), 'q' if sampled else '1')
        out.append(Case('law-' + t, law, kw=dict(kk, sampled=sampled)))
        out.append(Case('monotone-' + t, monotone, kw=dict(kk, sampled=sampled)))
        out.append(Case('inverse-' + t, inverse, kw=dict(kk, sampled=sampled),
                        must_reach=('below', 'above')))
        out.append(Case('ends-' + t, ends, kw=dict(ke, sampled=sampled)))
      out.append(Case('outside-%s-%s' % (nm, adj.lower()), outside, kw=ke))
  return out
