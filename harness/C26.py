"""C26: loss-distribution tails account for all probability outside the grid."""
import math
from se.runner import Case
from harness import pldlib as L
from harness import addnoise as N
from harness.C25 import sides

FUNCTIONS = ['{Laplace,Gaussian,DiscreteLaplace,DiscreteGaussian}PrivacyLoss.privacy_loss_tail / '
             'connect_dots_bounds', 'AdditiveNoisePrivacyLoss.mu_upper_cdf / privacy_loss']
BOUNDS = ['all noise scales, (continuous) sensitivities, sampling probabilities, tail budgets; '
          'discrete noises: sensitivity up to 3 (5), truncation bound of the discrete Gaussian '
          'up to 3 (4), outputs within 3 of the range']


def true_exp(env, m, q, adj, x):
  """(exp(loss), finite?) by definition: exp of the log density ratio."""
  r = m.ratio_log(x, adj)
  if r is None:
    return None
  if r == 'inf':
    return math.inf if q is None or adj == 'REMOVE' else 1 / (1 - q)
  if r == '-inf':
    return 0 if q is None or adj == 'ADD' else 1 - q
  if q is None:
    return env.exp(r)
  if adj == 'ADD':
    return 1 / ((1 - q) + q * env.exp(-r))
  return (1 - q) + q * env.exp(r)


def entries(env, t):
  out = []
  for k in t.tail_probability_mass_function:
    v = t.tail_probability_mass_function[k]
    out.append((math.inf if k == math.inf else env.exp(k), v))
  return out


def total(es):
  s = 0
  for _, v in es:
    s = s + v
  return s


def gaussian(env, adj, sampled, pess):
  m = N.Mech(env, 'gaussian')
  q = N.sampling(env, sampled)
  bud = env.real('budget', hi=0)
  pl = m.build(q, adj, pessimistic_estimate=pess, log_mass_truncation_bound=bud)
  t = pl.privacy_loss_tail()
  lo, hi = t.lower_x_truncation, t.upper_x_truncation
  env.check_le(lo, hi, 'the retained range is not reversed')
  left = sides(env, m, q, adj, lo)[0]
  right = 1 - sides(env, m, q, adj, hi)[0]
  B = env.exp(bud)
  env.check_le(left, B, 'left tail within the budget')
  env.check_le(right, B, 'right tail within the budget')
  inf = [v for k, v in t.tail_probability_mass_function.items() if k == math.inf]
  fin = [(k, v) for k, v in t.tail_probability_mass_function.items() if k != math.inf]
  if pess:
    env.check(len(inf) == 1 and len(fin) == 1, 'one charge per tail')
    env.check_eq(inf[0], left, 'left tail charged to infinite loss')
    env.check_eq(fin[0][1], right, 'right tail mass charged')
    edge = hi
  else:
    env.check(not inf and len(fin) == 1, 'only the left tail is charged')
    env.check_eq(fin[0][1], left, 'left tail mass charged')
    edge = lo
  want = true_exp(env, m, q, adj, edge)
  got = env.exp(fin[0][0])
  if pess:
    env.check_le(want, got, 'right tail charged at least its true loss')
  else:
    env.check_le(got, want, 'left tail charged at most its true loss')
  b = pl.connect_dots_bounds()
  env.check_le(true_exp(env, m, q, adj, lo), env.exp(b.epsilon_upper), 'epsilon range covers the top')
  env.check_le(env.exp(b.epsilon_lower), true_exp(env, m, q, adj, hi), 'epsilon range covers the bottom')


def laplace(env, adj, sampled):
  m = N.Mech(env, 'laplace')
  q = N.sampling(env, sampled)
  pl = m.build(q, adj)
  t = pl.privacy_loss_tail()
  lo, hi = t.lower_x_truncation, t.upper_x_truncation
  env.check_le(lo, hi, 'the retained range is not reversed')
  left = sides(env, m, q, adj, lo)[0]
  right = 1 - sides(env, m, q, adj, hi)[0]
  side = env.choice('side', ['left', 'right'])
  off = m.p * env.real('off', lo=0)
  x = lo - off if side == 'left' else hi + off
  mass = left if side == 'left' else right
  true = true_exp(env, m, q, adj, x)
  es = entries(env, t)
  env.check(len(es) == 2, 'one charge per tail')
  env.check_eq(total(es), left + right, 'all the tail probability is charged')
  e = es[0] if env.fork(es[0][0] > es[1][0]) == (side == 'left') else es[1]
  env.check_eq(e[1], mass, 'tail mass charged')
  env.check_eq(e[0], true, 'tail charged its exact loss')
  b = pl.connect_dots_bounds()
  x = m.point('x', adj)
  r = true_exp(env, m, q, adj, x)
  if sampled and adj == 'ADD':
    env.check_le(env.exp(-b.epsilon_upper), 1 / r, 'epsilon range covers the top')
    env.check_le(1 / r, env.exp(-b.epsilon_lower), 'epsilon range covers the bottom')
  else:
    env.check_le(r, env.exp(b.epsilon_upper), 'epsilon range covers the top')
    env.check_le(env.exp(b.epsilon_lower), r, 'epsilon range covers the bottom')


def discrete(env, kind, adj, sampled, s, T=None, xs=None):
  m = N.Mech(env, kind, s, T)
  q = N.sampling(env, sampled)
  pl = m.build(q, adj)
  t = pl.privacy_loss_tail()
  lo, hi = t.lower_x_truncation, t.upper_x_truncation
  left = sides(env, m, q, adj, lo - 1)[0]
  right = 1 - sides(env, m, q, adj, hi)[0]
  es = entries(env, t)
  env.check_eq(total(es), left + right, 'all the tail probability is charged')
  x = env.choice('x', list(xs))
  true = true_exp(env, m, q, adj, x)
  b = pl.connect_dots_bounds()
  has = sides(env, m, q, adj, x)[0] - sides(env, m, q, adj, x - 1)[0]
  zero = kind == 'dgauss' and env.fork(has <= 0) if env.symbolic else has <= 1e-12
  if x < lo or x > hi:
    if zero:
      env.reach('empty')
      return
    # this output's mass must sit at (at least) its true loss
    covering = [k for k, v in es if (k == math.inf) == (true == math.inf) and (
        k == math.inf or (env.fork(k >= true) if env.symbolic else k >= true * (1 - 1e-9)))]
    env.check(bool(covering), 'an output outside the range is charged at least its loss')
    if kind == 'dlaplace':
      same = [v for k, v in es if env.fork(k == true)] if env.symbolic else \
          [v for k, v in es if abs(k - true) <= 1e-9 * abs(true)]
      env.check(len(same) == 1, 'charged exactly its loss')
      env.check_eq(same[0], left if x < lo else right, 'tail mass charged')
    else:
      env.check(x < lo and true == math.inf, 'only infinite losses lie outside the range')
  elif kind == 'dgauss':
    env.check(true is not None and true != math.inf, 'losses inside the range are finite')
  if zero:
    return
  if not b.lower_x <= x <= b.upper_x:
    if true == math.inf:
      return
    end = true_exp(env, m, q, adj, b.lower_x if x < b.lower_x else b.upper_x)
    env.check_eq(true, end, 'losses outside the grid range are those at its ends')
  env.check(b.lower_x <= b.upper_x, 'grid range is not empty')


def cases(tier):
  quick = tier == 'quick'
  out = []
  for adj in ('ADD', 'REMOVE'):
    for sampled in (False, True):
      t = '%s-%s' % (adj.lower(), 'q' if sampled else '1')
      for pess in (True, False):
        out.append(Case('gaussian-%s-%s' % (t, 'pess' if pess else 'opt'), gaussian,
                        kw=dict(adj=adj, sampled=sampled, pess=pess)))
      out.append(Case('laplace-' + t, laplace, kw=dict(adj=adj, sampled=sampled)))
      for s in (1, 2, 3) if quick else (1, 2, 3, 4, 5):
        out.append(Case('dlaplace-%d-%s' % (s, t), discrete, kw=dict(
            kind='dlaplace', adj=adj, sampled=sampled, s=s, xs=range(-s - 3, s + 4))))
      for s, T in ((1, 1), (2, 1), (1, 2), (3, 2), (2, 3)) if quick else (
          (1, 1), (2, 1), (1, 2), (3, 2), (2, 3), (4, 3), (3, 4), (5, 3)):
        out.append(Case('dgauss-%d-%d-%s' % (s, T, t), discrete, kw=dict(
            kind='dgauss', adj=adj, sampled=sampled, s=s, T=T, xs=range(-s - T - 3, s + T + 4))))
  return out
