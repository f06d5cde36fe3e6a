"""C10: RDP of the Poisson-subsampled Gaussian."""
import math
from fractions import Fraction
from se import core
from se.runner import Case
from harness import rdplib as R

FUNCTIONS = ['RdpAccountant.compose (PoissonSampledDpEvent)', '_compute_log_a_int',
             '_compute_log_a_frac', '_effective_gaussian_noise_multiplier', '_log_add',
             '_log_comb', '_compute_rdp_poisson_subsampled_gaussian']
BOUNDS = ['integer orders 2 to 6 (quick) / 12 (thorough); fractional orders that are multiples of '
          '1/4, the series cut after at most 2 terms by the step constant; binomial coefficients to 6 terms; order one only between zero and the unsampled divergence; sampling '
          'probability and noise multipliers symbolic; up to 3 Gaussians under one sampling step']


def poisson(env, q, sigma, orders, inner=None, n=1):
  ev = env.event()
  R.summarize(env)
  acc = R.accountant(env, orders)
  acc.compose(ev.PoissonSampledDpEvent(q, inner or ev.GaussianDpEvent(sigma)), n)
  return R.curve(acc)


def integer(env, alpha):
  q = env.prob('q')
  sigma = env.pos('sigma')
  n = env.int('count', 1, 2)
  r = poisson(env, q, sigma, [alpha], None, n)[0]
  if env.fork(q == 0):
    env.check_eq(r, 0, 'nothing sampled: no divergence')
    env.reach('zero')
    return
  if env.fork(q == 1):
    env.check_eq(r, n * env.num(alpha) / (2 * sigma**2), 'everything sampled: Gaussian')
    env.reach('one')
    return
  mom = 0
  for i in range(alpha + 1):
    mom = mom + math.comb(alpha, i) * q**i * (1 - q)**(alpha - i) * env.exp(
        env.frac(i * i - i, 2) / sigma**2)
  if env.symbolic:
    env.check_eq(env.exp(r * (alpha - 1) / n), mom, 'binomial moment sum')
  else:
    env.check_eq(r * (alpha - 1) / n, math.log(mom) if math.isfinite(mom) else r * (alpha - 1) / n,
                 'binomial moment sum')
  env.reach('mid')


def binom(al, i):
  r = Fraction(1)
  for j in range(i):
    r = r * (al - j) / (j + 1)
  return r


def fractional(env, alpha, steps):
  """The two-sided series with terms in absolute value, cut where the code cuts it."""
  q = env.prob('q', lo_open=True, hi_open=True)
  sigma = env.pos('sigma')
  m = env.mod(R.RDP)
  if env.symbolic:
    m._MAX_STEPS_LOG_A_FRAC = steps
  else:
    steps = m._MAX_STEPS_LOG_A_FRAC
  r = poisson(env, q, sigma, [alpha])[0]
  if core.is_inf(r):
    env.reach('cut')
    return
  env.reach('done')
  al = Fraction(alpha)
  if not env.symbolic:
    return frac_concrete(env, q, sigma, al, r, steps)
  A = env.frac(al.numerator, al.denominator)
  z0 = sigma**2 * env.log(1 / q - 1) + env.frac(1, 2)
  s = 0
  got = env.exp(r * (A - 1))
  ok = False
  for i in range(steps):
    c = abs(binom(al, i))
    c = env.frac(c.numerator, c.denominator)
    j = A - i
    t0 = c * env.exp(i * env.log(q) + j * env.log(1 - q)) * env.exp(
        env.frac(i * i - i, 2) / sigma**2) * env.Phi(-(i - z0) / sigma)
    t1 = c * env.exp(j * env.log(q) + i * env.log(1 - q)) * env.exp(
        (j * j - j) / 2 / sigma**2) * env.Phi(-(z0 - j) / sigma)
    s = s + t0 + t1
    d = got - s
    if core.sym(d) and d.const() == 0 or not core.sym(d) and d == 0:
      ok = True
      tot = r * (A - 1)
      for t in (t0, t1):
        env.check_le(env.log(t), tot - 20, 'series cut only once its terms are negligible')
  env.check(ok, LABEL)


LABEL = 'value is a partial sum of the two-sided series'


def frac_concrete(env, q, sigma, al, r, steps):
  from scipy.stats import norm
  A = float(al)
  z0 = sigma**2 * math.log(1 / q - 1) + 0.5
  got = r * (A - 1)
  tot = -math.inf
  c = Fraction(1)
  for i in range(steps):
    if i:
      c = c * abs(al - i + 1) / i
    j = A - i
    lc = math.log(c)
    t0 = lc + i * math.log(q) + j * math.log1p(-q) + (i * i - i) / (2 * sigma**2) + norm.logcdf(
        -(i - z0) / sigma)
    t1 = lc + j * math.log(q) + i * math.log1p(-q) + (j * j - j) / (2 * sigma**2) + norm.logcdf(
        -(z0 - j) / sigma)
    tot = env.np.logaddexp(tot, env.np.logaddexp(t0, t1))
    if max(t0, t1) < tot - 30 and i > A + 2:
      break
  env.check_eq(got, tot, LABEL, 1e-6 * (1 + abs(tot)))


def comb(env, alpha, n):
  m = env.mod(R.RDP)
  if not hasattr(m, '_log_comb'):
    return
  for i in range(n):
    c = abs(binom(Fraction(alpha), i))
    env.check_eq(m._log_comb(alpha, i), env.log(env.frac(c.numerator, c.denominator)),
                 'binomial coefficient')


def edges(env, alpha):
  kind = env.choice('kind', ['q0', 'q1', 's0', 'sinf', 'ainf', 'ainf1', 'bad', 'badsigma', 'a1'])
  sigma = env.pos('sigma')
  q = env.prob('q', lo_open=True, hi_open=True)
  al = env.num(alpha) if isinstance(alpha, int) else alpha
  if kind == 'q0':
    env.check_eq(poisson(env, 0.0, sigma, [alpha, math.inf])[0], 0, 'probability zero')
    env.check_eq(poisson(env, 0.0, 0.0, [alpha])[0], 0, 'probability zero, no noise')
    env.check_eq(poisson(env, 0.0, sigma, [alpha, math.inf])[1], 0, 'probability zero, infinite order')
  elif kind == 'q1':
    env.check_eq(poisson(env, 1.0, sigma, [alpha])[0], al / (2 * sigma**2), 'probability one')
  elif kind == 's0':
    env.check_eq(poisson(env, q, 0.0, [alpha])[0], math.inf, 'no noise')
  elif kind == 'sinf':
    env.check_eq(poisson(env, q, math.inf, [alpha])[0], 0, 'unlimited noise')
  elif kind == 'a1':
    r = poisson(env, q, sigma, [1, 2])[0]
    env.check_lt(0, r, 'order one: a positive cost')
    env.check_le(r, 1 / (2 * sigma**2), 'order one: not above the unsampled divergence')
    env.check_eq(poisson(env, 1.0, sigma, [1])[0], 1 / (2 * sigma**2), 'order one, all sampled')
  elif kind == 'ainf':
    env.check_eq(poisson(env, q, sigma, [math.inf])[0], math.inf, 'infinite order')
  elif kind == 'ainf1':
    env.check_eq(poisson(env, 1.0, sigma, [math.inf])[0], math.inf, 'infinite order, all sampled')
  elif kind == 'bad':
    b = env.real('b')
    env.assume((b < 0) | (b > 1) if env.symbolic else b < 0 or b > 1)
    e = env.raises(lambda: poisson(env, b, sigma, [alpha]), ValueError)
    env.check(e is not None, 'probability outside [0,1] refused')
  else:
    e = env.raises(lambda: poisson(env, q, -sigma, [alpha]), ValueError)
    env.check(e is not None, 'negative noise refused')
  env.reach(kind)


def composed(env, n, alpha):
  """Several Gaussians under one sampling step."""
  ev = env.event()
  q = env.prob('q', lo_open=True, hi_open=True)
  sig = [env.pos('s%d' % i) for i in range(n)]
  if env.bool('zero'):
    sig[0] = 0.0
  shape = env.choice('shape', ['flat', 'self', 'nested', 'mixed'])
  g = [ev.GaussianDpEvent(s) for s in sig]
  if shape == 'flat':
    inner, w = ev.ComposedDpEvent(g), [1] * n
  elif shape == 'self':
    inner, w = ev.SelfComposedDpEvent(g[0], env.num(3)), [3] + [0] * (n - 1)
  elif shape == 'nested':
    inner = ev.ComposedDpEvent([g[0], ev.ComposedDpEvent(g[1:])]) if n > 1 else ev.ComposedDpEvent(
        [ev.ComposedDpEvent(g)])
    w = [1] * n
  else:
    inner = ev.SelfComposedDpEvent(ev.ComposedDpEvent(
        [ev.SelfComposedDpEvent(g[0], env.num(2))] + g[1:]), env.num(2))
    w = [4] + [2] * (n - 1)
  got = poisson(env, q, None, [alpha], inner)[0]
  used = [(s, k) for s, k in zip(sig, w) if k]
  if any(not core.sym(s) and s == 0 for s, _ in used):
    env.check_eq(got, math.inf, 'one Gaussian without noise: infinite divergence')
    env.reach('zero')
    return
  tot = 0
  for s, k in used:
    tot = tot + k / s**2
  mom = 0
  for i in range(alpha + 1):
    mom = mom + math.comb(alpha, i) * q**i * (1 - q)**(alpha - i) * env.exp(
        env.frac(i * i - i, 2) * tot)
  if env.symbolic:
    env.check_eq(env.exp(got * (alpha - 1)), mom, 'one Gaussian with the combined noise')
  elif math.isfinite(mom):
    env.check_eq(got * (alpha - 1), math.log(mom), 'one Gaussian with the combined noise')
  env.reach('pos')


def empty(env):
  ev = env.event()
  q = env.prob('q')
  env.check_eq(poisson(env, q, None, [2], ev.ComposedDpEvent([]))[0], 0,
               'sampling an empty composition costs nothing')
  env.check_eq(poisson(env, q, 1, [2], None)[0] if env.fork(q == 0) else 0, 0, 'integer noise')
  s = env.choice('s', [1, 2, 3])
  a = poisson(env, 0.5, s, [2], ev.ComposedDpEvent([ev.GaussianDpEvent(s)]))[0]
  b = poisson(env, 0.5, float(s), [2])[0]
  env.check_eq(a, b, 'integer noise multiplier equals the same float')


def cases(tier):
  q = tier == 'quick'
  out = [Case('int-%d' % a, integer, kw=dict(alpha=a), must_reach=('zero', 'one', 'mid'))
         for a in ((2, 3, 4, 5, 6) if q else (2, 3, 4, 5, 6, 7, 8, 10, 12))]
  out += [Case('edges-%s' % a, edges, kw=dict(alpha=a)) for a in (3, 2.5)]
  out += [Case('frac-%s' % a, fractional, kw=dict(alpha=a, steps=st), must_reach=('cut', 'done'),
               opts=dict(blind=True, obl_ms=1500))
          for a, st in ([(1.5, 2)] if q else
                        [(1.5, 2), (1.25, 2), (2.5, 2), (2.25, 2)])]
  out += [Case('frac-%s' % a, fractional, kw=dict(alpha=a, steps=1),
               opts=dict(blind=True, obl_ms=1500))
          for a in (2 + 1 / 128, 3 - 1 / 128, 5 + 1 / 1024, 1 + 1 / 64, 32.25)]
  out += [Case('composed-%d-%d' % (n, a), composed, kw=dict(n=n, alpha=a),
               must_reach=('zero', 'pos'))
          for n, a in ([(1, 2), (2, 3), (3, 2)] if q else [(1, 2), (2, 3), (3, 2), (2, 5), (3, 4)])]
  out.append(Case('empty', empty))
  out += [Case('comb-%s' % a, comb, kw=dict(alpha=a, n=6)) for a in (1.5, 2.25, 4.5)]
  out.append(Case('log_add', R.log_add))
  return out
