"""C11: RDP of sampling without replacement."""
import math
from fractions import Fraction
from se import core
from se.runner import Case
from harness import rdplib as R

FUNCTIONS = ['RdpAccountant.compose (SampledWithoutReplacementDpEvent)',
             '_compute_rdp_sample_wor_gaussian_scalar', '_compute_rdp_sample_wor_gaussian_int',
             '_get_forward_diffs', '_stable_inplace_diff_in_log', '_log_sub_sign', '_log_add',
             '_log_comb', '_effective_gaussian_noise_multiplier']
BOUNDS = ['integer orders 2 to 4 and fractional orders between them with source size, sample size '
          'and noise multiplier symbolic reals (0 <= sample <= source); orders 5, 6 (quick) / 5 to 10 '
          '(thorough) with noise multiplier 1; the cheaper bound above order 256 at order 257 '
          'with one sampling rate and a symbolic noise multiplier above 8; order one only between '
          'zero and the unsampled divergence']


def summarize(env):
  R.summarize(env)
  if not env.symbolic:
    return
  m = env.mod(R.RDP)
  if hasattr(m, '_log_sub_sign'):
    def sub(x, y):
      if x > y:
        return True, env.e.log(env.exp(x) - env.exp(y))
      if x < y:
        return False, env.e.log(env.exp(y) - env.exp(x))
      return True, -math.inf
    m._log_sub_sign = sub


def log_sub(env):
  """Contract of the log-space subtraction."""
  m = env.mod(R.RDP)
  if not hasattr(m, '_log_sub_sign'):
    return
  x, y = env.real('x'), env.real('y')
  s, mag = m._log_sub_sign(x, y)
  if env.fork(x > y):
    env.check(bool(s), 'sign of a positive difference')
    env.check_eq(env.exp(mag), env.exp(x) - env.exp(y), 'log-space difference')
  elif env.fork(x < y):
    env.check(not s, 'sign of a negative difference')
    env.check_eq(env.exp(mag), env.exp(y) - env.exp(x), 'log-space difference')
  else:
    env.check_eq(mag, -math.inf, 'equal terms leave nothing')


def wor(env, n, m, sigma, orders, count=1, inner=None):
  ev = env.event()
  summarize(env)
  acc = R.accountant(env, orders, 'REPLACE_ONE')
  acc.compose(ev.SampledWithoutReplacementDpEvent(n, m, inner or ev.GaussianDpEvent(sigma)), count)
  return R.curve(acc)


def B(env, l, sigma):
  s = 0
  for i in range(l + 1):
    s = s + (-1)**(l - i) * math.comb(l, i) * env.exp(env.frac(i * (i - 1), 2) / sigma**2)
  return s


def moment(env, q, sigma, alpha, easy=False):
  """Right-hand side of Theorem 27 of Wang, Balle, Kasiviswanathan."""
  if alpha == 1:
    return 1
  f2 = env.exp(1 / sigma**2)
  t = [4 * (f2 - 1), 2 * f2]
  a = env.frac(math.comb(alpha, 2)) * q**2 * (t[0] if env.fork(t[0] < t[1]) else t[1])
  tot = 1 + a
  for j in range(3, alpha + 1):
    t = 2 * env.exp(env.frac(j * (j - 1), 2) / sigma**2)
    if not easy:
      if j % 2 == 0:
        h = 4 * B(env, j, sigma)
      else:
        h = 4 * env.sqrt(B(env, j - 1, sigma)) * env.sqrt(B(env, j + 1, sigma))
      t = h if env.fork(h < t) else t
    tot = tot + math.comb(alpha, j) * q**j * t
  return tot


def inputs(env, sigma=None):
  n = env.pos('source')
  m = env.real('sample', lo=0)
  env.assume(m <= n)
  return n, m, env.real('sigma', lo=0.25, lo_open=True) if sigma is None else env.num(sigma)


def integer(env, alpha, sigma=None):
  n, m, sigma = inputs(env, sigma)
  q = m / n
  k = env.int('count', 1, 2)
  r = wor(env, n, m, sigma, [alpha], k)[0]
  if env.fork(m == 0):
    env.check_eq(r, 0, 'nothing sampled')
    env.reach('zero')
  elif env.fork(m == n):
    env.check_eq(r, k * env.num(alpha) / (2 * sigma**2), 'everything sampled: Gaussian')
    env.reach('one')
  else:
    env.check_eq(env.exp(r * (alpha - 1) / k), moment(env, q, sigma, alpha), 'published bound')
    env.reach('mid')


def fractional(env, alpha):
  n, m, sigma = inputs(env)
  q = m / n
  env.assume(m < n)
  env.assume(0 < m)
  lo, hi = math.floor(alpha), math.ceil(alpha)
  r = wor(env, n, m, sigma, [alpha, max(lo, 2), hi])
  t = Fraction(alpha) - lo
  t = env.frac(t.numerator, t.denominator)
  A = Fraction(alpha)
  A = env.frac(A.numerator, A.denominator)
  x = 0 if lo == 1 else r[1] * (lo - 1)
  env.check_eq(r[0] * (A - 1), (1 - t) * x + t * r[2] * (hi - 1),
               'interpolates the cumulant function between integer orders')
  env.check_eq(env.exp(r[2] * (hi - 1)), moment(env, q, sigma, hi), 'published bound above')


def interpolated(env, alpha, sigma, stub=False):
  """A fractional order of any size lies on the line between its neighbours."""
  if stub and env.symbolic and hasattr(env.mod(R.RDP), '_get_forward_diffs'):
    # the exact bound is then decided by its other term, whatever the differences
    env.mod(R.RDP)._get_forward_diffs = lambda f, k: (env.np.full(k + 2, 1e7),
                                                      env.np.ones(k + 2, dtype=bool))
  if sigma:
    n, m, sigma = env.num(4), env.num(1), env.num(sigma)
  else:
    n, m, sigma = env.num(4), env.num(1), env.real('sigma', lo=8, lo_open=True)
  lo, hi = math.floor(alpha), math.ceil(alpha)
  r = wor(env, n, m, sigma, [alpha, lo, hi])
  t = Fraction(alpha) - lo
  t = env.frac(t.numerator, t.denominator)
  A = env.frac(Fraction(alpha).numerator, Fraction(alpha).denominator)
  env.check_eq(r[0] * (A - 1), (1 - t) * r[1] * (lo - 1) + t * r[2] * (hi - 1),
               'interpolates the cumulant function between integer orders')


def large(env, alpha):
  """Orders above the threshold use the looser term of the minimum."""
  if env.symbolic:
    env.e.OBL_MS = 1000
  n, m, sigma = env.num(4), env.num(1), env.real('sigma', lo=8, lo_open=True)
  r = wor(env, n, m, sigma, [alpha])[0]
  q = m / n
  if env.symbolic:
    env.check_eq(env.exp(r * (alpha - 1)), moment(env, q, sigma, alpha, True), 'bound above order 256')
  else:
    lt = [0.0]
    for j in range(2, alpha + 1):
      g = math.lgamma(alpha + 1) - math.lgamma(j + 1) - math.lgamma(alpha - j + 1)
      c = j * (j - 1) / (2 * sigma**2)
      b = math.log(2) + c
      if j == 2:
        b = min(b, math.log(4) + math.log(math.expm1(c)))
      lt.append(g + j * math.log(q) + b)
    env.check_eq(r * (alpha - 1), env.np.logaddexp.reduce(lt), 'bound above order 256')


def edges(env, alpha):
  kind = env.choice('kind', ['m0', 'mn', 's0', 'sinf', 'ainf', 'm0s0', 'm0ainf', 'mnainf', 'a1'])
  n, m, sigma = inputs(env)
  env.assume(m < n)
  env.assume(0 < m)
  A = Fraction(alpha)
  if kind == 'm0':
    env.check_eq(wor(env, n, 0, sigma, [alpha])[0], 0, 'nothing sampled')
  elif kind == 'm0s0':
    env.check_eq(wor(env, n, 0, 0.0, [alpha])[0], 0, 'nothing sampled, no noise')
  elif kind == 'm0ainf':
    env.check_eq(wor(env, n, 0, sigma, [math.inf])[0], 0, 'nothing sampled, infinite order')
  elif kind == 'mn':
    env.check_eq(wor(env, n, n, sigma, [alpha])[0],
                 env.frac(A.numerator, A.denominator) / (2 * sigma**2), 'everything sampled')
  elif kind == 's0':
    env.check_eq(wor(env, n, m, 0.0, [alpha])[0], math.inf, 'no noise')
  elif kind == 'a1':
    r = wor(env, n, m, sigma, [1, alpha])[0]
    env.check_lt(0, r, 'order one: a positive cost')
    env.check_le(r, 1 / (2 * sigma**2), 'order one: not above the unsampled divergence')
  elif kind == 'sinf':
    env.check_eq(wor(env, n, m, math.inf, [alpha])[0], 0, 'unlimited noise')
  elif kind == 'ainf':
    env.check_eq(wor(env, n, m, sigma, [math.inf])[0], math.inf, 'infinite order')
  else:
    env.check_eq(wor(env, n, n, sigma, [math.inf])[0], math.inf, 'infinite order, all sampled')
  env.reach(kind)


def composed(env):
  """Several Gaussians on one sample cost the same as one with the combined noise."""
  ev = env.event()
  n, m, s0 = inputs(env)
  s1 = env.real('s1', lo=0.25, lo_open=True)
  env.assume(m < n)
  env.assume(0 < m)
  kind = env.choice('kind', ['pair', 'self', 'empty', 'zero'])
  if kind == 'pair':
    inner, inv = ev.ComposedDpEvent([ev.GaussianDpEvent(s0), ev.GaussianDpEvent(s1)]), 1 / s0**2 + 1 / s1**2
  elif kind == 'self':
    inner, inv = ev.SelfComposedDpEvent(ev.GaussianDpEvent(s0), env.num(3)), 3 / s0**2
  elif kind == 'zero':
    r = wor(env, n, m, None, [2], 1, ev.ComposedDpEvent([ev.GaussianDpEvent(0.0), ev.GaussianDpEvent(s1)]))
    env.check_eq(r[0], math.inf, 'one Gaussian without noise')
    return
  else:
    r = wor(env, n, m, None, [2, 3], 1, ev.ComposedDpEvent([]))
    env.check_eq(r[0], 0, 'empty composition costs nothing')
    env.check_eq(r[1], 0, 'empty composition costs nothing')
    return
  r = wor(env, n, m, None, [2], 1, inner)[0]
  f = env.exp(inv)
  t = [4 * (f - 1), 2 * f]
  q = m / n
  env.check_eq(env.exp(r), 1 + q**2 * (t[0] if env.fork(t[0] < t[1]) else t[1]), 'combined noise')


def cases(tier):
  q = tier == 'quick'
  out = [Case('int-%d' % a, integer, kw=dict(alpha=a), must_reach=('zero', 'one', 'mid'))
         for a in (2, 3, 4)]
  out += [Case('int-%d-%s' % (a, sg), integer, kw=dict(alpha=a, sigma=sg),
               must_reach=('zero', 'one', 'mid'))
          for a in ((5, 6) if q else (5, 6, 7, 8, 10)) for sg in (1,)]
  out += [Case('frac-%s' % a, fractional, kw=dict(alpha=a))
          for a in ((1.5, 2.25) if q else (1.5, 1.25, 2.25, 2.5, 2.75))]
  out += [Case('edges-%s' % a, edges, kw=dict(alpha=a)) for a in (2, 2.5)]
  out += [Case('composed', composed), Case('log_sub', log_sub), Case('log_add', R.log_add)]
  out.append(Case('large', large, kw=dict(alpha=257)))
  out += [Case('between-%s' % a, interpolated, kw=dict(alpha=a, sigma=8))
          for a in ((5.5, 300.25) if q else (5.5, 8.75, 300.25, 500.5))]
  out += [Case('between-stub-%s' % a, interpolated, kw=dict(alpha=a, sigma=8, stub=True))
          for a in ((40.5, 100.5, 255.25, 256.5) if q else
                    (20.5, 33.25, 64.5, 100.5, 127.75, 200.5, 255.25, 256.5))]
  return out
