"""C09: RDP of basic mechanisms."""
import math
from se import core
from se.runner import Case
from harness import rdplib as R

FUNCTIONS = ['RdpAccountant.compose / rdp', '_laplace_rdp', '_compute_randomized_response_rdp',
             '_compute_rdp_poisson_subsampled_gaussian (q=1)']
BOUNDS = ['orders: the listed rational ones, infinity, and (Gaussian) one symbolic order; '
          'noise multipliers and noise parameters symbolic; 1 to 4 buckets (quick) or 8; '
          'counts 1 to 3; Laplace orders in (1, 1.1), where the code sums a 99-term Taylor '
          'series, are checked through that series with the exponential as a symbolic variable']


def run(env, ev, orders, count, relation='ADD_OR_REMOVE_ONE'):
  acc = R.accountant(env, orders, relation)
  if count == 1:
    acc.compose(ev)
  else:
    acc.compose(ev, count)
  return R.curve(acc)


def gaussian(env, orders):
  orders = [env.real('a', lo=1) if a == 'sym' else a for a in orders]
  n = env.int('count', 1, 3)
  s = env.choice('sigma_kind', ['pos', 'zero', 'inf'])
  sigma = {'zero': 0.0, 'inf': math.inf}.get(s)
  if sigma is None:
    sigma = env.pos('sigma')
  got = run(env, env.event().GaussianDpEvent(sigma), orders, n)
  env.check(len(got) == len(orders), 'one divergence per order')
  for a, r in zip(orders, got):
    if s == 'zero':
      env.check_eq(r, math.inf, 'zero noise: infinite divergence')
    elif s == 'inf':
      env.check_eq(r, 0, 'unlimited noise: no divergence')
    elif core.is_inf(a):
      env.check_eq(r, math.inf, 'Gaussian at infinite order')
    else:
      env.check_eq(r, n * a / (2 * sigma**2), 'Gaussian divergence')
  env.reach(s)


def laplace(env, orders):
  n = env.int('count', 1, 2)
  if env.bool('zero'):
    got = run(env, env.event().LaplaceDpEvent(0.0), orders, n)
    for r in got:
      env.check_eq(r, math.inf, 'zero noise: infinite divergence')
    return
  b = env.pos('b')
  got = run(env, env.event().LaplaceDpEvent(b), orders, n)
  e = 1 / b
  for a, r in zip(orders, got):
    if a == 1:
      env.check_eq(r, n * (e + env.exp(-e) - 1), 'KL divergence of the Laplace mechanism')
    else:
      # E_Q[(P/Q)^a] of two Laplace distributions at distance one
      a = env.num(a)
      mom = (a / (2 * a - 1)) * env.exp((a - 1) * e) + (a - 1) / (2 * a - 1) * env.exp(-a * e)
      env.check_eq((a - 1) * r, n * env.log(mom), 'Renyi divergence of the Laplace mechanism')
  env.reach('pos')


def laplace_series(env, order):
  """Orders in (1, 1.1): partial sums bound the logarithm from below and above."""
  m = env.mod(R.RDP)
  real = m.math.expm1
  if env.symbolic:
    seen = {}

    def expm1(x):       # 1 - e^x for negative x as a variable of its own
      k = repr(x)
      if k not in seen:
        w = env.e.newvar('w%d' % len(seen), pos=True, kind='uf')
        env.assume(w < 1)
        env.assume(w == -real(x))
        seen[k] = w
      return -seen[k]
    m.math = core.Proxy(m.math, expm1=expm1)
  b = env.pos('b')
  got = run(env, env.event().LaplaceDpEvent(b), [order], 1)[0]
  e = 1 / b
  a = env.num(order)
  v = (1 - a) * m.math.expm1(e * (1 - 2 * a)) / (2 * a - 1)   # log(1-v)/(a-1) + e
  n = 7
  low, pw = 0, 1
  for k in range(1, n + 1):
    pw = pw * v
    low = low - pw / k
  top = e + low / (a - 1)                    # truncated series: too large
  bot = e + (low - pw * v / (1 - v)) / (a - 1)
  env.check_le(got, top, 'not above the truncated series')
  env.check_le(bot, got, 'not below the series with its remainder')


def response(env, k, orders, relation):
  p = env.prob('p')
  n = env.int('count', 1, 2)
  k0, k = k, env.num(k)
  ev = env.event().RandomizedResponseDpEvent(p, k)
  got = run(env, ev, orders, n, relation)
  if k0 == 1 or env.fork(p == 1):
    for r in got:
      env.check_eq(r, 0, 'constant or uniform output: no divergence')
    env.reach('none')
    return
  if env.fork(p == 0):
    for r in got:
      env.check_eq(r, math.inf, 'no noise: infinite divergence')
    env.reach('all')
    return
  hi, lo, un = 1 - p + p / k, p / k, env.frac(1, k0)
  if relation == 'REPLACE_ONE':
    pairs = [([hi, lo] + [lo] * (k0 - 2), [lo, hi] + [lo] * (k0 - 2))]
  else:
    pairs = [([hi] + [lo] * (k0 - 1), [un] * k0), ([un] * k0, [hi] + [lo] * (k0 - 1))]
  for a, r in zip(orders, got):
    best = None
    for x, y in pairs:
      if core.is_inf(a):
        v = None
        for i in range(k0):
          l = env.log(x[i] / y[i])
          v = l if v is None or env.fork(l > v) else v
      else:
        v = 0
        for i in range(k0):
          v = v + x[i] * env.exp((env.num(a) - 1) * env.log(x[i] / y[i]))
        v = env.log(v) / (env.num(a) - 1)
      best = v if best is None or env.fork(v > best) else best
    env.check_eq(r, n * best, 'Renyi divergence of randomized response')
  env.reach('some')


def invalid(env):
  """Invalid parameters never yield a finite divergence silently."""
  ev = env.event()
  kind = env.choice('kind', ['gauss', 'laplace', 'rr', 'buckets', 'order'])
  acc = R.accountant(env, [2.0], 'REPLACE_ONE')
  if kind == 'gauss':
    s = env.real('s', hi=0, hi_open=True)
    f = lambda: acc.compose(ev.GaussianDpEvent(s))
  elif kind == 'laplace':
    s = env.real('s', hi=0, hi_open=True)
    f = lambda: acc.compose(ev.LaplaceDpEvent(s))
  elif kind == 'rr':
    p = env.real('p')
    env.assume((p < 0) | (p > 1) if env.symbolic else (p < 0 or p > 1))
    f = lambda: acc.compose(ev.RandomizedResponseDpEvent(p, 3))
  elif kind == 'buckets':
    f = lambda: acc.compose(ev.RandomizedResponseDpEvent(env.prob('p'), 0))
  else:
    acc = R.accountant(env, [env.real('a', lo=0, hi=1, hi_open=True)], 'REPLACE_ONE')
    f = lambda: acc.compose(ev.LaplaceDpEvent(env.pos('s')))
  env.check(env.raises(f, ValueError) is not None, 'invalid %s refused' % kind)


def noop(env):
  acc = R.accountant(env, [1.5, 2])
  acc.compose(env.event().LaplaceDpEvent(env.pos('b'))) if env.bool('hist') else None
  acc2 = R.curve(acc)
  acc.compose(env.event().NoOpDpEvent(), env.int('n', 1, 3))
  for x, y in zip(acc2, R.curve(acc)):
    env.check_eq(x, y, 'no-op changes nothing')
  acc.compose(env.event().NonPrivateDpEvent())
  for x in R.curve(acc):
    env.check_eq(x, math.inf, 'non-private event: infinite divergence')


def cases(tier):
  q = tier == 'quick'
  out = [Case('gaussian', gaussian, kw=dict(orders=[1, 1.5, 2, 64, math.inf]),
              must_reach=('pos', 'zero', 'inf')),
         Case('gaussian-sym', gaussian, kw=dict(orders=['sym', 3]), must_reach=('pos',)),
         Case('laplace', laplace, kw=dict(orders=[1, 1.5, 2, 3]), must_reach=('pos',)),
         Case('laplace2', laplace, kw=dict(orders=[1.25, 6]), must_reach=('pos',)),
         Case('noop', noop), Case('invalid', invalid)]
  out += [Case('laplace-series-%s' % a, laplace_series, kw=dict(order=a))
          for a in ([1.0625] if q else [1.03125, 1.0625, 1.015625])]
  for k in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 8):
    for rel in ('REPLACE_ONE', 'REPLACE_SPECIAL'):
      for o in ([1.5, 2, math.inf], [3]) if q else ([1.5, 2, math.inf], [3], [4, 2.5]):
        out.append(Case('rr-%d-%s-%s' % (k, rel, o[0]), response,
                        kw=dict(k=k, orders=o, relation=rel),
                        must_reach=('none',) if k == 1 else ('none', 'all', 'some')))
  return out
