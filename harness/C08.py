"""C08: RDP to delta conversion."""
import math
from se import core
from se.runner import Case
from harness import rdplib as R

FUNCTIONS = ['rdp_privacy_accountant.compute_delta', 'rdp_privacy_accountant.compute_epsilon',
             'RdpAccountant.get_delta', 'RdpAccountant.get_delta_and_optimal_order']
BOUNDS = ['curves of 1 to 3 orders (quick) or 4 (thorough); listed rational orders, one symbolic '
          'order, and the infinite order; divergences and epsilon symbolic; '
          'orders of at most 1.01 only give the KL bound']


def lg(env, x):
  """log, with log 0 = -inf."""
  if not core.sym(x):
    return math.log(x) if x > 0 else -math.inf
  return env.log(x)


def candidates(env, orders, rs, eps):
  """Logarithms of the bounds on delta the orders justify."""
  out = []
  for a, r in zip(orders, rs):
    if R.is_inf(r):
      kl = 0
    elif env.fork(r == 0):
      kl = -math.inf
    else:
      kl = env.log(1 - env.exp(-r)) / 2          # sqrt(1 - exp(-KL))
    out.append((a, kl, R.logdelta_of(env, a, r, eps)))
  return out


def le(env, a, b):
  if core.is_inf(a) or core.is_inf(b):
    return bool(a <= b)
  if not env.symbolic:
    return a <= b + 1e-9
  return env.fork(a <= b)


def convert(env, orders, how, infs):
  orders = [env.real('a', lo=1, lo_open=True) if a == 'sym' else a for a in orders]
  eps = env.real('eps', lo=0)
  m = env.mod(R.RDP)
  order = None
  if how == 'function':
    rs = R.curve_in(env, len(orders), infs)
    got, order = m.compute_delta(orders, rs, eps)
  else:
    acc = R.accountant(env, orders)
    acc.compose(env.event().GaussianDpEvent(env.pos('sigma')))
    rs = R.curve(acc)
    if how == 'accountant':
      got = acc.get_delta(eps)
    else:
      got, order = acc.get_delta_and_optimal_order(eps)
  env.check_le(0, got, 'delta is not negative')
  env.check_le(got, 1, 'delta is at most one')
  cand = candidates(env, orders, rs, eps)
  l = lg(env, got)
  ok = le(env, 0, l) or any(le(env, kl, l) or le(env, cv, l) for _, kl, cv in cand)
  env.check(ok, 'delta is justified by one of the orders')
  for a, kl, cv in cand:
    env.check_le(l, kl, 'delta is no larger than the KL bound of any order')
    if not core.is_inf(cv) and env.fork(a > env.frac(101, 100)):
      if le(env, cv, 0):
        env.check_le(l, cv, 'delta is no larger than any order gives')
    if core.is_inf(cv) and cv < 0:
      env.check_eq(got, 0, 'pure guarantee met: delta zero')
  if order is not None:
    env.check(any(core.sym(a) or a == order for a in orders), 'reported order is listed')
  env.reach('some')


def monotone(env, orders):
  m = env.mod(R.RDP)
  rs = R.curve_in(env, len(orders), True)
  e1 = env.real('e1', lo=0)
  e2 = env.real('e2', lo=0)
  env.assume(e1 <= e2)
  d1 = m.compute_delta(orders, rs, e1)[0]
  d2 = m.compute_delta(orders, rs, e2)[0]
  env.check_le(lg(env, d2), lg(env, d1), 'delta never increases with epsilon')


def roundtrip(env, orders):
  """delta at the epsilon reported for delta is at most delta."""
  m = env.mod(R.RDP)
  rs = R.curve_in(env, len(orders), True)
  delta = env.real('delta', lo=0, lo_open=True, hi=1)
  eps = m.compute_epsilon(orders, rs, delta)[0]
  if core.is_inf(eps):
    env.reach('inf')
    return
  env.reach('fin')
  for r in rs:         # case split that helps the solver
    if not R.is_inf(r) and env.fork(r > 0):
      le(env, env.log(1 - env.exp(-r)) / 2, env.log(delta))
  env.check_le(lg(env, m.compute_delta(orders, rs, eps)[0]), env.log(delta),
               'delta at the reported epsilon')


def refuse(env):
  m = env.mod(R.RDP)
  eps = env.real('eps')
  r = env.real('r', lo=0)
  a = env.real('a')
  e = env.raises(lambda: m.compute_delta([a], [r], eps), ValueError)
  if env.fork(eps < 0):
    env.check(e is not None, 'negative epsilon refused')
  elif env.fork(a < 1):
    env.check(e is not None, 'order below one refused')
  else:
    env.check(e is None, 'valid input accepted')
  e = env.raises(lambda: m.compute_delta([2, 3], [r], 1), ValueError)
  env.check(e is not None, 'length mismatch refused')


def cases(tier):
  h = [[2], [1.5], [math.inf], [1.005], ['sym'], [1.5, 4], [2, math.inf], [1.25, 1.005],
       ['sym', 8]]
  mono = [[2], [1.5, 4], [2, math.inf], [1.005]]
  if tier != 'quick':
    h += [[1.1, 1.9, 6, 1024], [1.005, 2, 3, math.inf], ['sym', 1.5, 3], [63, 64, 128],
          [1.5, 3, 32], [1.1, 2, math.inf]]
    mono += [[1.5, 3, 32], [1.1, 2, math.inf]]
  out = []
  for o in h:
    nm = '-'.join(str(x) for x in o)
    out.append(Case('fn-' + nm, convert, kw=dict(orders=o, how='function', infs=len(o) < 4),
                    must_reach=('some',)))
  for o in mono:
    nm = '-'.join(str(x) for x in o)
    out.append(Case('mono-' + nm, monotone, kw=dict(orders=o)))
    out.append(Case('round-' + nm, roundtrip, kw=dict(orders=o), must_reach=('fin', 'inf')))
  out.append(Case('acc', convert, kw=dict(orders=[1.5, 4], how='accountant', infs=True),
                  must_reach=('some',)))
  out.append(Case('acc-order', convert, kw=dict(orders=[1.5, 4], how='order', infs=True),
                  must_reach=('some',)))
  out.append(Case('refuse', refuse))
  return out
