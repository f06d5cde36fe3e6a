"""C07: RDP to epsilon conversion."""
import math
from se import core
from se.runner import Case
from harness import rdplib as R

FUNCTIONS = ['rdp_privacy_accountant.compute_epsilon', 'RdpAccountant.get_epsilon',
             'RdpAccountant.get_epsilon_and_optimal_order']
BOUNDS = ['curves of 1 to 3 orders (quick) or 4 (thorough); listed rational orders, one symbolic '
          'order, and the infinite order; divergences and delta symbolic; '
          'orders of at most 1.01 may be ignored by the code (they may only raise the result)']


def oracle(env, orders, rs, delta):
  """(soundness minimum over all orders, tightness minimum over orders > 1.01)."""
  out = []
  for a, r in zip(orders, rs):
    kl0 = (not R.is_inf(r)) and env.fork(delta * delta + env.exp(-r) > 1)
    if R.is_inf(r) and env.fork(delta > 1):
      kl0 = True
    e = 0 if kl0 else R.eps_of(env, a, r, delta)
    out.append((a, e, kl0))
  return out


def convert(env, orders, how, infs):
  spec = orders
  orders = [env.real('a', lo=1, lo_open=True) if a == 'sym' else a for a in orders]
  rs = R.curve_in(env, len(orders), infs) if how == 'function' else None
  delta = env.real('delta', lo=0, hi=1)
  m = env.mod(R.RDP)
  if how == 'function':
    got, order = m.compute_epsilon(orders, rs, delta)
  else:
    acc = R.accountant(env, orders)
    acc.compose(env.event().GaussianDpEvent(env.pos('sigma')))
    rs = R.curve(acc)
    if how == 'accountant':
      got, order = acc.get_epsilon(delta), None
    else:
      got, order = acc.get_epsilon_and_optimal_order(delta)
  env.check_le(0, got, 'epsilon is not negative')
  if env.fork(delta == 0):
    if all(not R.is_inf(r) and env.fork(r == 0) for r in rs):
      env.reach('zero-zero')
      env.check_eq(got, 0, 'delta zero and no divergence: epsilon zero')
    else:
      env.reach('zero')
      env.check_eq(got, math.inf, 'delta zero with divergence: epsilon infinite')
    return
  cand = oracle(env, orders, rs, delta)
  # soundness: at least one order justifies the value
  ok = False
  for a, e, _ in cand:
    if env.fork(got >= e):
      ok = True
      break
  env.check(ok, 'epsilon is justified by one of the orders')
  for a, e, kl0 in cand:
    if kl0 or env.fork(a > env.frac(101, 100)):
      if env.fork(got > 0):
        env.check_le(got, e, 'epsilon is no larger than any order gives')
  if all(R.is_inf(r) for r in rs) and env.fork(delta < 1):
    env.reach('allinf')
    env.check_eq(got, math.inf, 'infinite divergences give infinite epsilon')
  if order is not None:
    env.check(any(core.sym(a) or a == order for a in orders), 'reported order is listed')
    for (a, e, _) in cand:
      if 'sym' not in spec and a == order and a > 1.01 and env.fork(got > 0):
        env.check_eq(got, e, 'reported order gives the reported epsilon')
  env.reach('some')


def refuse(env):
  m = env.mod(R.RDP)
  d = env.real('d')
  r = env.real('r', lo=0)
  a = env.real('a')
  e = env.raises(lambda: m.compute_epsilon([a], [r], d), ValueError)
  if env.fork(d < 0):
    env.check(e is not None, 'negative delta refused')
  elif env.fork(d > 0):
    if env.fork(a < 1):
      env.check(e is not None, 'order below one refused')
    else:
      env.check(e is None, 'valid input accepted')
  e = env.raises(lambda: m.compute_epsilon([2, 3], [r], env.frac(1, 2)), ValueError)
  env.check(e is not None, 'length mismatch refused')


def cases(tier):
  h = [[2], [1.5], [math.inf], [1.005], ['sym'], [1.5, 4], [2, math.inf], [1.25, 1.005],
       [1.5, 3, 32], ['sym', 8], [1.1, 2, math.inf]]
  if tier != 'quick':
    h += [[1.1, 1.9, 6, 1024], [1.005, 2, 3, math.inf], ['sym', 1.5, 3], [63, 64, 128]]
  out = []
  for o in h:
    nm = '-'.join(str(x) for x in o)
    out.append(Case('fn-' + nm, convert, kw=dict(orders=o, how='function', infs=len(o) < 4),
                    must_reach=('some', 'zero')))
  out.append(Case('acc', convert, kw=dict(orders=[1.5, 4], how='accountant', infs=True),
                  must_reach=('some',)))
  out.append(Case('acc-order', convert, kw=dict(orders=[1.5, 4], how='order', infs=True),
                  must_reach=('some',)))
  out.append(Case('refuse', refuse))
  return out
