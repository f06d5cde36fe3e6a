"""Shared pieces of the Renyi-accountant harnesses."""
import math

from se import core

RDP = 'dp_accounting.rdp.rdp_privacy_accountant'
PACC = 'dp_accounting.privacy_accountant'
INF = math.inf


def rel(env, name):
  return getattr(env.mod(PACC).NeighboringRelation, name)


def accountant(env, orders, relation='ADD_OR_REMOVE_ONE'):
  return env.mod(RDP).RdpAccountant(list(orders), rel(env, relation))


def curve(acc):
  return [x for x in acc.rdp]


def is_inf(x):
  return core.is_inf(x) and x > 0


def eps_of(env, a, r, delta):
  """Published conversion to epsilon (Canonne-Kamath-Steinke, Prop. 12)."""
  if core.is_inf(a):
    return r
  if is_inf(r):
    return INF
  return r + env.log(1 - 1 / env.num(a)) - env.log(delta * a) / (a - 1)


def logdelta_of(env, a, r, eps):
  """log of the published conversion to delta (same proposition)."""
  if is_inf(r):
    return INF
  if core.is_inf(a):
    return -INF if env.fork(r <= eps) else INF
  return (a - 1) * (r - eps + env.log(1 - 1 / env.num(a))) - env.log(env.num(a))


def curve_in(env, n, infs=True):
  out = []
  for i in range(n):
    r = env.real('r%d' % i, lo=0)
    if infs and env.bool('inf%d' % i):
      r = INF
    out.append(r)
  return out


def summarize(env):
  """Replaces the log-space addition by its contract (checked in C10/log_add)."""
  if not env.symbolic:
    return
  m = env.mod(RDP)
  if hasattr(m, '_log_add'):
    def add(x, y):
      if core.is_inf(x) and x < 0:
        return y
      if core.is_inf(y) and y < 0:
        return x
      if core.is_inf(x) or core.is_inf(y):
        return INF
      return env.e.log(env.exp(x) + env.exp(y))
    m._log_add = add


def log_add(env):
  """Contract of the log-space addition."""
  m = env.mod(RDP)
  xs = []
  for n in ('x', 'y'):
    xs.append(-INF if env.bool(n + '_inf') else env.real(n))
  r = m._log_add(*xs)
  if all(core.is_inf(x) for x in xs):
    env.check_eq(r, -INF, 'zero plus zero')
  elif core.is_inf(xs[0]) or core.is_inf(xs[1]):
    env.check_eq(r, xs[1] if core.is_inf(xs[0]) else xs[0], 'adding zero')
  elif env.symbolic:
    env.check_eq(env.exp(r), env.exp(xs[0]) + env.exp(xs[1]), 'log-space sum')
  else:
    env.check_eq(r, env.np.logaddexp(xs[0], xs[1]), 'log-space sum')
