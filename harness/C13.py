"""C13: RDP of repeat-and-select."""
import math
from se import core
from se.runner import Case
from harness import rdplib as R

FUNCTIONS = ['RdpAccountant.compose (RepeatAndSelectDpEvent)', '_compute_rdp_repeat_and_select',
             '_gamma_truncated_negative_binomial', '_truncated_negative_binomial_mean',
             '_expm1_over_x', '_logx_over_xm1', 'compute_delta']
BOUNDS = ['curves of 1 to 3 orders, divergences (finite or infinite) and mean symbolic; shapes 0, '
          '0.5, 1, 2, infinity; the halting probability for shapes other than one is abstracted '
          'to any value in (0, 1] and its search checked on its own with tolerances 1/2 to 1/16 (2^-9), also over any decreasing '
          'mean function; '
          'series used near one checked against the logarithm through 6 terms and a remainder']


def gamma_stub(env):
  """Abstracts the halting-probability search; returns the value handed out."""
  box = []
  m = env.mod(R.RDP)
  if env.symbolic:
    def gamma(shape, mean, *a, **k):
      if shape == 1:
        return 1 / mean
      if not box:
        box.append(env.e.newvar('gamma', pos=True, kind='uf'))
        env.assume(box[0] <= 1)
      return box[0]
    m._gamma_truncated_negative_binomial = gamma
  return m


def theorem2(env, orders, rdp, mean, shape, g):
  """Truncated negative binomial (Papernot and Steinke, Theorem 2) and monotonicity."""
  lg = -env.log(g)
  c = math.inf
  for a, r in zip(orders, rdp):
    if R.is_inf(r):
      continue
    if core.is_inf(a):
      v = r
    else:
      a = env.num(a)
      v = (1 - 1 / a) * r + lg / a
    c = v if core.is_inf(c) or env.fork(v < c) else c
  out = []
  for a, r in zip(orders, rdp):
    if not a > 1 or R.is_inf(r) or core.is_inf(c):
      out.append(math.inf)
    else:
      t = 0 if core.is_inf(a) else env.log(mean) / (env.num(a) - 1)
      out.append(r + t + (1 + env.num(shape)) * c)
  res = []
  for a in orders:
    best = math.inf
    for b, r in zip(orders, out):
      if a <= b and not core.is_inf(r):
        best = r if core.is_inf(best) or env.fork(r < best) else best
    res.append(best)
  return res


def theorem6(env, orders, rdp, mean):
  """Poisson (Theorem 6)."""
  m = env.mod(R.RDP)
  out = []
  for a, r in zip(orders, rdp):
    if not a > 1 or R.is_inf(r):
      out.append(math.inf)
      continue
    if core.is_inf(a):
      e, t = 0, 0
    else:
      a = env.num(a)
      e, t = env.log(a / (a - 1)), env.log(mean) / (a - 1)
    d = m.compute_delta(orders, rdp, e)[0]
    out.append(r + mean * d + t)
  return out


def expected(env, orders, rdp, mean, shape, m):
  if shape == math.inf:
    return theorem6(env, orders, rdp, mean)
  g = m._gamma_truncated_negative_binomial(shape, mean)
  return theorem2(env, orders, rdp, mean, shape, g)


def curve(env, orders, shape, infs):
  """The formula over an arbitrary base curve."""
  m = gamma_stub(env)
  if not hasattr(m, '_compute_rdp_repeat_and_select'):
    return
  mean = env.real('mean', lo=1)
  rdp = R.curve_in(env, len(orders), infs)
  got = m._compute_rdp_repeat_and_select(
      env.np.array([a if core.is_inf(a) else env.num(a) for a in orders]), env.np.array(rdp), mean, shape)
  for x, y in zip(got, expected(env, orders, rdp, mean, shape, m)):
    env.check_eq(x, y, 'published bound of the family')
  env.reach('some')


def composed(env, orders, shape, base):
  """Through the accountant, after other events and with a count."""
  m = gamma_stub(env)
  ev = env.event()
  mean = env.real('mean', lo=1)
  s0, s1 = env.pos('s0'), env.pos('s1')
  n = env.int('count', 1, 2)
  hist = env.bool('history')
  if base == 'gauss':
    b = ev.GaussianDpEvent(s0)
  elif base == 'pair':
    b = ev.ComposedDpEvent([ev.GaussianDpEvent(s0), ev.SelfComposedDpEvent(ev.GaussianDpEvent(s1), 2)])
  elif base == 'none':
    b = ev.NonPrivateDpEvent()
  else:
    b = ev.NoOpDpEvent()
  one = R.accountant(env, orders)
  one.compose(b)
  rdp = R.curve(one)
  acc = R.accountant(env, orders)
  if hist:
    acc.compose(ev.GaussianDpEvent(s1))
  before = R.curve(acc)
  acc.compose(ev.RepeatAndSelectDpEvent(b, mean, shape), n)
  for x, y, z in zip(R.curve(acc), before, expected(env, orders, rdp, mean, shape, m)):
    env.check_eq(x, y + n * z, 'added to what was accounted before, times the count')
    if not core.is_inf(x):
      env.check_le(y, x, 'never lowers the accounted divergence')
  acc.compose(ev.GaussianDpEvent(s0))
  for x, y, z, a in zip(R.curve(acc), before, expected(env, orders, rdp, mean, shape, m), orders):
    env.check_eq(x, y + n * z + env.num(a) / (2 * s0**2), 'later events are added on top')


def single(env, orders, shape):
  """mean one: never cheaper than one run."""
  gamma_stub(env)
  ev = env.event()
  s = env.pos('s')
  acc = R.accountant(env, orders)
  acc.compose(ev.RepeatAndSelectDpEvent(ev.GaussianDpEvent(s), env.num(1), shape))
  for a, r in zip(orders, R.curve(acc)):
    if not core.is_inf(r):
      env.check_le(env.num(a) / (2 * s**2), r, 'a single run costs at least the base')


def mean_of(env, shape, lo, hi):
  m = env.mod(R.RDP)
  g = env.real('gamma', lo=lo, hi=hi, lo_open=True)
  x = m._truncated_negative_binomial_mean(g, shape)
  if shape == 1:
    e = 1 / g
  elif shape == 0:
    e = (1 - 1 / g) / env.log(g)
  else:
    e = shape * (1 / g - 1) / (1 - env.exp(env.num(shape) * env.log(g)))
  env.check_eq(x, e, 'mean of the repetition distribution')


def log_ratio(env):
  """log(x)/(x-1) near one, through its power series."""
  m = env.mod(R.RDP)
  if not hasattr(m, '_logx_over_xm1'):
    return
  y = env.real('y', lo=0, hi=0.0625)
  got = m._logx_over_xm1(1 - y)
  low, pw = 0, 1
  for k in range(1, 7):
    low = low + pw / k
    pw = pw * y
  env.check_le(low, got, 'not below the truncated series')
  env.check_le(got, low + pw / (7 * (1 - y)), 'not above the series with its remainder')


def exp_ratio(env):
  """(exp(x)-1)/x near zero, through its power series (x <= 0 is what is used)."""
  m = env.mod(R.RDP)
  if not hasattr(m, '_expm1_over_x'):
    return
  x = env.real('x', lo=-0.0625, hi=0.0625)
  got = m._expm1_over_x(x)
  s, t = 0, 1
  for k in range(1, 6):
    t = t / k
    s = s + t
    t = t * x
  z = abs(t) / 5
  env.check_le(s - z, got, 'not below the series with its remainder')
  env.check_le(got, s + z, 'not above the series with its remainder')


def search(env, shape, lo, hi, tol):
  """The halting probability is on the conservative side and near the optimum."""
  m = env.mod(R.RDP)
  mean = env.real('mean', lo=lo, hi=hi)
  g = m._gamma_truncated_negative_binomial(shape, mean, tol)
  env.check(bool(0 < g), 'positive halting probability')
  env.check(bool(g <= 1), 'halting probability at most one')
  env.check_le(mean, m._truncated_negative_binomial_mean(g, shape), 'mean is not understated')
  up = g * (1 + env.num(tol))
  if env.fork(up < 1):
    env.check_le(m._truncated_negative_binomial_mean(up, shape), mean,
                 'halting probability within the tolerance')
  env.reach('some')


def search_any(env, shape, tol):
  """The same search over any decreasing mean function."""
  m = env.mod(R.RDP)
  if env.symbolic:
    f = env.func('F', kind='dec', pos=True)
    m._truncated_negative_binomial_mean = lambda gamma, shape: f(gamma)
    top = 0
  mean = env.real('mean', lo=1, hi=100)
  if env.symbolic:
    g0 = 2 * (shape + 1) / mean
    g0 = g0 if bool(g0 < 1) else env.num(1)
    env.assume(f(g0) <= mean)
    env.assume(f(g0 / 4) >= mean)
  g = m._gamma_truncated_negative_binomial(shape, mean, tol)
  F = lambda x: m._truncated_negative_binomial_mean(x, shape)
  env.check(bool(0 < g), 'positive halting probability')
  env.check_le(mean, F(g), 'mean is not understated')
  up = g * (1 + env.num(tol))
  if env.fork(up < 1):
    env.check_le(F(up), mean, 'halting probability within the tolerance')
  env.reach('some')


def invalid(env):
  ev = env.event()
  kind = env.choice('kind', ['shape', 'mean', 'nan-mean', 'nan-shape'])
  s = env.pos('s')
  b = env.real('b')
  acc = R.accountant(env, [2, 3])
  acc.compose(ev.GaussianDpEvent(s))
  before = R.curve(acc)
  if kind == 'shape':
    env.assume(b < 0)
    e = ev.RepeatAndSelectDpEvent(ev.GaussianDpEvent(s), env.num(3), b)
  elif kind == 'mean':
    env.assume(b < 1)
    e = ev.RepeatAndSelectDpEvent(ev.GaussianDpEvent(s), b, env.choice('sh', [0, 1, math.inf]))
  elif kind == 'nan-mean':
    e = ev.RepeatAndSelectDpEvent(ev.GaussianDpEvent(s), math.nan, 1)
  else:
    e = ev.RepeatAndSelectDpEvent(ev.GaussianDpEvent(s), env.num(2), math.nan)
  env.check(env.raises(lambda: acc.compose(e), ValueError) is not None, 'invalid %s refused' % kind)
  for x, y in zip(R.curve(acc), before):
    env.check_eq(x, y, 'divergence accounted before the refusal is kept')


def cases(tier):
  q = tier == 'quick'
  out = []
  sets = [[2], [1.5, 4], [1, 2, 8], [2, math.inf], [4, 1.5]]
  if not q:
    sets += [[1, 1.5, 3, 16], [1.25, 2, math.inf], [8, 1, 2]]
  for o in sets:
    nm = '-'.join(str(x) for x in o)
    for sh in (0, 0.5, 1, 2, math.inf):
      if sh == math.inf and math.inf in o and 1 in o:
        continue
      out.append(Case('curve-%s-%s' % (sh, nm), curve, kw=dict(orders=o, shape=sh, infs=True),
                      must_reach=('some',)))
  for sh in (0, 1, 2, math.inf):
    for b in ('gauss', 'pair', 'none', 'noop'):
      if b == 'pair' and sh == math.inf:
        continue
      out.append(Case('acc-%s-%s' % (sh, b), composed, kw=dict(orders=[1, 2] if sh == math.inf else [1, 2, 4], shape=sh, base=b)))
  for sh in (0, 0.5, 1, 2, math.inf):
    out.append(Case('single-%s' % sh, single, kw=dict(orders=[2, 4], shape=sh)))
  for sh in (0, 0.5, 1, 2, 4):
    out.append(Case('mean-%s' % sh, mean_of, kw=dict(shape=sh, lo=0, hi=0.75)))
  for sh, lo, hi in [(0, 1, 2), (0.5, 1, 2.5), (2, 1, 5), (1, 1, 100)]:
    for t in (0.5,) if q else (0.5, 0.125):
      out.append(Case('search-%s-%s-%s' % (sh, lo, t), search,
                      kw=dict(shape=sh, lo=lo, hi=hi, tol=t), must_reach=('some',)))
  for sh in (0, 2):
    for t in (0.25, 0.0625) if q else (0.25, 0.0625, 2**-6, 2**-9):
      out.append(Case('any-%s-%s' % (sh, t), search_any, kw=dict(shape=sh, tol=t), must_reach=('some',)))
  out += [Case('log_ratio', log_ratio), Case('exp_ratio', exp_ratio), Case('invalid', invalid)]
  return out
