"""C06: calibration returns a parameter that meets the privacy target."""
import math
from se.runner import Case
from se import optimize_shim

CAL = 'dp_accounting.mechanism_calibration'
FUNCTIONS = ['mechanism_calibration.calibrate_dp_mechanism',
             'mechanism_calibration._search_for_explicit_bracket_interval',
             'mechanism_calibration._bisect']
BOUNDS = ['epsilon is an arbitrary weakly monotone (increasing or decreasing) function of the '
          'parameter; interval ends, tolerance and target symbolic; the bisection fallback runs '
          'at most 2 (quick) / 3 (thorough) halvings; discrete parameters on integer intervals '
          'of up to 4 (6) points; bracket search up to 3 (4) doublings with an arbitrary '
          'function and all 30 with a step function']
ASSUMPTIONS = ['scipy.optimize.brentq is replaced by its contract: ValueError without a sign '
               'change; otherwise a point of the interval within xtol of a sign change, or '
               'non-convergence (RuntimeError unless disp=False).']


class Root:
  def __init__(self, root, converged):
    self.root = root
    self.converged = converged
    self.flag = 'converged' if converged else 'not'
    self.iterations = self.function_calls = 1


def install(env, disp=None):
  """Contract of brentq (see ASSUMPTIONS)."""
  log = {'calls': 0, 'ok': True, 'points': []}

  def brentq(f, a, b, args=(), xtol=2e-12, rtol=8.9e-16, maxiter=100, full_output=False,
             disp=True):
    log['calls'] += 1
    n = '' if log['calls'] == 1 else str(log['calls'])
    fa, fb = f(a), f(b)
    if (env.fork(fa > 0) and env.fork(fb > 0)) or (env.fork(fa < 0) and env.fork(fb < 0)):
      raise ValueError('f(a) and f(b) must have different signs')
    if env.fork(fa == 0):
      return (a, Root(a, True)) if full_output else a
    if env.fork(fb == 0):
      return (b, Root(b, True)) if full_output else b
    lo, hi = (a, b) if env.fork(a < b) else (b, a)
    r = env.real('root' + n, lo, hi)
    conv = env.choice('converged' + n, [True, False])
    if not conv:
      log['ok'] = False
      if disp:
        raise RuntimeError('Failed to converge')
    else:
      fr = f(r)
      s = env.real('near' + n, lo, hi)
      env.assume(s - r <= xtol)
      env.assume(r - s <= xtol)
      if env.fork(fr > 0):
        env.assume(f(s) <= 0)
      elif env.fork(fr < 0):
        env.assume(f(s) >= 0)
    if not env.symbolic:
      r = float(r)
    return (r, Root(r, conv)) if full_output else r

  if env.symbolic:
    optimize_shim.HOOK['brentq'] = brentq
  else:
    import scipy.optimize as so
    so.brentq = brentq      # replays run in a process of their own
  return log


def setup(env, eps, ledger=None):
  ev = env.event()
  probes = []

  class Acct:
    def __init__(self):
      self.ledger = ev.NoOpDpEvent() if ledger is None else ledger
      self.v = None

    def compose(self, event, count=1):
      if count != 1 or self.v is not None:
        raise AssertionError('composed more than the event once')
      self.v = event.noise_multiplier
      return self

    def get_epsilon(self, delta):
      if self.v is None:
        raise AssertionError('nothing composed')
      env.check_eq(delta, env.delta, 'epsilon taken at the target delta')
      return eps(self.v)

  def make(v):
    probes.append(v)
    return ev.GaussianDpEvent(v)
  return Acct, make, probes


def epsfunc(env, kind):
  return env.func('G', kind, lo=(0, False))


def contested(env, eps, v, kind, target, tol, lo, hi):
  """No point further than tol towards less noise meets the target (strictly)."""
  z = env.real('other', lo, hi)
  d = z - v if kind == 'winc' else v - z
  if env.fork(d > tol):
    env.check_le(target, eps(z), 'nothing further than tol meets the target')


def explicit(env, kind, swap, halvings):
  a = env.real('a')
  b = env.real('b')
  tol = env.real('tol', lo=0, lo_open=True)
  env.assume(b - a > 0)
  env.assume(b - a <= tol * 2**halvings)
  target = env.real('target', lo=0)
  env.delta = env.real('delta', 0, 1)
  eps = epsfunc(env, kind)
  log = install(env)
  cal = env.mod(CAL)
  Acct, make, probes = setup(env, eps)
  iv = cal.ExplicitBracketInterval(b, a) if swap else cal.ExplicitBracketInterval(a, b)
  v, ex = env.call(lambda: cal.calibrate_dp_mechanism(
      Acct, make, target, env.delta, bracket_interval=iv, tol=tol))
  ea, eb = eps(a), eps(b)
  same = (env.fork(ea < target) and env.fork(eb < target)) or (
      env.fork(ea > target) and env.fork(eb > target))
  if ex is not None:
    env.reach('error')
    if isinstance(ex, RuntimeError):
      env.check(not log['ok'], 'no error when a value can be bracketed')
    else:
      env.check(isinstance(ex, ValueError), 'kind of error')
      env.check(same, 'no error when a value can be bracketed')
    return
  env.reach('value')
  env.check(not same, 'error when no value can be bracketed')
  env.check_le(a, v, 'value inside the interval')
  env.check_le(v, b, 'value inside the interval')
  env.check_le(eps(v), target, 'target met')
  contested(env, eps, v, kind, target, tol, a, b)
  for p in probes:
    env.check_le(a, p, 'only parameters of the interval are tried')
    env.check_le(p, b, 'only parameters of the interval are tried')


def discrete(env, kind, n, tol, swap=False):
  a = env.choice('a', [-1, 0, 2])
  b = a + n
  target = env.real('target', lo=0)
  env.delta = env.real('delta', 0, 1)
  vals = [env.real('e%d' % i, lo=0) for i in range(n + 1)]
  for x, y in zip(vals, vals[1:]):
    env.assume(y - x >= 0 if kind == 'winc' else x - y >= 0)
  bad = []

  def eps(v):
    k = int(v)
    if k != v or k < a or k > b:
      bad.append(v)
      return vals[0 if k < a else n]
    return vals[k - a]
  log = install(env)
  cal = env.mod(CAL)
  Acct, make, probes = setup(env, eps)
  iv = cal.ExplicitBracketInterval(b, a) if swap else cal.ExplicitBracketInterval(a, b)
  v, ex = env.call(lambda: cal.calibrate_dp_mechanism(
      Acct, make, target, env.delta, bracket_interval=iv, discrete=True, tol=tol))
  same = (env.fork(vals[0] < target) and env.fork(vals[-1] < target)) or (
      env.fork(vals[0] > target) and env.fork(vals[-1] > target))
  if ex is not None:
    if isinstance(ex, RuntimeError):
      env.check(not log['ok'], 'no error when a value can be bracketed')
    else:
      env.check(isinstance(ex, ValueError), 'kind of error')
      env.check(same, 'no error when a value can be bracketed')
    return
  env.reach('value')
  env.check(not same, 'error when no value can be bracketed')
  env.check(not bad, 'only integers of the interval are tried')
  k = int(v)
  env.check(v == k, 'an integer is returned')
  env.check(not isinstance(v, float), 'an integer is returned')
  env.check(a <= k <= b, 'value inside the interval')
  if not a <= k <= b:
    return
  env.check_le(vals[k - a], target, 'target met')
  t = max(1, tol or 1)
  z = k + (t + 1 if kind == 'winc' else -t - 1)
  if a <= z <= b:
    env.check_le(target, vals[z - a], 'nothing further than tol meets the target')


def guess(env, kind, n, default):
  """Lower endpoint and guess, arbitrary function, bracket found in <= n doublings."""
  if default:
    lo, g = 0, 1
  else:
    lo = env.real('lo')
    g = env.real('guess')
    env.assume(g - lo > 0)
  target = env.real('target', lo=0)
  env.delta = env.real('delta', 0, 1)
  fn = epsfunc(env, kind)
  infinite = env.choice('infinite at lower end', [False, True]) if kind == 'wdec' else False

  def eps(v):
    if infinite and env.fork(v <= lo):
      return math.inf
    return fn(v)
  gap = g - lo
  last = lo + gap * (2**(n + 1) - 1)
  tol = gap if not default else 0.5
  log = install(env)
  cal = env.mod(CAL)
  Acct, make, probes = setup(env, eps)
  if not infinite:
    env.assume(fn(lo) - target > 0 if kind == 'wdec' else target - fn(lo) > 0)
  env.assume(fn(last) - target < 0 if kind == 'wdec' else target - fn(last) < 0)
  kw = {} if default else dict(bracket_interval=cal.LowerEndpointAndGuess(lo, g))
  v, ex = env.call(lambda: cal.calibrate_dp_mechanism(
      Acct, make, target, env.delta, tol=tol, **kw))
  if ex is not None:
    env.check(not log['ok'] and isinstance(ex, RuntimeError), 'no error when a value exists')
    return
  env.reach('value')
  env.check_le(lo, v, 'value not below the lower endpoint')
  env.check_le(v, last, 'value inside the bracket')
  env.check_le(eps(v), target, 'target met')
  contested(env, eps, v, kind, target, tol, lo, last)
  for p in probes:
    env.check_le(lo, p, 'only parameters of the interval are tried')


def far(env, kind):
  """Bracket search with a step function at an arbitrary distance."""
  lo = env.choice('lo', [0, -3])
  gap = env.choice('gap', [1, 4])
  target = env.real('target', lo=0, lo_open=True)
  env.delta = env.real('delta', 0, 1)
  t = env.real('t', lo=lo, lo_open=True, hi=lo + gap * 2**33)
  tol = 2**32 * gap
  over = env.real('over', lo=0, lo_open=True)
  under = env.real('under', lo=0, hi=1)

  def eps(v):
    before = env.fork(v < t)
    if (kind == 'wdec') == before:
      return target + over
    return target * under
  log = install(env)
  cal = env.mod(CAL)
  Acct, make, probes = setup(env, eps)
  v, ex = env.call(lambda: cal.calibrate_dp_mechanism(
      Acct, make, target, env.delta, tol=tol,
      bracket_interval=cal.LowerEndpointAndGuess(lo, lo + gap)))
  if ex is not None:
    if isinstance(ex, RuntimeError):
      env.check(not log['ok'], 'no error when a value exists')
      return
    env.reach('none')
    env.check(isinstance(ex, cal.NoBracketIntervalFoundError), 'kind of error')
    env.check_lt(lo + gap * 2**30, t, 'no error when a value exists')
    return
  env.reach('value')
  env.check_le(lo, v, 'value not below the lower endpoint')
  env.check_le(eps(v), target, 'target met')


def never(env, kind):
  """No parameter meets (or all parameters meet) the target."""
  lo = env.real('lo')
  g = env.real('guess')
  target = env.real('target', lo=0)
  env.delta = env.real('delta', 0, 1)
  d = env.real('distance', lo=0, lo_open=True)
  install(env)
  cal = env.mod(CAL)
  v = target + d if kind == 'above' else target - d
  Acct, make, _ = setup(env, lambda x: v)
  iv = cal.LowerEndpointAndGuess(lo, g)
  r, ex = env.call(lambda: cal.calibrate_dp_mechanism(
      Acct, make, target, env.delta, bracket_interval=iv))
  if env.fork(lo < g):
    env.check(isinstance(ex, cal.NoBracketIntervalFoundError), 'error without a bracket')
  else:
    env.check(isinstance(ex, ValueError), 'guess must exceed the lower endpoint')


def refusals(env, which):
  ev = env.event()
  install(env)
  cal = env.mod(CAL)
  env.delta = env.real('delta')
  target = env.real('target')
  tol = env.real('tol')
  level = env.real('level', lo=0)
  led = ev.GaussianDpEvent(1.0) if which == 'ledger' else None
  Acct, make, _ = setup(env, lambda v: level, led)
  v, ex = env.call(lambda: cal.calibrate_dp_mechanism(
      Acct, make, target, env.delta, tol=tol,
      bracket_interval=cal.ExplicitBracketInterval(0, 1)))
  good = env.fork(target >= 0) and env.fork(env.delta >= 0) and env.fork(
      env.delta <= 1) and env.fork(tol > 0)
  if not good:
    env.check(isinstance(ex, ValueError), 'bad target, delta or tolerance refused')
  elif which == 'ledger':
    env.check(isinstance(ex, cal.NonEmptyAccountantError), 'used accountant refused')
  elif env.fork(level == target):
    env.check(ex is None, 'no error when a value exists')
  else:
    env.check(isinstance(ex, ValueError), 'error without a bracket')


def cases(tier):
  q = tier == 'quick'
  out = []
  for kind in ('winc', 'wdec'):
    for swap in (False, True):
      out.append(Case('explicit-%s%s' % (kind, '-swapped' if swap else ''), explicit,
                      kw=dict(kind=kind, swap=swap, halvings=2 if q else 3),
                      must_reach=('value', 'error')))
    for n in (1, 2, 3) if q else (1, 2, 3, 4, 5):
      for tol in (None, 2):
        out.append(Case('discrete-%s-%d-%s' % (kind, n, tol), discrete,
                        kw=dict(kind=kind, n=n, tol=tol), must_reach=('value',)))
    out.append(Case('discrete-%s-swapped' % kind, discrete,
                    kw=dict(kind=kind, n=2, tol=None, swap=True)))
    for default in (False, True):
      out.append(Case('guess-%s-%s' % (kind, default), guess,
                      kw=dict(kind=kind, n=3 if q else 4, default=default),
                      must_reach=('value',)))
    out.append(Case('far-' + kind, far, kw=dict(kind=kind), must_reach=('value', 'none')))
  for kind in ('above', 'below'):
    out.append(Case('never-' + kind, never, kw=dict(kind=kind)))
  for which in ('ledger', 'range'):
    out.append(Case('refuse-' + which, refusals, kw=dict(which=which)))
  return out
