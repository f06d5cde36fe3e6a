"""C47: the Go library's thresholds hide single users, and its confidence intervals cover."""
import math

from se import core
from se.runner import Case
from harness import golib as G

FUNCTIONS = ['go/noise: laplace.Threshold/DeltaForThreshold/ComputeConfidenceIntervalInt64/'
             'ComputeConfidenceIntervalFloat64, the same of gaussian, laplaceLambda, '
             'computeConfidenceInterval*, inverseCDF*', 'go/checks']
BOUNDS = ['1, 2, 3, 4 or 8 partitions per user for the thresholds; every other parameter symbolic']
ASSUMPTIONS = ['floating-point rounding is not modelled', 'the Gaussian scale is that of '
               'SigmaForGaussian (C40)', 'noise is continuous for the intervals']

TINY = 1e-9


def setup(env):
  rt = G.load(env)
  return rt, rt.noise


def common(env):
  return env.pos('linf'), env.real('eps', lo=2.0**-50)


def survival(env, z):
  """The probability that Laplace noise of scale one is above z."""
  if env.fork(z >= 0):
    return env.exp(-z) / 2
  return 1 - env.exp(z) / 2


def gaussian(env, n, want):
  """The Gaussian scale is some number; it must be asked for with the parameters of the noise."""
  sigma = env.pos('sigma')
  calls = []

  def sig(*a):
    calls.append(a)
    return sigma
  n.SigmaForGaussian = sig

  def done():
    if not calls:
      raise core.Inconclusive('SigmaForGaussian was not called')
    for a in calls:
      for x, y, t in zip(a, want, ('l0', 'lInf', 'epsilon', 'delta')):
        env.check_eq(x, y, 'the scale of the noise: ' + t)
    return sigma
  return done


def threshold_laplace(env, l0):
  """A single user's partition survives with probability 1 - (1 - delta)^(1 / l0) at most."""
  rt, n = setup(env)
  linf, eps = common(env)
  R = env.real('R', lo=0, hi=1, lo_open=True, hi_open=True)
  td = 1 - R**l0
  k = G.error(env, n.Laplace().Threshold(l0, linf, eps, 0.0, td), 'Threshold')
  s = survival(env, (k - linf) * eps / (l0 * linf))
  env.check_le(s, 1 - R, 'kept too often')
  env.check_le(td, s * l0, 'the threshold is larger than needed')
  if env.fork(td >= TINY):
    env.check_eq(s, 1 - R, 'the threshold is the smallest one')


def delta_laplace(env, l0, near):
  rt, n = setup(env)
  linf, eps = common(env)
  T = env.real('T', lo=0, lo_open=True)       # exp of the distance in scales
  env.assume(T < 1 if near else T >= 1)
  k = linf + l0 * linf / eps * env.log(T)
  r = G.error(env, n.Laplace().DeltaForThreshold(l0, linf, eps, 0.0, k), 'DeltaForThreshold')
  s = 1 - T / 2 if near else 1 / (2 * T)
  env.check_le(1 - (1 - s)**l0, r, 'the delta is understated')
  env.check_le(r, s * l0, 'the delta is overstated')
  env.check_le(r, 1, 'the delta is a probability')
  if env.fork(s >= TINY):
    env.check_eq(r, 1 - (1 - s)**l0, 'the delta of independent partitions')


def tiny_laplace(env, l0, what):
  """Deltas too small for the formula: each partition gets an equal share."""
  rt, n = setup(env)
  linf, eps = common(env)
  if what == 'threshold':
    td = env.real('td', lo=0, lo_open=True, hi=2.0**-36)
    k = G.error(env, n.Laplace().Threshold(l0, linf, eps, 0.0, td), 'Threshold')
    r = env.exp(-(k - linf) * eps / (l0 * linf)) * l0 / (2 * td)
  else:
    T = env.real('T', lo=2.0**36)
    k = linf + l0 * linf / eps * env.log(T)
    r = G.error(env, n.Laplace().DeltaForThreshold(l0, linf, eps, 0.0, k), 'DeltaForThreshold')
    r = r * 2 * T / l0
  env.check_le(r, 1 + 1e-6, 'small delta: too large')
  env.check_le(1 - 1e-6, r, 'small delta: too small')


def threshold_gaussian(env, l0):
  rt, n = setup(env)
  linf, eps = common(env)
  R = env.real('R', lo=0, hi=1, lo_open=True, hi_open=True)
  td = 1 - R**l0
  nd = env.real('nd', lo=0, lo_open=True)
  env.assume(nd + td < 1)
  done = gaussian(env, n, (l0, linf, eps, nd))
  k = G.error(env, n.Gaussian().Threshold(l0, linf, eps, nd, td), 'Threshold')
  sigma = done()
  env.check_eq(env.Phi((k - linf) / sigma), R, 'a single user is dropped often enough')


def delta_gaussian(env, l0):
  rt, n = setup(env)
  linf, eps = common(env)
  z = env.real('z')
  nd = env.real('nd', lo=0, hi=1, lo_open=True, hi_open=True)
  done = gaussian(env, n, (l0, linf, eps, nd))
  sigma = env.pos('sigma')
  r = G.error(env, n.Gaussian().DeltaForThreshold(l0, linf, eps, nd, linf + sigma * z), 'Delta')
  done()
  env.check_eq(r, 1 - env.Phi(z)**l0, 'the delta of independent partitions')


def interval_float(env, laplace):
  rt, n = setup(env)
  linf, eps = common(env)
  l0 = env.nat('l0', 1)
  y = env.real('y')
  alpha = env.real('alpha', lo=0, hi=1, lo_open=True, hi_open=True)
  if laplace:
    ci = n.Laplace().ComputeConfidenceIntervalFloat64(y, l0, linf, eps, 0.0, alpha)
    scale = l0 * linf / eps
  else:
    nd = env.real('nd', lo=0, hi=1, lo_open=True, hi_open=True)
    done = gaussian(env, n, (l0, linf, eps, nd))
    ci = n.Gaussian().ComputeConfidenceIntervalFloat64(y, l0, linf, eps, nd, alpha)
    scale = done()
  ci = G.error(env, ci, 'ComputeConfidenceIntervalFloat64')
  lo, hi = (ci.LowerBound - y) / scale, (ci.UpperBound - y) / scale
  env.check_eq(lo, -hi, 'the interval is symmetric')
  env.check_le(lo, 0, 'the lower bound is below')
  tail = env.exp(lo) / 2 if laplace else env.Phi(lo)
  env.check_eq(tail, alpha / 2, 'each side leaves out half of alpha')


def interval_int(env, laplace):
  """The bounds are those of the continuous noise, rounded, then widened to a float64."""
  rt, n = setup(env)
  _, eps = common(env)
  l0, linf = (env.nat(k, 1) for k in ('l0', 'linf'))
  y = env.real('y')
  c, f = env.real('c'), None
  if env.symbolic:
    for v in (l0, linf, y, c):
      rt.integer(v)
  else:
    l0, linf, y, c = (int(round(v)) for v in (l0, linf, y, c))
  L = env.pos('L')
  if laplace:
    total = l0 * linf / eps * L
    alpha, delta = env.exp(-L), 0.0
    obj, done = n.Laplace(), lambda: None
  else:
    total = env.pos('sigma') * L
    alpha, delta = 2 * env.Phi(-L), env.real('nd', lo=0, hi=1, lo_open=True, hi_open=True)
    env.assume(alpha > 0)
    env.assume(alpha < 1)
    if env.symbolic:             # the quantile inverts Phi
      half = core.SymReal.lift(alpha / 2)
      rt.quantiles = {half.key(): -L, (1 - half).key(): L}
    obj, done = n.Gaussian(), gaussian(env, n, (l0, linf, eps, delta))
  if env.symbolic:
    f = total - c
    h = core.Fraction(1, 2)
    env.assume(f >= -h)
    env.assume(f < h)
    G.rounding(n, total, c, f)
  else:
    c = int(total + 0.5)
  below, above = env.real('below', lo=0, hi=1), env.real('above', lo=0, hi=1)
  asked = []

  def smaller(x):
    asked.append(x)
    return x - below

  def larger(x):
    asked.append(x)
    return x + above
  if hasattr(n, 'nextSmallerFloat64') and hasattr(n, 'nextLargerFloat64'):
    n.nextSmallerFloat64, n.nextLargerFloat64 = smaller, larger
  ci = G.error(env, obj.ComputeConfidenceIntervalInt64(y, l0, linf, eps, delta, alpha), 'interval')
  done()
  if not asked:                  # widened by other means: decided bit-exactly in exact-*
    below = above = 0
  env.check_eq(ci.LowerBound, y - c - below, 'the lower bound, rounded and widened')
  env.check_eq(ci.UpperBound, y + c + above, 'the upper bound, rounded and widened')


def interval_exact(env, scale, low, high):
  """Bit-exact: the interval around an int64 reaches as far as the noise does."""
  import z3
  from harness import C40
  rt, n = setup(env)
  c = round(scale * math.log(8))

  def f(X, t, must):
    k = t['y'] if X else t['y'] % 2**64
    if not X and not low <= k < high:
      return
    for sign in (1, -1):
      y = sign * k
      ci = G.error(env, n.Laplace().ComputeConfidenceIntervalInt64(
          X.V(y, 'int64') if X else y, 1, scale, 1.0, 0.0, 0.125), 'interval')
      lo, hi = ci.LowerBound, ci.UpperBound
      if X:
        lo, hi = (z3.fpToSBV(X.RTZ, v.t, z3.BitVecSort(64)) for v in (lo, hi))
      else:
        lo, hi = int(lo), int(hi)
      must(lo <= y - c, 'the interval reaches down as far as the noise')
      must(hi >= y + c, 'the interval reaches up as far as the noise')
  C40.exactly(env, {'y': 'V'}, [lambda t: t['y'] >= low, lambda t: t['y'] < high], f)


def refuses(env, laplace, what):
  """Exactly the parameters in range are accepted."""
  rt, n = setup(env)
  l0, linf, eps, delta = (env.real(k) for k in ('l0', 'linf', 'eps', 'delta'))
  third = env.real('third')
  if env.symbolic:
    rt.integer(l0)
  else:
    l0 = int(l0)
  obj = n.Laplace() if laplace else n.Gaussian()
  n.SigmaForGaussian = lambda *a: env.pos('sigma')
  if env.symbolic and what == 'threshold':
    n._pkg_math = G.proxy(n._pkg_math, Pow=lambda x, y: env.prob('pow'))
    n._pkg_distuv.Normal = lambda **k: G.proxy(None, Quantile=lambda p: env.real('q'))
  args = (l0, linf, eps, delta, third)
  if what == 'threshold':
    _, err = obj.Threshold(*args)
    also = lambda: env.fork(third > 0) and env.fork(third + delta < 1)
  elif what == 'delta':
    if env.symbolic:
      n._pkg_math = G.proxy(n._pkg_math, Pow=lambda x, y: env.prob('pow'))
    _, err = obj.DeltaForThreshold(*args)
    also = lambda: True
  else:
    f = obj.ComputeConfidenceIntervalFloat64
    _, err = f(env.real('y'), *args)
    also = lambda: env.fork(third > 0) and env.fork(third < 1)
  good = (env.fork(l0 > 0) and env.fork(linf > 0) and env.fork(eps >= 2.0**-50) and
          (env.fork(delta == 0) if laplace else env.fork(delta > 0) and env.fork(delta < 1)) and
          also())
  env.check((err is None) == good, 'accepts exactly the parameters in range')


def cases(tier):
  ls = (1, 2, 3, 4, 8) if tier == 'thorough' else (1, 2, 3, 4)
  out = []
  for l in ls:
    out += [Case('threshold-laplace-%d' % l, threshold_laplace, kw={'l0': l}),
            Case('delta-laplace-near-%d' % l, delta_laplace, kw={'l0': l, 'near': True}),
            Case('delta-laplace-far-%d' % l, delta_laplace, kw={'l0': l, 'near': False}),
            Case('tiny-threshold-%d' % l, tiny_laplace, kw={'l0': l, 'what': 'threshold'}),
            Case('tiny-delta-%d' % l, tiny_laplace, kw={'l0': l, 'what': 'delta'}),
            Case('threshold-gaussian-%d' % l, threshold_gaussian, kw={'l0': l}),
            Case('delta-gaussian-%d' % l, delta_gaussian, kw={'l0': l})]
  for lap in (True, False):
    s = 'laplace' if lap else 'gaussian'
    out += [Case('interval-float-' + s, interval_float, kw={'laplace': lap}),
            Case('interval-int-' + s, interval_int, kw={'laplace': lap})]
    out += [Case('refuses-%s-%s' % (w, s), refuses, kw={'laplace': lap, 'what': w})
            for w in ('threshold', 'delta', 'interval')]
  out += [Case('interval-exact-%d-%d' % (k, top), interval_exact,
               kw={'scale': k, 'low': 2**top - 2**10, 'high': 2**top + 2**10})
          for k, top in ((1, 53), (1000, 54), (1, 60))]
  return out
