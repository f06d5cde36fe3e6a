"""C30: advanced composition returns the optimal composition bound."""
import math
from se.runner import Case
from harness import pldlib as L

FUNCTIONS = ['accountant.advanced_composition',
             'accountant.get_smallest_epsilon_from_advanced_composition',
             'common.inverse_monotone_function']
BOUNDS = ['1 to 6 (quick) / 9 (thorough) queries for the composition; 1 to 4 (6) for the '
          'inverse, whose search tolerance is set to a quarter of the search range; '
          'per-query epsilon and delta and total delta symbolic']


def exact(env, eps, delta, k, m):
  """delta at m*eps of the k-fold composition of the extremal (eps,delta) mechanism."""
  den = (1 + env.exp(eps))**k
  s = 0
  for l in range(k + 1):
    # l of the k answers are the unlikely one
    a, b = k - l, m + l
    if a > b:
      s = s + math.comb(k, l) * (env.exp(a * eps) - env.exp(b * eps))
  return 1 - (1 - delta)**k * (1 - s / den)


def compose(env, k):
  eps = env.real('eps', lo=0)
  delta = env.real('delta', lo=0, hi=1)
  total = env.real('total', lo=0, hi=1)
  a = env.mod(L.ACC)
  c = env.mod(L.COMMON)
  r = a.advanced_composition(c.DifferentialPrivacyParameters(eps, delta), k, total)
  none = 1 - (1 - delta)**k
  if r is None:
    env.reach('none')
    env.check_lt(total, none, 'nothing returned only below the unavoidable failure mass')
    return
  env.reach('some')
  env.check_le(none, total, 'no value below the unavoidable failure mass')
  prod = 1
  hit = False
  for m in range(k % 2, k + 1, 2):
    prod = prod * (r - m * eps)
  env.check_eq(prod, 0, 'value on the grid of the theorem')
  if env.fork(eps > 0):
    for m in range(k % 2, k + 1, 2):
      dm = exact(env, eps, delta, k, m)
      if env.fork(r == m * eps) if env.symbolic else abs(r - m * eps) <= 1e-9 * (1 + abs(r)):
        env.check_le(dm, total, 'composition satisfies total delta at the value')
        break
      else:
        # r is larger than m*eps: the smaller grid value must not qualify
        env.check_lt(total, dm, 'no smaller grid value qualifies')


def inverse(env, k):
  te = env.real('te', lo=0, lo_open=True)
  td = env.real('td', lo=0, hi=1)
  delta = env.real('delta', lo=0, hi=1)
  a = env.mod(L.ACC)
  c = env.mod(L.COMMON)
  real = c.BinarySearchParameters

  def coarse(lo, hi, *r, **kw):
    p = real(lo, hi, *r, **kw)
    p.tolerance = (hi - lo) / 4
    return p
  c.BinarySearchParameters = coarse
  r = a.get_smallest_epsilon_from_advanced_composition(
      c.DifferentialPrivacyParameters(te, td), k, delta)
  none = 1 - (1 - delta)**k
  if r is None:
    env.check_lt(td, none, 'nothing returned only below the unavoidable failure mass')
    return
  env.check_le(none, td, 'no value below the unavoidable failure mass')
  env.check_le(te / k, r, 'at least the basic composition value')
  env.check_le(r, te, 'at most the total epsilon')
  # hockey-stick divergence of the composition at total epsilon te
  den = (1 + env.exp(r))**k
  s = 0
  for l in range(k + 1):
    if env.fork((k - 2 * l) * r > te):
      s = s + math.comb(k, l) * (env.exp((k - l) * r) - env.exp(te + l * r))
  env.check_le(1 - (1 - delta)**k * (1 - s / den), td,
               'value composes back within the target')


def cases(tier):
  ks = range(1, 7 if tier == 'quick' else 10)
  out = [Case('compose-%d' % k, compose, kw=dict(k=k), must_reach=('some', 'none'))
         for k in ks]
  for k in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5, 6):
    out.append(Case('inverse-%d' % k, inverse, kw=dict(k=k)))
  return out
