"""C28: monotone inversion returns a sound, near-optimal value."""
import math
from se.runner import Case
from harness import pldlib as L

FUNCTIONS = ['common.inverse_monotone_function']
BOUNDS = ['the function is an arbitrary weakly monotone real function (uninterpreted); '
          'continuous searches: range at most 4 (quick) / 16 (thorough) times the tolerance; '
          'integer searches: ranges of up to 8 / 16 integers; initial guesses inside the '
          'range, upper end at most 8 times the guess (or infinite with the target reached '
          'by 8 times the guess)']


def params(env, lo, hi, tol=None, guess=None, discrete=False):
  c = env.mod(L.COMMON)
  kw = dict(initial_guess=guess, discrete=discrete)
  if tol is not None:
    kw['tolerance'] = tol
  return c.BinarySearchParameters(lo, hi, **kw)


def go(env, f, v, sp, inc):
  return env.mod(L.COMMON).inverse_monotone_function(f, v, sp, inc)


def verdict(env, f, v, r, lo, hi, inc, slack, y):
  """y: an arbitrary competitor in range."""
  fy = f(y)
  if r is None:
    env.reach('none')
    env.check(fy > v, 'nothing returned only if no value qualifies')
    return
  env.reach('some')
  env.check_le(lo, r, 'value not below the range')
  env.check_le(r, hi, 'value not above the range')
  env.check_le(f(r), v, 'function value at most the target')
  if inc:
    env.check(env_or(env, fy > v, y <= r + slack), 'no better value by more than the tolerance')
  else:
    env.check(env_or(env, fy > v, r - slack <= y), 'no better value by more than the tolerance')


def env_or(env, a, b):
  if env.symbolic:
    from se import core
    return core.b_or(a, b)
  return bool(a) or bool(b)


def cont(env, inc, ratio):
  lo = env.real('lo')
  tol = env.pos('tol')
  w = env.real('w', lo=0)
  env.assume(w <= ratio * tol)
  hi = lo + w
  f = env.func('f', 'winc' if inc else 'wdec')
  v = env.real('v')
  y = lo + env.real('y', lo=0)
  env.assume(y <= hi)
  r = go(env, f, v, params(env, lo, hi, tol), inc)
  verdict(env, f, v, r, lo, hi, inc, tol, y)


def guess(env, inc, ratio, infinite=False):
  g = env.pos('g')
  tol = env.pos('tol')
  lo = env.real('lo')
  env.assume(lo <= g)
  f = env.func('f', 'winc' if inc else 'wdec')
  v = env.real('v')
  env.assume(8 * g - lo <= ratio * tol)
  if infinite:
    hi = math.inf
    env.assume(f(8 * g) > v if inc else f(8 * g) <= v)
    top = 8 * g
  else:
    hi = env.real('hi')
    env.assume(g <= hi)
    env.assume(hi <= 8 * g)
    top = hi
  y = lo + env.real('y', lo=0)
  env.assume(y <= top)
  r = go(env, f, v, params(env, lo, hi, tol, guess=g), inc)
  verdict(env, f, v, r, lo, top, inc, tol, y)


def disc(env, inc, n, with_guess):
  lo = env.int('lo', 0, 1) * 3 - 2
  hi = lo + env.int('w', 0, n)
  f = env.func('f', 'winc' if inc else 'wdec')
  v = env.real('v')
  g = None
  if with_guess:
    g = env.int('g', 1, 3)
    if not lo <= g <= hi:
      return
  r = go(env, f, v, params(env, lo, hi, guess=g, discrete=True), inc)
  y = lo + env.int('y', 0, hi - lo)
  fy = f(y)
  if r is None:
    env.check(fy > v, 'nothing returned only if no value qualifies')
    return
  env.check(int(r) == r, 'integer returned')
  r = int(r)
  env.check(lo <= r <= hi, 'value in range')
  env.check_le(f(r), v, 'function value at most the target')
  if inc:
    # The upper end itself is never evaluated: one step of slack there.
    if y > r + (1 if y == hi else 0):
      env.check(fy > v, 'integer search is optimal')
  else:
    if y < r - (1 if y == lo else 0):
      env.check(fy > v, 'integer search is optimal')


def cases(tier):
  q = tier == 'quick'
  out = []
  for inc in (False, True):
    nm = 'inc' if inc else 'dec'
    out.append(Case('cont-' + nm, cont, kw=dict(inc=inc, ratio=4 if q else 16),
                    must_reach=('some', 'none')))
    out.append(Case('guess-' + nm, guess, kw=dict(inc=inc, ratio=8 if q else 32)))
    out.append(Case('guessinf-' + nm, guess, kw=dict(inc=inc, ratio=8 if q else 32,
                                                     infinite=True)))
    for wg in (False, True):
      out.append(Case('int-%s-%s' % (nm, wg), disc, kw=dict(
          inc=inc, n=6 if q else 16, with_guess=wg)))
  return out
