"""C23: connect-the-dots."""
from se.runner import Case
from harness import pldlib as L

FUNCTIONS = ['pld_pmf.create_pmf_pessimistic_connect_dots',
             'pld_pmf.create_pmf_pessimistic_connect_dots_fixed_gap', 'pld_pmf.create_pmf']
BOUNDS = ['up to 4 (quick) / 5 (thorough) grid points, uneven gaps up to 3; deltas and '
          'discretization symbolic']


def profile(env, d, keys):
  """Deltas of a valid privacy profile at the given grid points.

  Validity: between grid points linear interpolation in exp(eps) is achievable:
  0<=delta<=1, non-increasing, convex in exp(eps), slope >= -1 per exp(eps) and
  delta >= 1 - exp(eps).
  """
  ds = [env.prob('delta%d' % i) for i in range(len(keys))]
  E = [env.exp(k * d) for k in keys]
  for i in range(len(keys) - 1):
    env.assume(ds[i + 1] <= ds[i])
  # convexity on 0 (delta=1), E_0, E_1, ...
  pts = [(0, 1)] + list(zip(E, ds))
  for (x0, y0), (x1, y1), (x2, y2) in zip(pts, pts[1:], pts[2:]):
    env.assume((y1 - y0) * (x2 - x1) <= (y2 - y1) * (x1 - x0))
  return ds


def at_grid(env, pmf, keys, ds, d):
  m, inf, gd, gp = L.view(pmf)
  tot = inf
  for k in sorted(m):
    env.check_le(0, m[k], 'mass non-negative')
    tot = tot + m[k]
    if k not in keys:
      env.check_eq(m[k], 0, 'no mass off the supplied grid')
  env.check_eq(tot, 1, 'masses sum to one')
  for k, x in zip(keys, ds):
    env.check_eq(L.hs_at_grid(env, m, inf, d, k), x, 'exact delta at grid point')
  env.check(gp is True, 'pessimistic')
  env.check_eq(gd, d, 'interval kept')


def general(env, keys, dense):
  d = env.pos('d')
  ds = profile(env, d, keys)
  pmf = env.mod(L.PMF).create_pmf_pessimistic_connect_dots(d, list(keys), list(ds))
  at_grid(env, pmf, keys, ds, d)


def fixed(env, lo, n):
  d = env.pos('d')
  keys = list(range(lo, lo + n))
  ds = profile(env, d, keys)
  M = env.mod(L.PMF)
  pmf = M.create_pmf_pessimistic_connect_dots_fixed_gap(d, lo, lo + n - 1, list(ds))
  at_grid(env, pmf, keys, ds, d)
  g = M.create_pmf_pessimistic_connect_dots(d, keys, list(ds))
  a, ai, _, _ = L.view(pmf)
  b, bi, _, _ = L.view(g)
  L.check_same_masses(env, a, b, 'variants agree')
  env.check_eq(ai, bi, 'variants agree on infinite mass')


def between(env, keys):
  """Upper bound between grid points: true curve convex in exp(eps), so it lies
  below the chord; the constructed one must be the chord or above."""
  d = env.pos('d')
  ds = profile(env, d, keys)
  eps = env.real('eps')
  true = env.prob('true')
  X = env.exp(eps)
  E = [env.exp(k * d) for k in keys]
  # place eps in an interval
  i = env.choice('where', list(range(-1, len(keys))))
  if i == -1:
    env.assume(eps < keys[0] * d)
    env.assume(true * E[0] <= E[0] - (1 - ds[0]) * X)       # chord from (0,1)
  elif i == len(keys) - 1:
    env.assume(eps >= keys[-1] * d)
    env.assume(true <= ds[-1])
  else:
    env.assume(eps >= keys[i] * d)
    env.assume(eps <= keys[i + 1] * d)
    env.assume(true * (E[i + 1] - E[i]) <= ds[i] * (E[i + 1] - X) + ds[i + 1] * (X - E[i]))
  pmf = env.mod(L.PMF).create_pmf_pessimistic_connect_dots(d, list(keys), list(ds))
  env.check_le(true, pmf.get_delta_for_epsilon(eps), 'bounds the true curve from above')


def nonneg(env, n):
  """Any non-increasing delta list: masses non-negative, never raises."""
  d = env.pos('d')
  keys = list(range(-1, n - 1))
  ds = [env.prob('delta%d' % i) for i in range(n)]
  for i in range(n - 1):
    env.assume(ds[i + 1] <= ds[i])
  M = env.mod(L.PMF)
  for pmf in (M.create_pmf_pessimistic_connect_dots(d, keys, list(ds)),
              M.create_pmf_pessimistic_connect_dots_fixed_gap(d, keys[0], keys[-1], list(ds))):
    m, inf, _, _ = L.view(pmf)
    for k in m:
      env.check_le(0, m[k], 'mass non-negative')
    env.check_eq(inf, ds[-1], 'infinite mass is the last delta')
    if n > 1:
      # rounding negative masses up never lowers delta at grid points
      for k, x in zip(keys, ds):
        env.check_le(x, L.hs_at_grid(env, m, inf, d, k), 'never below supplied delta')


def refuse(env):
  d = env.pos('d')
  M = env.mod(L.PMF)
  a, b = env.real('a'), env.real('b')
  f = lambda k, ds: env.raises(lambda: M.create_pmf_pessimistic_connect_dots(d, k, ds),
                               ValueError) is not None
  g = lambda lo, hi, ds: env.raises(
      lambda: M.create_pmf_pessimistic_connect_dots_fixed_gap(d, lo, hi, ds),
      ValueError) is not None
  bad = env.fork(a < 0) or env.fork(a > 1) or env.fork(b < 0) or env.fork(b > 1) or env.fork(b > a)
  env.check(f([0, 1], [a, b]) == bad, 'refuses exactly invalid delta lists')
  env.check(g(0, 1, [a, b]) == bad, 'fixed gap refuses exactly invalid delta lists')
  env.check(f([1, 0], [0.5, 0.2]), 'non-increasing epsilons refused')
  env.check(f([0, 0], [0.5, 0.2]), 'repeated epsilons refused')
  env.check(f([0, 1, 2], [0.5, 0.2]), 'length mismatch refused')
  env.check(f([], []), 'empty refused')
  env.check(g(1, 0, [0.5, 0.2]), 'reversed bounds refused')
  env.check(g(0, 2, [0.5, 0.2]), 'length mismatch refused (fixed gap)')


def cases(tier):
  out = []
  K = [('2', [0, 1]), ('3', [-1, 0, 1]), ('g', [-1, 1, 2]), ('h', [0, 3]), ('1', [2])]
  if tier == 'thorough':
    K += [('4', [-1, 0, 1, 2]), ('g4', [-2, 0, 1, 4])]
  for nm, ks in K:
    for dn in (False, True):
      out.append(Case('general-%s-%d' % (nm, dn), general, kw=dict(keys=ks, dense=dn),
                      constants={L.PMF: {'_MAX_PMF_SPARSE_SIZE': 1}} if dn else {}))
    out.append(Case('between-' + nm, between, kw=dict(keys=ks)))
  for lo, n in ((0, 1), (-1, 2), (-1, 3), (1, 3)) + (((-2, 4), (-2, 5)) if tier == 'thorough' else ((0, 4),)):
    out.append(Case('fixed-%d-%d' % (lo, n), fixed, kw=dict(lo=lo, n=n)))
  for n in (1, 2, 3):
    out.append(Case('nonneg-%d' % n, nonneg, kw=dict(n=n)))
  out.append(Case('refuse', refuse))
  return out
