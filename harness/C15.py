"""C15: delta is the hockey-stick divergence."""
import math
from se.runner import Case
from harness import pldlib as L

FUNCTIONS = ['pld_pmf._get_delta_for_epsilon', 'pld_pmf._get_delta_for_epsilon_vectorized',
             'pld_pmf.DensePLDPmf.get_delta_for_epsilon',
             'pld_pmf.SparsePLDPmf.get_delta_for_epsilon',
             'privacy_loss_distribution.PrivacyLossDistribution.get_delta_for_epsilon']
BOUNDS = ['up to 3 (quick) / 5 (thorough) grid losses, sparse keys with gaps, '
          'lowest loss in {-2,0,1}; masses, infinite mass, discretization and epsilon '
          'are unbounded symbolic reals; up to 3 epsilons per list']


def scalar(env, kind, keys):
  d = env.pos('d')
  ps, inf = L.masses_in(env, 'p', len(keys), full=env.bool('full'))
  eps = env.real('eps')
  pmf = L.make(env, kind, keys, ps, d, inf)
  got = pmf.get_delta_for_epsilon(eps)
  want = L.hs(env, dict(zip(keys, ps)), inf, d, eps)
  env.check_eq(got, want, 'delta equals hockey-stick divergence')
  env.check_le(0, got, 'delta non-negative')
  env.check_le(got, 1, 'delta at most one')
  vec = pmf.get_delta_for_epsilon([eps])
  env.check(len(vec) == 1, 'list query length')
  env.check_eq(vec[0], want, 'list query equals scalar query')


def vector(env, kind, keys, n, special):
  d = env.pos('d')
  ps, inf = L.masses_in(env, 'p', len(keys))
  e = [env.real('eps0')]
  for i in range(1, n):
    e.append(e[-1] + env.real('gap%d' % i, lo=0))
  if special == 'inf':
    e = e + [math.inf]
  if special == '-inf':
    e = [-math.inf] + e
  pmf = L.make(env, kind, keys, ps, d, inf)
  got = pmf.get_delta_for_epsilon(e if not env.symbolic else env.np.array(e))
  env.check(len(got) == len(e), 'one delta per epsilon')
  prev = None
  for i, x in enumerate(e):
    want = L.hs(env, dict(zip(keys, ps)), inf, d, x)
    env.check_eq(got[i], want, 'list delta equals hockey-stick divergence')
    if prev is not None:
      env.check_le(got[i], prev, 'delta non-increasing in epsilon')
    prev = got[i]


def two_sided(env, kind, keys):
  d = env.pos('d')
  ps, inf = L.masses_in(env, 'p', len(keys))
  qs, qinf = L.masses_in(env, 'q', len(keys))
  eps = env.real('eps')
  m = env.mod(L.PLD)
  pld = m.PrivacyLossDistribution(L.make(env, kind, keys, ps, d, inf),
                                  L.make(env, kind, keys, qs, d, qinf))
  a = L.hs(env, dict(zip(keys, ps)), inf, d, eps)
  b = L.hs(env, dict(zip(keys, qs)), qinf, d, eps)
  got = pld.get_delta_for_epsilon(eps)
  env.check_le(a, got, 'two-sided delta covers remove')
  env.check_le(b, got, 'two-sided delta covers add')
  env.check_eq((got - a) * (got - b), 0, 'two-sided delta is one of the two')
  v = pld.get_delta_for_epsilon([eps, eps + 1])
  env.check_eq(v[0], got, 'two-sided list query agrees')


def unsorted(env):
  d = env.pos('d')
  ps, inf = L.masses_in(env, 'p', 2)
  e0 = env.real('e0')
  e1 = env.real('e1')
  env.assume(e1 < e0)
  pmf = L.make(env, 'dense', [0, 1], ps, d, inf)
  ex = env.raises(lambda: pmf.get_delta_for_epsilon([e0, e1]), ValueError)
  env.check(ex is not None, 'unsorted epsilon list refused')


def cases(tier):
  out = []
  K = [('k0', [0, 1, 2]), ('km', [-2, -1, 0]), ('kg', [-1, 2, 3])]
  if tier == 'thorough':
    K += [('k5', [-2, -1, 0, 1, 2]), ('kg5', [-3, 0, 1, 4, 9])]
  for kind in ('dense', 'sparse'):
    for nm, ks in K:
      out.append(Case('scalar-%s-%s' % (kind, nm), scalar, kw=dict(kind=kind, keys=ks)))
      out.append(Case('vec2-%s-%s' % (kind, nm), vector,
                      kw=dict(kind=kind, keys=ks, n=2, special='')))
    out.append(Case('vecinf-%s' % kind, vector, kw=dict(
        kind=kind, keys=[-1, 0, 2], n=1, special='inf')))
    out.append(Case('vec-inf-%s' % kind, vector, kw=dict(
        kind=kind, keys=[-1, 0, 2], n=1, special='-inf')))
    out.append(Case('two-%s' % kind, two_sided, kw=dict(kind=kind, keys=[-1, 1])))
    if tier == 'thorough':
      out.append(Case('vec3-%s' % kind, vector, kw=dict(
          kind=kind, keys=[-1, 0, 2], n=3, special='')))
  out.append(Case('unsorted', unsorted))
  return out
