"""C16: epsilon is the smallest non-negative one that meets delta."""
import math
from se import core
from se.runner import Case
from harness import pldlib as L

FUNCTIONS = ['pld_pmf._get_epsilon_for_delta', 'pld_pmf.DensePLDPmf.get_epsilon_for_delta',
             'pld_pmf.SparsePLDPmf.get_epsilon_for_delta',
             'privacy_loss_distribution.PrivacyLossDistribution.get_epsilon_for_delta']
BOUNDS = ['up to 3 (quick) / 4 (thorough) grid losses including gaps and zero masses; '
          'masses, infinite mass, discretization, delta and the competing epsilon are '
          'symbolic reals (losses small enough that exp(-loss) is not zero)']


def smallest(env, pmf, masses, inf, d, delta, tag=''):
  got = pmf.get_epsilon_for_delta(delta)
  if env.fork(inf > delta):
    env.check(core.is_inf(got) and got > 0, tag + 'infinite when infinite mass exceeds delta')
    return
  env.check(not core.is_inf(got), tag + 'finite when infinite mass is within delta')
  env.check_le(0, got, tag + 'epsilon non-negative')
  at = L.hs(env, masses, inf, d, got)
  env.check_le(at, delta, tag + 'delta is met at the reported epsilon')
  if env.fork(got > 0):
    # at a competing epsilon in [0, got) the divergence must exceed delta; the
    # divergence is continuous and convex, so it suffices that it strictly
    # decreases up to got and equals delta there.
    env.check_le(delta, at, tag + 'reported epsilon is not too large (equality)')
    other = env.real('other' + tag, lo=0)
    env.assume(other < got)
    env.check_lt(delta, L.hs(env, masses, inf, d, other), tag + 'no smaller epsilon works')


def one(env, kind, keys):
  d = env.pos('d')
  ps, inf = L.masses_in(env, 'p', len(keys))
  delta = env.prob('delta')
  pmf = L.make(env, kind, keys, ps, d, inf)
  smallest(env, pmf, dict(zip(keys, ps)), inf, d, delta)


def sub(env, kind, keys):
  """Optimistic distributions may sum to less than one."""
  d = env.pos('d')
  ps, inf = L.masses_in(env, 'p', len(keys), full=False)
  delta = env.prob('delta')
  pmf = L.make(env, kind, keys, ps, d, inf, pess=False)
  smallest(env, pmf, dict(zip(keys, ps)), inf, d, delta)


def agree(env, keys):
  d = env.pos('d')
  ps, inf = L.masses_in(env, 'p', len(keys))
  delta = env.prob('delta')
  a = L.make(env, 'sparse', keys, ps, d, inf).get_epsilon_for_delta(delta)
  b = L.make(env, 'dense', keys, ps, d, inf).get_epsilon_for_delta(delta)
  env.check_eq(a, b, 'sparse and dense agree')


def two_sided(env, kind):
  d = env.pos('d')
  keys = [-1, 1]
  ps, inf = L.masses_in(env, 'p', 2)
  qs, qinf = L.masses_in(env, 'q', 2)
  delta = env.prob('delta')
  m = env.mod(L.PLD)
  A = L.make(env, kind, keys, ps, d, inf)
  B = L.make(env, kind, keys, qs, d, qinf)
  a = A.get_epsilon_for_delta(delta)
  b = B.get_epsilon_for_delta(delta)
  got = m.PrivacyLossDistribution(A, B).get_epsilon_for_delta(delta)
  env.check_le(a, got, 'covers remove')
  env.check_le(b, got, 'covers add')
  if core.is_inf(got):
    env.check(core.is_inf(a) or core.is_inf(b), 'infinite only if one side is')
  else:
    env.check_eq((got - a) * (got - b), 0, 'is one of the two')


def cases(tier):
  out = []
  K = [('p', [1, 2]), ('m', [-1, 1]), ('g', [0, 2, 3]), ('n', [-2, -1, 0])]
  if tier == 'thorough':
    K += [('4', [-1, 0, 1, 2]), ('g4', [-2, 1, 2, 5])]
  for kind in ('dense', 'sparse'):
    for nm, ks in K:
      out.append(Case('%s-%s' % (kind, nm), one, kw=dict(kind=kind, keys=ks)))
    out.append(Case('sub-%s' % kind, sub, kw=dict(kind=kind, keys=[-1, 1, 2])))
    out.append(Case('two-%s' % kind, two_sided, kw=dict(kind=kind)))
  out.append(Case('agree', agree, kw=dict(keys=[-1, 1, 2])))
  return out
