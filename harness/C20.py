"""C20: direct composed-delta query equals composing first."""
import math
from se.runner import Case
from harness import pldlib as L

FUNCTIONS = ['pld_pmf.DensePLDPmf.get_delta_for_epsilon_for_composed_pld',
             'pld_pmf.SparsePLDPmf.get_delta_for_epsilon_for_composed_pld',
             'privacy_loss_distribution.PrivacyLossDistribution.get_delta_for_epsilon_for_composed_pld']
BOUNDS = ['up to 3x3 grid losses with gaps and zero masses (4x4 thorough); every mass, '
          'infinite mass, discretization and epsilon symbolic (epsilon also +-inf)']


def q(env, k1, k2, keys1, keys2, special=None):
  d = env.pos('d')
  ps, pinf = L.masses_in(env, 'p', len(keys1))
  qs, qinf = L.masses_in(env, 'q', len(keys2))
  eps = env.real('eps') if special is None else special
  A = L.make(env, k1, keys1, ps, d, pinf)
  B = L.make(env, k2, keys2, qs, d, qinf)
  got = A.get_delta_for_epsilon_for_composed_pld(B, eps)
  m = L.conv(dict(zip(keys1, ps)), dict(zip(keys2, qs)))
  inf = pinf + qinf - pinf * qinf
  env.check_eq(got, L.hs(env, m, inf, d, eps), 'composed delta')


def pld(env, k1, k2, sym1, sym2, first=True):
  d = env.pos('d')
  eps = env.real('eps')
  m = env.mod(L.PLD)
  keys = [0, 1]

  def mk(nm, kind, sym):
    a, ai = L.masses_in(env, nm, 2)
    if sym:
      return m.PrivacyLossDistribution(L.make(env, kind, keys, a, d, ai)), (a, ai, a, ai)
    b, bi = L.masses_in(env, nm + 'x', 2)
    return m.PrivacyLossDistribution(
        L.make(env, kind, keys, a, d, ai), L.make(env, kind, keys, b, d, bi)), (a, ai, b, bi)
  X, (a, ai, b, bi) = mk('p', k1, sym1)
  Y, (c, ci, e, ei) = mk('q', k2, sym2)
  got = X.get_delta_for_epsilon_for_composed_pld(Y, eps)
  rem = L.hs(env, L.conv(dict(zip(keys, a)), dict(zip(keys, c))), ai + ci - ai * ci, d, eps)
  add = L.hs(env, L.conv(dict(zip(keys, b)), dict(zip(keys, e))), bi + ei - bi * ei, d, eps)
  env.check_le(rem, got, 'covers remove direction')
  env.check_le(add, got, 'covers add direction')
  env.check_eq((got - rem) * (got - add), 0, 'equals one of the directions')


def cases(tier):
  out = []
  K = [('a', [0, 1], [-1, 0, 1]), ('b', [-2, 1], [0, 3]), ('c', [1], [-1, 0, 2]),
       ('d', [-1, 0, 1], [2])]
  if tier == 'thorough':
    K += [('e', [-1, 0, 1], [-1, 0, 1]), ('f', [0, 1, 2, 3], [-2, -1, 0, 1])]
  for nm, a, b in K:
    for k1, k2 in (('dense', 'dense'), ('sparse', 'dense'), ('dense', 'sparse'),
                   ('sparse', 'sparse')):
      if nm in 'cd' and k1 == k2 == 'sparse':
        continue
      out.append(Case('%s-%s-%s' % (nm, k1, k2), q, kw=dict(
          k1=k1, k2=k2, keys1=a, keys2=b)))
  out.append(Case('inf', q, kw=dict(k1='dense', k2='dense', keys1=[0, 1],
                                    keys2=[-1, 0, 1], special=math.inf)))
  for s1 in (True, False):
    for s2 in (True, False):
      out.append(Case('pld-%d%d' % (s1, s2), pld, kw=dict(
          k1='sparse', k2='sparse', sym1=s1, sym2=s2)))
  return out
