"""C18: self-composition equals repeated composition."""
from se.runner import Case
from harness import pldlib as L

FUNCTIONS = ['pld_pmf.DensePLDPmf.self_compose', 'pld_pmf.SparsePLDPmf.self_compose',
             'common.self_convolve', 'common.compute_self_convolve_bounds',
             'privacy_loss_distribution.PrivacyLossDistribution.self_compose']
BOUNDS = ['up to 3 grid losses, n up to 4 (quick) / 6 (thorough); masses, infinite mass, '
          'discretization symbolic; tail truncation zero (truncation itself is C19); '
          'FFTs modelled exactly as cyclic convolution of the padded length']
SMALL = {L.PMF: {'_MAX_PMF_SPARSE_SIZE': 5}}


def power(m, n):
  r = {0: 1}
  for _ in range(n):
    r = L.conv(r, m)
  return r


def selfc(env, kind, keys, ns, pld=False, prob_one=False):
  d = env.pos('d')
  n = env.choice('n', ns)
  ps, inf = L.masses_in(env, 'p', len(keys), full=False)
  A = L.make(env, kind, keys, ps, d, inf)
  if pld:
    m = env.mod(L.PLD)
    Z = m.PrivacyLossDistribution(A).self_compose(n, 0)
    C = Z._pmf_remove
    env.check(bool(Z._symmetric), 'self-composition of a symmetric one is symmetric')
  else:
    C = A.self_compose(n, 0)
  got, ginf, gd, gp = L.view(C)
  L.check_same_masses(env, got, power(dict(zip(keys, ps)), n), 'n-fold convolution')
  if not env.fork(inf >= 1):
    env.check_eq(1 - ginf, (1 - inf)**n, 'infinite mass of n-fold composition')
  else:
    env.check_eq(ginf, 1, 'infinite mass stays one')
  env.check_eq(gd, d, 'discretization kept')
  env.check(gp is True, 'estimate direction kept')
  ma, ia, _, _ = L.view(A)
  L.check_same_masses(env, ma, dict(zip(keys, ps)), 'operand unmodified')


def equal_repeat(env, kind, keys, n):
  d = env.pos('d')
  ps, inf = L.masses_in(env, 'p', len(keys))
  A = L.make(env, kind, keys, ps, d, inf)
  M = env.mod(L.PMF)
  R = A
  for _ in range(n - 1):
    R = M.compose_pmfs(R, A)
  C = A.self_compose(n, 0)
  a, ai, _, _ = L.view(R)
  b, bi, _, _ = L.view(C)
  L.check_same_masses(env, b, a, 'self_compose equals repeated compose')
  env.check_eq(ai, bi, 'same infinite mass')


def refuse(env, kind):
  d = env.pos('d')
  n = env.choice('n', [0, -1, -5])
  ps, inf = L.masses_in(env, 'p', 2)
  A = L.make(env, kind, [0, 1], ps, d, inf)
  m = env.mod(L.PLD)
  env.check(env.raises(lambda: A.self_compose(n), ValueError) is not None,
            'non-positive count refused')
  env.check(env.raises(lambda: m.PrivacyLossDistribution(A).self_compose(n),
                       ValueError) is not None, 'non-positive count refused by PLD')


def cases(tier):
  out = []
  ns = [1, 2, 3, 4] if tier == 'quick' else [1, 2, 3, 4, 5, 6]
  K = [('a', [0, 1]), ('b', [-2, 1]), ('c', [-1, 0, 1]), ('e', [3])]
  for kind in ('dense', 'sparse'):
    for nm, ks in K:
      out.append(Case('%s-%s' % (kind, nm), selfc, kw=dict(kind=kind, keys=ks, ns=ns)))
    out.append(Case('pld-%s' % kind, selfc, kw=dict(kind=kind, keys=[0, 2], ns=ns, pld=True)))
    for n in (2, 3):
      out.append(Case('rep-%s-%d' % (kind, n), equal_repeat, kw=dict(
          kind=kind, keys=[-1, 1], n=n)))
    out.append(Case('refuse-' + kind, refuse, kw=dict(kind=kind)))
  out.append(Case('switch', selfc, constants=SMALL, kw=dict(
      kind='sparse', keys=[-1, 1], ns=[2, 3, 4])))
  out.append(Case('switch-rep', equal_repeat, constants=SMALL, kw=dict(
      kind='sparse', keys=[0, 3], n=3)))
  return out
