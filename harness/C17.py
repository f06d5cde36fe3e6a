"""C17: composition is exact convolution."""
from se.runner import Case
from harness import pldlib as L

FUNCTIONS = ['pld_pmf.compose_pmfs', 'pld_pmf.DensePLDPmf.compose',
             'pld_pmf.SparsePLDPmf.compose', 'pld_pmf.PLDPmf.validate_composable',
             'privacy_loss_distribution.PrivacyLossDistribution.compose',
             'privacy_loss_distribution.PrivacyLossDistribution.validate_composable']
BOUNDS = ['up to 3x3 (quick) / 4x4 (thorough) grid losses with gaps; all masses, both '
          'infinite masses and the discretization symbolic; storage switch reached by '
          'lowering _MAX_PMF_SPARSE_SIZE; operands of a composition with a symbolic '
          'truncation budget are looked at afterwards and composed again']
SMALL = {L.PMF: {'_MAX_PMF_SPARSE_SIZE': 3}}


def comp(env, k1, k2, keys1, keys2, via):
  d = env.pos('d')
  ps, pinf = L.masses_in(env, 'p', len(keys1), full=False)
  qs, qinf = L.masses_in(env, 'q', len(keys2), full=False)
  pess = env.bool('pess')
  A = L.make(env, k1, keys1, ps, d, pinf, pess)
  B = L.make(env, k2, keys2, qs, d, qinf, pess)
  if via == 'pmf':
    C = env.mod(L.PMF).compose_pmfs(A, B)
  elif via == 'direct':
    C = A.compose(B)
  else:
    m = env.mod(L.PLD)
    X, Y = m.PrivacyLossDistribution(A), m.PrivacyLossDistribution(B)
    Z = X.compose(Y, 0)
    C = Z._pmf_remove
    env.check(Z._symmetric is True, 'symmetric result')
  got, ginf, gd, gp = L.view(C)
  want = L.conv(dict(zip(keys1, ps)), dict(zip(keys2, qs)))
  L.check_same_masses(env, got, want, 'composition convolves')
  env.check_eq(1 - ginf, (1 - pinf) * (1 - qinf), 'infinite mass of composition')
  env.check_eq(gd, d, 'discretization kept')
  env.check(gp == pess, 'estimate direction kept')
  ma, ia, _, _ = L.view(A)
  mb, ib, _, _ = L.view(B)
  L.check_same_masses(env, ma, dict(zip(keys1, ps)), 'left operand unmodified')
  L.check_same_masses(env, mb, dict(zip(keys2, qs)), 'right operand unmodified')
  env.check_eq(ia, pinf, 'left infinite mass unmodified')
  env.check_eq(ib, qinf, 'right infinite mass unmodified')


def operands(env, kind, keys, keys2, pess, swap):
  """Composition with tail truncation leaves its operands as they were, so that
  a later composition of the same operand is still exact."""
  d = env.pos('d')
  t = env.real('t', lo=0, hi=1)
  ps, pinf = L.masses_in(env, 'p', len(keys))
  if len(keys2) == 1:
    qs, qinf = [1.0], 0.0
  else:
    qs, qinf = L.masses_in(env, 'q', len(keys2))
  A = L.make(env, kind, keys, ps, d, pinf, pess)
  B = L.make(env, kind, keys2, qs, d, qinf, pess)
  M = env.mod(L.PMF)
  if swap:
    M.compose_pmfs(B, A, t)
  else:
    M.compose_pmfs(A, B, t)
  L.check_same_masses(env, L.view(A)[0], dict(zip(keys, ps)), 'operand unmodified')
  L.check_same_masses(env, L.view(B)[0], dict(zip(keys2, qs)), 'other operand unmodified')
  env.check_eq(L.view(A)[1], pinf, 'operand infinite mass unmodified')
  got, ginf, _, _ = L.view(M.compose_pmfs(A, B))
  L.check_same_masses(env, got, L.conv(dict(zip(keys, ps)), dict(zip(keys2, qs))),
                      'composition after a truncated one convolves')
  env.check_eq(1 - ginf, (1 - pinf) * (1 - qinf), 'infinite mass after a truncated one')


def refuse(env, k1, k2):
  d = env.pos('d')
  d2 = env.pos('d2')
  env.assume(d2 != d)
  ps, pinf = L.masses_in(env, 'p', 2)
  m, M = env.mod(L.PLD), env.mod(L.PMF)
  A = L.make(env, k1, [0, 1], ps, d, pinf)
  B = L.make(env, k2, [0, 1], ps, d2, pinf)
  C = L.make(env, k2, [0, 1], ps, d, pinf, False)
  for nm, X in (('discretization', B), ('estimate direction', C)):
    env.check(env.raises(lambda: M.compose_pmfs(A, X), ValueError) is not None,
              'different %s refused by compose_pmfs' % nm)
    env.check(env.raises(lambda: m.PrivacyLossDistribution(A).compose(
        m.PrivacyLossDistribution(X)), ValueError) is not None,
              'different %s refused by PLD compose' % nm)
    env.check(env.raises(
        lambda: A.get_delta_for_epsilon_for_composed_pld(X, 1.0), ValueError)
              is not None, 'different %s refused by composed delta' % nm)
    if k1 == k2:
      env.check(env.raises(lambda: m.PrivacyLossDistribution(A).validate_composable(
          m.PrivacyLossDistribution(X)), ValueError) is not None,
                'different %s refused by validate_composable' % nm)


def cases(tier):
  out = []
  K = [('a', [0, 1], [-1, 0, 1]), ('b', [-2, 1], [0, 3]), ('c', [5], [-7, -6, -4])]
  if tier == 'thorough':
    K += [('d', [-2, -1, 0, 1], [0, 1, 2, 3]), ('e', [0, 10], [0, 10, 20]),
          ('f', [-1, 0, 1, 4], [-3, 2, 5, 6])]
  for nm, a, b in K:
    for k1 in ('sparse', 'dense'):
      for k2 in ('sparse', 'dense'):
        out.append(Case('pmf-%s-%s-%s' % (nm, k1, k2), comp, kw=dict(
            k1=k1, k2=k2, keys1=a, keys2=b, via='pmf')))
      out.append(Case('direct-%s-%s' % (nm, k1), comp, kw=dict(
          k1=k1, k2=k1, keys1=a, keys2=b, via='direct')))
    out.append(Case('switch-%s' % nm, comp, constants=SMALL, kw=dict(
        k1='sparse', k2='sparse', keys1=a, keys2=b, via='pmf')))
    out.append(Case('pld-%s' % nm, comp, kw=dict(
        k1='sparse', k2='sparse', keys1=a, keys2=b, via='pld')))
  for kind in ('dense', 'sparse'):
    for pess in (True, False):
      for nm, keys2 in (('identity', [0]), ('point', [2]), ('two', [-1, 0])):
        for swap in (False, True):
          if nm == 'two' and (swap or tier == 'quick'):
            continue
          out.append(Case('operands-%s-%s-%s-%s' % (kind, nm, pess, swap), operands,
                          kw=dict(kind=kind, keys=[-1, 0, 1] if nm != 'two' else [0, 1],
                                  keys2=keys2, pess=pess, swap=swap)))
  for k1 in ('sparse', 'dense'):
    for k2 in ('sparse', 'dense'):
      out.append(Case('refuse-%s-%s' % (k1, k2), refuse, kw=dict(k1=k1, k2=k2)))
  return out
