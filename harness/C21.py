"""C21: the two directions of an asymmetric loss distribution."""
from se import core
from se.runner import Case
from harness import pldlib as L
from harness.C18 import power

FUNCTIONS = ['privacy_loss_distribution.PrivacyLossDistribution.compose',
             'privacy_loss_distribution.PrivacyLossDistribution.self_compose',
             'privacy_loss_distribution.PrivacyLossDistribution.get_delta_for_epsilon',
             'privacy_loss_distribution.PrivacyLossDistribution.get_epsilon_for_delta',
             'privacy_loss_distribution.PrivacyLossDistribution.create_from_rounded_probability',
             'privacy_loss_distribution.identity']
BOUNDS = ['two losses per direction, up to 3-fold self-composition; all masses, '
          'discretization, epsilon and delta symbolic']


def mk(env, nm, kind, sym, d, keys=(0, 1), keys2=(-1, 1)):
  m = env.mod(L.PLD)
  a, ai = L.masses_in(env, nm, 2)
  A = L.make(env, kind, list(keys), a, d, ai)
  ra = dict(zip(keys, a))
  if sym:
    return m.PrivacyLossDistribution(A), (ra, ai, ra, ai)
  b, bi = L.masses_in(env, nm + 'x', 2)
  B = L.make(env, kind, list(keys2), b, d, bi)
  return m.PrivacyLossDistribution(A, B), (ra, ai, dict(zip(keys2, b)), bi)


def directions(env, Z):
  return L.view(Z._pmf_remove), L.view(Z._pmf_add)


def expect(env, Z, rem, ri, add, ai, tag):
  (gr, gri, _, _), (ga, gai, _, _) = directions(env, Z)
  L.check_same_masses(env, gr, rem, tag + ' remove direction')
  L.check_same_masses(env, ga, add, tag + ' add direction')
  env.check_eq(gri, ri, tag + ' remove infinite mass')
  env.check_eq(gai, ai, tag + ' add infinite mass')


def compose(env, k1, k2, s1, s2):
  d = env.pos('d')
  X, (a, ai, b, bi) = mk(env, 'p', k1, s1, d)
  Y, (c, ci, e, ei) = mk(env, 'q', k2, s2, d)
  Z = X.compose(Y, 0)
  expect(env, Z, L.conv(a, c), ai + ci - ai * ci, L.conv(b, e), bi + ei - bi * ei, 'composed')
  env.check(bool(Z._symmetric) == (s1 and s2), 'symmetric only if both are')


def selfc(env, kind, sym, n):
  d = env.pos('d')
  X, (a, ai, b, bi) = mk(env, 'p', kind, sym, d)
  env.assume(ai < 1)
  env.assume(bi < 1)
  Z = X.self_compose(n, 0)
  expect(env, Z, power(a, n), 1 - (1 - ai)**n, power(b, n), 1 - (1 - bi)**n, 'self-composed')
  env.check(bool(Z._symmetric) == sym, 'symmetry kept')


def worse(env, kind):
  d = env.pos('d')
  X, (a, ai, b, bi) = mk(env, 'p', kind, False, d)
  eps = env.real('eps')
  ra, rb = L.hs(env, a, ai, d, eps), L.hs(env, b, bi, d, eps)
  got = X.get_delta_for_epsilon(eps)
  env.check_eq(got, ra if env.fork(ra >= rb) else rb, 'delta is the worse direction')
  delta = env.prob('delta')
  e = X.get_epsilon_for_delta(delta)
  m = env.mod(L.PLD)
  e1 = m.PrivacyLossDistribution(X._pmf_remove).get_epsilon_for_delta(delta)
  e2 = m.PrivacyLossDistribution(X._pmf_add).get_epsilon_for_delta(delta)
  if core.is_inf(e1) or core.is_inf(e2):
    env.check(core.is_inf(e), 'epsilon infinite if a direction is')
  else:
    env.check_eq(e, e1 if env.fork(e1 >= e2) else e2, 'epsilon is the worse direction')


def ident(env, kind, sym):
  d = env.pos('d')
  X, (a, ai, b, bi) = mk(env, 'p', kind, sym, d)
  I = env.mod(L.PLD).identity(d)
  expect(env, X.compose(I, 0), a, ai, b, bi, 'identity right')
  expect(env, I.compose(X, 0), a, ai, b, bi, 'identity left')
  env.check(bool(I._symmetric), 'identity symmetric')
  env.check_eq(I.get_epsilon_for_delta(0), 0, 'identity has epsilon zero')
  env.check_eq(I.get_delta_for_epsilon(0), 0, 'identity has delta zero')


def created(env):
  d = env.pos('d')
  a, ai = L.masses_in(env, 'p', 2)
  b, bi = L.masses_in(env, 'q', 2)
  P = env.mod(L.PLD).PrivacyLossDistribution
  pess = env.bool('pess')
  Z = P.create_from_rounded_probability({0: a[0], 1: a[1]}, ai, d, pess,
                                        {-1: b[0], 1: b[1]}, bi, symmetric=False)
  expect(env, Z, {0: a[0], 1: a[1]}, ai, {-1: b[0], 1: b[1]}, bi, 'created')
  env.check(not Z._symmetric, 'asymmetric')
  for z in directions(env, Z):
    env.check(z[3] == pess, 'direction of rounding kept')
    env.check_eq(z[2], d, 'interval kept')
  S = P.create_from_rounded_probability({0: a[0], 1: a[1]}, ai, d, pess)
  expect(env, S, {0: a[0], 1: a[1]}, ai, {0: a[0], 1: a[1]}, ai, 'created symmetric')
  env.check(bool(S._symmetric), 'symmetric')
  env.check(env.raises(lambda: P.create_from_rounded_probability(
      {0: a[0]}, ai, d, pess, {0: b[0]}, bi, symmetric=True), ValueError) is not None,
            'add details refused when symmetric')
  for x, y in (({0: b[0]}, None), (None, bi), (None, None)):
    env.check(env.raises(lambda: P.create_from_rounded_probability(
        {0: a[0]}, ai, d, pess, x, y, symmetric=False), ValueError) is not None,
              'missing add details refused when asymmetric')


def cases(tier):
  out = []
  for s1 in (True, False):
    for s2 in (True, False):
      for k1, k2 in (('sparse', 'sparse'), ('dense', 'dense'), ('sparse', 'dense'),
                     ('dense', 'sparse')):
        out.append(Case('compose-%d%d-%s-%s' % (s1, s2, k1, k2), compose, kw=dict(
            k1=k1, k2=k2, s1=s1, s2=s2)))
  for kind in ('sparse', 'dense'):
    for sym in (True, False):
      for n in ((2, 3) if tier == 'quick' else (2, 3, 4, 5)):
        out.append(Case('self-%s-%d-%d' % (kind, sym, n), selfc, kw=dict(
            kind=kind, sym=sym, n=n)))
      out.append(Case('ident-%s-%d' % (kind, sym), ident, kw=dict(kind=kind, sym=sym)))
    out.append(Case('worse-%s' % kind, worse, kw=dict(kind=kind)))
  out.append(Case('created', created))
  return out
