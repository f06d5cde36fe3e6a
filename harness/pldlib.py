"""Shared pieces of the privacy-loss-distribution harnesses."""
import math

from se import core

PMF = 'dp_accounting.pld.pld_pmf'
PLD = 'dp_accounting.pld.privacy_loss_distribution'
MECH = 'dp_accounting.pld.privacy_loss_mechanism'
COMMON = 'dp_accounting.pld.common'
ACC = 'dp_accounting.pld.accountant'


def masses_in(env, name, n, full=True, positive=False):
  """n non-negative masses and an infinite mass; sum one (or at most one)."""
  ps = [env.real('%s%d' % (name, i), lo=0, lo_open=positive) for i in range(n)]
  tot = 0
  for p in ps:
    tot = tot + p
  if full:
    inf = 1 - tot
    env.assume(inf >= 0)
    if not env.symbolic:
      inf = max(inf, 0.0)
  else:
    inf = env.real(name + '_inf', lo=0)
    env.assume(inf + tot <= 1)
  return ps, inf


def dense(env, ps, lower, d, inf, pess=True):
  m = env.mod(PMF)
  return m.DensePLDPmf(d, lower, env.np.array(list(ps)), inf, pess)


def sparse(env, dic, d, inf, pess=True):
  m = env.mod(PMF)
  return m.SparsePLDPmf(dict(dic), d, inf, pess)


def make(env, kind, keys, ps, d, inf, pess=True):
  """keys ascending ints; dense fills the gaps with zeros."""
  if kind == 'sparse':
    return sparse(env, dict(zip(keys, ps)), d, inf, pess)
  dd = dict(zip(keys, ps))
  full = [dd.get(k, 0.0) for k in range(keys[0], keys[-1] + 1)]
  return dense(env, full, keys[0], d, inf, pess)


def view(pmf):
  """(masses by key, infinite mass, discretization, pessimistic)."""
  if hasattr(pmf, '_loss_probs'):
    m = dict(pmf._loss_probs)
  else:
    m = {pmf._lower_loss + i: p for i, p in enumerate(list(pmf._probs))}
  return ({int(k): v for k, v in m.items()}, pmf._infinity_mass,
          pmf._discretization, pmf._pessimistic_estimate)


def hs(env, masses, inf, d, eps):
  """Hockey-stick divergence of a loss distribution (definition)."""
  if core.is_inf(eps):
    if eps > 0:
      return inf
    tot = inf
    for k in sorted(masses):
      tot = tot + masses[k]
    return tot
  tot = inf
  for k in sorted(masses):
    if env.fork(k * d > eps):
      tot = tot + masses[k] * (1 - env.exp(eps - k * d))
  return tot


def hs_at_grid(env, masses, inf, d, j):
  """Same at eps = j*d, no branching needed."""
  tot = inf
  for k in sorted(masses):
    if k > j:
      tot = tot + masses[k] * (1 - env.exp((j - k) * d))
  return tot


def check_same_masses(env, got, want, label, tol=None):
  for k in sorted(set(got) | set(want)):
    env.check_eq(got.get(k, 0), want.get(k, 0), '%s [loss %d]' % (label, k), tol)


def conv(a, b):
  r = {}
  for i, x in a.items():
    for j, y in b.items():
      r[i + j] = r.get(i + j, 0) + x * y
  return r


def total(masses):
  t = 0
  for k in sorted(masses):
    t = t + masses[k]
  return t
