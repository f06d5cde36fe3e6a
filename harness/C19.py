"""C19: truncation keeps estimates on the safe side."""
from se import core
from se.runner import Case
from harness import pldlib as L
from harness.C18 import power

FUNCTIONS = ['pld_pmf._truncate_tails', 'pld_pmf.DensePLDPmf.compose',
             'pld_pmf.SparsePLDPmf.compose', 'pld_pmf.DensePLDPmf.self_compose',
             'pld_pmf.SparsePLDPmf.self_compose', 'common.compute_self_convolve_bounds',
             'common.self_convolve']
BOUNDS = ['lists of up to 4 masses truncated (3-fold compositions of two losses); masses, '
          'truncation budget and discretization symbolic; the comparison is made at every '
          'grid epsilon and at minus infinity, which decides all epsilons because both '
          'divergences are linear in exp(epsilon) between grid points',
          'self-composition of dense distributions: Chernoff bounds replaced by their '
          'contract (mass outside at most the budget), the contract itself decided for '
          'explicit order lists on lists of two and three masses']


def compare(env, got, ginf, want, winf, d, t, pess, slack=1, fall=True):
  ks = sorted(set(got) | set(want)) or [0]
  for j in range(ks[0] - 1, ks[-1] + 1):
    a = L.hs_at_grid(env, got, ginf, d, j)
    b = L.hs_at_grid(env, want, winf, d, j)
    if pess:
      env.check_le(b, a, 'pessimistic delta does not decrease')
      env.check_le(a, b + slack * t, 'pessimistic delta rises by at most the budget')
    else:
      env.check_le(a, b, 'optimistic delta does not increase')
      if fall:
        env.check_le(b - slack * t, a, 'optimistic delta falls by at most the budget')


def compose(env, kind, keys, keys2, pess, tiny=False):
  d = env.pos('d')
  t = env.real('t', lo=0, hi=1)
  ps, pinf = L.masses_in(env, 'p', len(keys))
  if keys2 is None:
    keys2, qs, qinf = [0], [1.0], 0.0
  else:
    qs, qinf = L.masses_in(env, 'q', len(keys2))
  A = L.make(env, kind, keys, ps, d, pinf, pess)
  B = L.make(env, kind, keys2, qs, d, qinf, pess)
  C = env.mod(L.PMF).compose_pmfs(A, B, t)
  got, ginf, gd, gp = L.view(C)
  want = L.conv(dict(zip(keys, ps)), dict(zip(keys2, qs)))
  winf = pinf + qinf - pinf * qinf
  compare(env, got, ginf, want, winf, d, t, pess)
  if pess:
    env.check_eq(L.total(got) + ginf, 1, 'total probability stays one')
  for k in got:
    env.check_le(0, got[k], 'masses non-negative')
  env.check_eq(gd, d, 'discretization kept')
  env.check(gp == pess, 'direction kept')
  L.check_same_masses(env, L.view(A)[0], dict(zip(keys, ps)), 'left operand unmodified')
  L.check_same_masses(env, L.view(B)[0], dict(zip(keys2, qs)), 'right operand unmodified')


def self_sparse(env, keys, n, pess):
  d = env.pos('d')
  t = env.real('t', lo=0, hi=1)
  ps, pinf = L.masses_in(env, 'p', len(keys))
  A = L.make(env, 'sparse', keys, ps, d, pinf, pess)
  C = A.self_compose(n, t)
  got, ginf, _, _ = L.view(C)
  want = power(dict(zip(keys, ps)), n)
  compare(env, got, ginf, want, 1 - (1 - pinf)**n, d, t, pess)
  if pess:
    env.check_eq(L.total(got) + ginf, 1, 'total probability stays one')


def self_dense(env, keys, n, pess=True):
  d = env.pos('d')
  ps, pinf = L.masses_in(env, 'p', len(keys))
  env.assume(pinf < 1)
  t = env.real('t', lo=0, hi=1)
  size = keys[-1] - keys[0]
  want = power(dict(zip(keys, ps)), n)
  cm = env.mod(L.COMMON)
  seen = []
  lb = env.choice('lb', list(range(0, size * n + 1)))
  ub = env.choice('ub', list(range(0, size * n + 1)))
  env.assume(lb <= ub)
  out = 0
  for k in want:
    if not lb <= k - n * keys[0] <= ub:
      out = out + want[k]
  env.assume(out <= t)

  def bounds(input_list, num_times, tail_mass_truncation=0, orders=None):
    seen.append(1)
    env.check(num_times == n, 'bounds asked for the right count')
    env.check_le(tail_mass_truncation, t, 'bounds asked for the given budget')
    return lb, ub
  cm.compute_self_convolve_bounds = bounds
  A = L.make(env, 'dense', keys, ps, d, pinf, pess)
  C = A.self_compose(n, t)
  if not seen:
    raise core.Inconclusive('truncation bounds are computed elsewhere')
  got, ginf, _, _ = L.view(C)
  # mass outside the bounds may wrap around into the window: allowed once more
  compare(env, got, ginf, want, 1 - (1 - pinf)**n, d, t, pess, slack=2, fall=n + size < 4)
  if pess:
    env.check_le(1, L.total(got) + ginf, 'total probability at least one')
  for k in got:
    env.check_le(0, got[k], 'masses non-negative')
  env.check_le(L.total(got) + ginf, 1 + t, 'total probability at most one plus budget')


def chernoff(env, m, n, orders):
  ps = env.probs('p', m, positive=True)
  t = env.real('t', lo=0, hi=1, lo_open=True, hi_open=True)
  cm = env.mod(L.COMMON)
  lb, ub = cm.compute_self_convolve_bounds(
      ps if env.symbolic else list(ps), n, t,
      [env.num(o) for o in orders] if not env.symbolic else list(orders))
  want = power(dict(enumerate(ps)), n)
  lo = hi = 0
  for k in want:
    if k < lb:
      lo = lo + want[k]
    if k > ub:
      hi = hi + want[k]
  env.check_le(lo, t / 2, 'mass below the lower bound within half the budget')
  env.check_le(hi, t / 2, 'mass above the upper bound within half the budget')


def default_orders(env):
  """Orders used by default: each has the sign its bound needs."""
  ps = [env.real('p', lo=0, lo_open=True, hi=1, hi_open=True)]
  ps.append(1 - ps[0])
  cm = env.mod(L.COMMON)
  lb, ub = cm.compute_self_convolve_bounds(ps, 3, 0)
  env.check(lb == 0 and ub == 3, 'no truncation gives the full range')


def cases(tier):
  out = []
  for kind in ('dense', 'sparse'):
    for pess in (True, False):
      nm = '%s-%s' % (kind, 'pess' if pess else 'opt')
      out.append(Case('list-' + nm, compose, kw=dict(
          kind=kind, keys=[-1, 0, 1], keys2=None, pess=pess)))
      out.append(Case('gap-' + nm, compose, kw=dict(
          kind=kind, keys=[-1, 2], keys2=None, pess=pess)))
      out.append(Case('conv-' + nm, compose, kw=dict(
          kind=kind, keys=[0, 1], keys2=[-1, 0], pess=pess)))
      if tier == 'thorough':
        out.append(Case('list4-' + nm, compose, kw=dict(
            kind=kind, keys=[-1, 0, 1, 2], keys2=None, pess=pess)))
  for pess in (True, False):
    out.append(Case('selfsparse-%s' % pess, self_sparse, opts=dict(obl_ms=90000), kw=dict(
        keys=[-1, 1], n=2, pess=pess)))
    if tier == 'thorough':
      out.append(Case('selfsparse3-%s' % pess, self_sparse, kw=dict(
          keys=[-1, 1], n=3, pess=pess)))
  for pess in (True, False):
    for nm, keys, n in (('2', [0, 1], 2), ('3', [-1, 0], 3), ('22', [-1, 0, 1], 2)):
      if tier == 'quick' and nm == '22' and not pess:
        continue
      out.append(Case('selfdense-%s-%s' % (nm, pess), self_dense,
                      kw=dict(keys=keys, n=n, pess=pess)))
  for m, n in ((2, 2), (2, 3), (3, 2)):
    for o in ([1], [-1], [2, -2], [0.5, 1]):
      if tier == 'quick' and m + n > 4 and len(o) > 1:
        continue
      out.append(Case('chernoff-%d-%d-%s' % (m, n, '_'.join(map(str, o))), chernoff,
                      kw=dict(m=m, n=n, orders=o), opts=dict(lazy_int=True)))
  out.append(Case('notrunc', default_orders))
  return out
