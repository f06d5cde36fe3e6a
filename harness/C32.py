"""C32: private clustering never spends more than its privacy budget."""
import inspect
import math
from se import core
from se.runner import Case
from harness import acclib, clulib as K
from harness.rnglib import Draws

FUNCTIONS = ['privacy_calculator.PrivacyCalculator / validate_accounting / make_clustering_event '
             '/ make_clustering_event_from_param / get_alpha_interval',
             'PrivacyCalculatorMultiplier', 'clustering_algorithm.private_lsh_clustering (what is '
             'drawn)']
BOUNDS = ['targets, radius, multipliers and calibrated parameter symbolic; tree depth 0 to 3 '
          '(quick) / 0 to 20; whole algorithm: 1 to 2 points, depth 1 to 2']
ASSUMPTIONS = ['calibration returns a parameter whose event the accountant approves within the '
               'target (C06); the accountant returns arbitrary epsilon and delta']
EV = 'dp_accounting.dp_event'


def parts(env, event):
  """(noise multipliers of the sums, of the counts, number of non-private parts)."""
  ev = env.event()
  sums, counts, free, other = [], [], 0, []
  for e in acclib.flatten(ev, event):
    if isinstance(e, ev.GaussianDpEvent):
      sums.append(e.noise_multiplier)
    elif isinstance(e, ev.LaplaceDpEvent):
      counts.append(('laplace', e.noise_multiplier))
    elif type(e).__name__ == 'DiscreteLaplaceDpEvent':
      counts.append(('dlaplace', e.noise_parameter))
    elif isinstance(e, ev.NonPrivateDpEvent):
      free += 1
    else:
      other.append(e)
  return sums, counts, free, other


def matches(env, event, std, radius, lap, depth, label):
  """The event is one sum with deviation std and depth+1 counts of parameter lap."""
  sums, counts, free, other = parts(env, event)
  if other:
    raise core.Inconclusive('event of a kind the harness does not know')
  no_sum = not core.sym(std) and std == 0
  no_count = not core.sym(lap) and lap == math.inf
  env.check(free == 0 or no_sum or no_count, label + ': accounted as private')
  if no_sum or no_count:
    env.check(free > 0, label + ': missing noise is accounted as no privacy')
    return
  env.check(len(sums) == 1, label + ': one sum per point')
  env.check_eq(sums[0] * radius, std, label + ': noise of the sum')
  env.check(len(counts) == depth + 1, label + ': one count per level')
  for k, c in counts:
    if k == 'laplace':
      env.check_eq(c * lap, 1, label + ': noise of the counts')
    else:
      env.check_eq(c, lap, label + ': noise of the counts')


def multipliers(env):
  P = env.mod(K.PARAMS)
  return P.PrivacyCalculatorMultiplier(env.pos('mg'), env.pos('ml'))


def stub_calibration(env, alpha):
  C = env.mod(K.CALC)
  MC = env.mod('dp_accounting.mechanism_calibration')
  sig = inspect.signature(MC.calibrate_dp_mechanism)
  calls = []

  def calibrate(*a, **k):
    b = sig.bind(*a, **k)
    b.apply_defaults()
    calls.append(b.arguments)
    return alpha
  C.mechanism_calibration.calibrate_dp_mechanism = calibrate
  A = env.mod('dp_accounting.pld.accountant')
  A.get_smallest_gaussian_noise = lambda *a, **k: env.pos('all_std')
  return calls


def approve(env, depth):
  """The noise handed out is that of the approved event."""
  C = env.mod(K.CALC)
  P = env.mod(K.PARAMS)
  eps, delta = env.pos('eps'), env.real('delta', lo=0, hi=1, hi_open=True)
  radius, alpha = env.pos('radius'), env.pos('alpha')
  calls = stub_calibration(env, alpha)
  pc = C.PrivacyCalculator(P.DifferentialPrivacyParam(eps, delta), radius, depth, multipliers(env))
  if len(calls) != 1:
    raise core.Inconclusive('the noise is not calibrated where the harness looks')
  c = calls[0]
  env.check_eq(c['target_epsilon'], eps, 'calibrated for the target epsilon')
  env.check_eq(c['target_delta'], delta, 'calibrated for the target delta')
  acc = c['make_fresh_accountant']()
  PA = env.mod('dp_accounting.pld.pld_privacy_accountant')
  if not isinstance(acc, PA.PLDAccountant):
    raise core.Inconclusive('calibrated with another accountant')
  env.check(acc.neighboring_relation.name == 'ADD_OR_REMOVE_ONE', 'accounted for adding or removing a point')
  s = pc.average_privacy_param
  env.check_eq(s.sensitivity, radius, 'sensitivity of the sums is the radius')
  env.check(s.gaussian_standard_deviation > 0, 'sums are noised')
  env.check(pc.count_privacy_param.laplace_param > 0, 'counts are noised')
  env.check(not (not core.sym(pc.count_privacy_param.laplace_param) and
                 pc.count_privacy_param.laplace_param == math.inf), 'counts are noised')
  matches(env, c['make_event_from_param'](alpha), s.gaussian_standard_deviation, radius,
          pc.count_privacy_param.laplace_param, depth, 'approved event')
  # more noise for a larger parameter: calibration looks for the smallest one
  m2 = parts(env, c['make_event_from_param'](2 * alpha))
  m1 = parts(env, c['make_event_from_param'](alpha))
  env.check_lt(m1[0][0], m2[0][0], 'noise grows with the parameter')


def free(env, depth):
  """Infinite targets alone disable noise."""
  C = env.mod(K.CALC)
  P = env.mod(K.PARAMS)
  eps = env.choice('eps', [math.inf, 3.0])
  delta = env.choice('delta', [0.0, 0.5, 1.0, 2.0])
  calls = stub_calibration(env, env.pos('alpha'))
  pc = C.PrivacyCalculator(P.DifferentialPrivacyParam(eps, delta), env.pos('radius'), depth,
                           multipliers(env))
  s, l = pc.average_privacy_param.gaussian_standard_deviation, pc.count_privacy_param.laplace_param
  none = (not core.sym(s) and s == 0) or (not core.sym(l) and l == math.inf)
  env.check(none == (eps == math.inf or delta >= 1), 'noise disabled exactly for infinite targets')
  env.check(pc.average_privacy_param.sensitivity > 0, 'sensitivity kept')


def validate(env, depth, noise):
  """Parameters over the budget are rejected."""
  C = env.mod(K.CALC)
  P = env.mod(K.PARAMS)
  U = env.mod(K.UTILS)
  eps, delta = env.pos('eps'), env.real('delta', lo=0, hi=1, hi_open=True)
  radius = env.pos('radius')
  calls = stub_calibration(env, env.pos('alpha'))
  pc = C.PrivacyCalculator(P.DifferentialPrivacyParam(eps, delta), radius, depth, multipliers(env))
  std = 0 if noise == 'nosum' else env.pos('std')
  lap = math.inf if noise == 'nocount' else env.pos('lap')
  pc.average_privacy_param = U.AveragePrivacyParam(std, radius)
  pc.count_privacy_param = U.CountPrivacyParam(lap)
  over_e, over_d = env.bool('over_e'), env.bool('over_d')
  e, d = env.real('acc_eps', lo=0), env.real('acc_delta', lo=0, hi=1)
  env.assume(e > eps if over_e else e <= eps)
  env.assume(d > delta if over_d else d <= delta)
  made = []

  class Acc:
    def __init__(self, *a, **k):
      self.events = []
      self.args = (a, k)
      made.append(self)

    def compose(self, event, count=1):
      self.events += [event] * count
      return self

    def get_epsilon(self, target_delta):
      env.check_eq(target_delta, delta, 'checked at the target delta')
      return e

    def get_delta(self, target_epsilon):
      env.check_eq(target_epsilon, eps, 'checked at the target epsilon')
      return d
  C.pld_privacy_accountant.PLDAccountant = Acc
  r = env.raises(lambda: pc.validate_accounting(P.DifferentialPrivacyParam(eps, delta), depth),
                 ValueError)
  env.check((r is not None) == (over_e or over_d), 'rejected exactly when over the budget')
  if not made:
    raise core.Inconclusive('not validated with the accountant')
  ev = env.event()
  matches(env, ev.ComposedDpEvent(made[-1].events), std, radius, lap, depth, 'validated event')
  env.check(env.raises(lambda: pc.validate_accounting(
      P.DifferentialPrivacyParam(math.inf, delta), depth), ValueError) is None,
            'nothing to check for infinite targets')


def inverse(env):
  """The parameter for a deviation gives that deviation."""
  m = multipliers(env)
  s, r = env.pos('s'), env.pos('r')
  env.check_eq(m.get_gaussian_std_dev(m.get_alpha(s, r), r), s, 'inverse of the deviation')


def whole(env, m, depth, given_tree, chain=False):
  """Draws made by the algorithm: each point in one sum and one count per level at most."""
  kk = {}

  def counts(i, n):
    if chain:
      return 30 if n >= 1 else -30     # follows the points to the last level
    if not given_tree and i > 4:
      return -5       # ends the branch
    return env.int('noise%d' % i, 0, 1) * 3 - (1 if i % 2 else 0)
  d, data, res, sums, ap = K.run(env, m, 1, given_tree, depth=depth, sums_noise=False,
                                 counts=counts, thr=(1, 2),
                                 x=env.np.array([[0.25 * (-1)**i * (i + 1)] for i in range(m)]))
  pc = K.run.calc
  pp, radius, md, mult = pc.args
  env.check(pp is K.run.param or (pp.epsilon is K.run.param.epsilon and
                                  pp.delta is K.run.param.delta), 'noise for the target')
  env.check_eq(radius, data.radius, 'noise for the radius')
  env.check(bool(pc.ok), 'budget validated')
  if pc.ok:
    v = pc.ok[0]
    env.check_eq(v[0].epsilon, K.run.param.epsilon, 'validated for the target')
    env.check_eq(v[0].delta, K.run.param.delta, 'validated for the target')
    env.check(v[1] == md, 'validated for the same depth')
    env.check(v[2] == 0, 'validated before anything is drawn')
  if given_tree:
    env.check(md >= depth, 'accounted for the depth of the tree')
  lap = [w for w in d.log if w.kind == 'dlaplace']
  for w in lap:
    env.check_eq(w.scale, K.run.lap, 'counts noised as handed out')
  env.check(all(w.kind in ('dlaplace', 'hash') for w in d.log), 'no other draws')
  for p in K.run.sum_params:
    env.check_eq(p.gaussian_standard_deviation, K.run.std, 'sums noised as handed out')
  total = sum(len(s) for s in sums)
  env.check(total <= m, 'each point in at most one sum')
  # a perfect binary tree: one count for the root, two per branching node
  env.check(len(lap) <= 2**(md + 1) - 1 if md < 10 else True, 'one count per node')
  for n in K.run.per_point:
    env.check(n <= md + 1, 'each point counted at most once per level')


def dominated(env, lo):
  """The count noise drawn costs no more than the accounted one."""
  C = env.mod(K.CALC)
  U = env.mod(K.UTILS)
  d = Draws(env)
  a = env.pos('a')
  env.assume(a <= 4)
  U.get_private_count(5, U.CountPrivacyParam(a))
  kind, p = d.log[0].kind, d.log[0].scale
  _, counts, _, _ = parts(env, C.make_clustering_event(env.pos('std'), a, 1.0, 0))
  # hockey-stick divergence at epsilon e < loss
  e = env.real('level', lo=0)
  env.assume(e <= a)

  def delta(kind, p):
    """p: largest loss."""
    if env.fork(e >= p):
      return 0
    if kind == 'laplace':
      return 1 - env.exp((e - p) / 2)
    return (1 - env.exp(e - p)) / (1 + env.exp(-p))
  drawn = delta(kind, p if kind == 'dlaplace' else 1 / p)
  k, c = counts[0]
  acc = delta(k, 1 / c if k == 'laplace' else c)
  env.check_le(drawn, acc, 'discrete Laplace counts cost no more than accounted')


def cases(tier):
  q = tier == 'quick'
  ds = (0, 1, 3) if q else (0, 1, 2, 3, 7, 20)
  out = [Case('inverse', inverse), Case('dominated', dominated, kw=dict(lo=0))]
  for n in ds:
    out.append(Case('approve-%d' % n, approve, kw=dict(depth=n)))
    for noise in ('', 'nosum', 'nocount'):
      out.append(Case('validate-%d-%s' % (n, noise), validate, kw=dict(depth=n, noise=noise)))
  out.append(Case('free', free, kw=dict(depth=2)))
  for m, dp in ((1, 1), (2, 1), (1, 2)) + (() if q else ((2, 2), (3, 1))):
    out.append(Case('whole-%d-%d' % (m, dp), whole, kw=dict(m=m, depth=dp, given_tree=True)))
  for m in (1, 2):
    out.append(Case('whole-default-%d' % m, whole, kw=dict(m=m, depth=0, given_tree=False)))
    out.append(Case('chain-default-%d' % m, whole, kw=dict(m=m, depth=0, given_tree=False,
                                                           chain=True)))
    out.append(Case('chain-3-%d' % m, whole, kw=dict(m=m, depth=3, given_tree=True, chain=True)))
  return out
