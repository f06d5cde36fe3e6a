"""C22: discretized loss distributions bound the true mechanism from the safe side."""
import math
from se import core
from se.runner import Case
from harness import pldlib as L

FUNCTIONS = ['privacy_loss_distribution.from_two_probability_mass_functions',
             'privacy_loss_distribution.from_randomized_response',
             'privacy_loss_distribution.from_privacy_parameters',
             'privacy_loss_distribution._create_pld_pmf_from_monotone_privacy_loss',
             'privacy_loss_distribution.create_from_cdf',
             'privacy_loss_distribution.from_laplace_mechanism',
             'PrivacyLossDistribution.create_from_rounded_probability', 'pld_pmf.create_pmf',
             'privacy_loss_distribution.from_{gaussian,discrete_laplace,discrete_gaussian,'
             'mixture_gaussian}_mechanism and the deprecated class methods of the same names']
BOUNDS = ['two distributions over up to 3 (quick) / 4 (thorough) common outcomes plus outcomes of '
          'one side only, losses within +-2 (3) intervals; randomized response over 2, 3 and 7 '
          'buckets with losses within 3 intervals; additive noise with an arbitrary increasing '
          'distribution function and a retained range of up to 3 (4) intervals, or up to 3 (4) '
          'discrete outputs; interval length, probabilities and epsilon symbolic',
          'constructors by mechanism: the mechanism class is replaced by one that records its '
          'arguments and has a single output per direction; every argument symbolic']
ASSUMPTIONS = ['A continuous mechanism is given by its loss and distribution function after '
               'reparametrising the output so that the loss is minus the output.']


def pos_part(env, atoms, inf, eps):
  """Hockey-stick divergence of losses with probabilities (definition)."""
  t = inf
  for u, l in atoms:
    if env.fork(l > eps):
      t = t + u * (1 - env.exp(eps - l))
  return t


def bounds(env, pld, h, pess, dirs, eps, what, shift=True):
  """dirs: list of (atoms, infinite mass); two-sided delta is the larger."""
  got = pld.get_delta_for_epsilon(eps)
  tr = [pos_part(env, a, i, eps) for a, i in dirs]
  if pess:
    for t in tr:
      env.check_le(t, got, '%s: pessimistic delta at least the true one' % what)
  else:
    ok = env.fork(got <= tr[0]) if len(tr) > 1 else False
    if not ok:
      env.check_le(got, tr[-1], '%s: optimistic delta at most the true one' % what)
  if not shift:
    return
  e2 = eps - h if pess else eps + h
  tr = [pos_part(env, a, i, e2) for a, i in dirs]
  if pess:
    ok = env.fork(got <= tr[0]) if len(tr) > 1 else False
    if not ok:
      env.check_le(got, tr[-1], '%s: losses moved by at most an interval' % what)
  else:
    for t in tr:
      env.check_le(t, got, '%s: losses moved by at most an interval' % what)


def sides(pld):
  a, b = pld._pmf_remove, pld._pmf_add
  return [a] if a is b else [a, b]


def mass(env, pld, totals, infs):
  """Nothing lost or created; infinite mass is the right one."""
  for p, t, i in zip((pld._pmf_remove, pld._pmf_add), totals, infs):
    m, inf, _, _ = L.view(p)
    env.check_eq(L.total(m) + inf, t, 'probability mass conserved')
    env.check_eq(inf, i, 'infinite-loss mass is the mass without counterpart')
    for k in m:
      env.check_le(0, m[k], 'masses non-negative')


def atoms_in(env, n, h, cells, name='u'):
  out = []
  for i in range(n):
    a = env.real('log%s%d' % (name, i), hi=0)
    l = env.real('l%s%d' % (name, i))
    env.assume(l <= cells * h)
    env.assume(l >= -cells * h)
    out.append((a, l))
  return out


def two(env, n, pess, sym, extra, cells):
  h = env.pos('h')
  at = atoms_in(env, n, h, cells)
  up = {i: a for i, (a, l) in enumerate(at)}
  lo = {i: a - l for i, (a, l) in enumerate(at)}
  iu = il = 0
  if 'u' in extra:
    a = env.real('only_up', hi=0)
    up['x'] = a
    iu = env.exp(a)
  if 'l' in extra:
    a = env.real('only_lo', hi=0)
    lo['y'] = a
    il = env.exp(a)
  if 'z' in extra:      # explicit zero probabilities
    up['z'] = -math.inf
    lo['z'] = env.real('z_lo', hi=0)
    il = il + env.exp(lo['z'])
    lo['w'] = -math.inf
    up['w'] = env.real('w_up', hi=0)
    iu = iu + env.exp(up['w'])
  P = env.mod(L.PLD)
  kw = {} if sym else dict(symmetric=False)
  pld = P.from_two_probability_mass_functions(lo, up, pess, h, **kw)
  eps = env.real('eps')
  U = [(env.exp(a), l) for a, l in at]
  D = [(env.exp(a - l), -l) for a, l in at]
  dirs = [(U, iu)] + ([] if sym else [(D, il)])
  if env.choice('what', ['mass', 'delta']) == 'mass':
    tot = [sum(u for u, _ in U) + iu]
    tot.append(tot[0] if sym else sum(u for u, _ in D) + il)
    mass(env, pld, tot, [iu, iu if sym else il])
    for p in sides(pld):
      env.check(L.view(p)[3] is pess, 'estimate direction kept')
      env.check_eq(L.view(p)[2], h, 'interval kept')
  else:
    bounds(env, pld, h, pess, dirs, eps, 'two distributions', sym or n == 1)


def grid(env, pess, ks):
  """Losses on the grid are reproduced exactly."""
  h = env.pos('h')
  logs = [env.real('log%d' % i, hi=0) for i in range(len(ks))]
  up = dict(enumerate(logs))
  lo = {i: logs[i] - k * h for i, k in enumerate(ks)}
  pld = env.mod(L.PLD).from_two_probability_mass_functions(lo, up, pess, h, symmetric=False)
  if not env.symbolic:
    # k*h/h in floats may round to either side of k
    h2 = [(logs[i] - lo[i]) / h for i in range(len(ks))]
    g2 = [(lo[i] - logs[i]) / h for i in range(len(ks))]
    if any(x != round(x) for x in h2 + g2):
      return
  want, wadd = {}, {}
  for k, a in zip(ks, logs):
    want[k] = want.get(k, 0) + env.exp(a)
    wadd[-k] = wadd.get(-k, 0) + env.exp(a - k * h)
  L.check_same_masses(env, L.view(pld._pmf_remove)[0], want, 'on-grid losses exact')
  L.check_same_masses(env, L.view(pld._pmf_add)[0], wadd, 'on-grid losses exact')


def truncation(env, pess):
  """Outcomes at or below the truncation bound go to infinity or are dropped."""
  h = env.pos('h')
  at = atoms_in(env, 2, h, 1)
  b = env.real('bound', hi=0)
  up = {i: a for i, (a, l) in enumerate(at)}
  lo = {i: a - l for i, (a, l) in enumerate(at)}
  pld = env.mod(L.PLD).from_two_probability_mass_functions(lo, up, pess, h, b)
  inf, keep = 0, []
  for a, l in at:
    if env.fork(a > b):
      keep.append((env.exp(a), l))
    elif pess:
      inf = inf + env.exp(a)
  t = sum(u for u, _ in keep) + inf
  mass(env, pld, [t, t], [inf, inf])
  bounds(env, pld, h, pess, [(keep, inf)], env.real('eps'), 'truncated')


def rr(env, k, pess, special):
  p = env.prob('p', True, True)
  h = env.pos('h')
  P = env.mod(L.PLD)
  N = env.mod('dp_accounting.privacy_accountant').NeighboringRelation
  k0, k = k, env.num(k)
  hit = 1 - p + p / k
  cells = 2 if special else 3
  if special:
    # input -> special: hit vs 1/k, other vs (k-1)/k ; and back
    l0, l1 = env.log(hit * k), env.log(p)
    dirs = [([(hit, l0), ((k - 1) * p / k, l1)], 0),
            ([(env.frac(1, k0), -l0), (env.frac(k0 - 1, k0), -l1)], 0)]
    env.assume(l0 <= cells * h)
    env.assume(l1 >= -cells * h)
  else:
    l0 = env.log(hit / (p / k))
    dirs = [([(hit, l0), (p / k, -l0)] + ([((k - 2) * p / k, 0)] if k0 > 2 else []), 0)]
    env.assume(l0 <= cells * h)
  pld = P.from_randomized_response(
      p, k, pess, h, N.REPLACE_SPECIAL if special else N.REPLACE_ONE)
  if env.choice('what', ['mass', 'delta']) == 'mass':
    mass(env, pld, [1, 1], [0, 0])
  else:
    bounds(env, pld, h, pess, dirs, env.real('eps'), 'randomized response', not special)


def rr_refuse(env):
  p = env.real('p')
  k = env.choice('k', [-1, 0, 1, 2, 3])
  N = env.mod('dp_accounting.privacy_accountant').NeighboringRelation
  n = env.choice('rel', list(N))
  P = env.mod(L.PLD)
  bad = not env.fork(p > 0) or not env.fork(p < 1)
  if not bad:
    env.assume(p >= 0.5)
  bad = bad or k < 2 or n == N.ADD_OR_REMOVE_ONE
  env.check((env.raises(lambda: P.from_randomized_response(
      p, k, True, 1.0, n), ValueError) is not None) == bad,
            'invalid noise, bucket count or relation refused')


def params(env):
  e0 = env.real('e0', lo=0)
  d0 = env.prob('d0')
  h = env.pos('h')
  env.assume(e0 <= 3 * h)
  c = env.mod(L.COMMON)
  pld = env.mod(L.PLD).from_privacy_parameters(c.DifferentialPrivacyParameters(e0, d0), h)
  E = env.exp(e0)
  hi = (1 - d0) * E / (1 + E)
  lo = (1 - d0) / (1 + E)
  if env.choice('what', ['mass', 'delta']) == 'mass':
    mass(env, pld, [1, 1], [d0, d0])
  else:
    bounds(env, pld, h, True, [([(hi, e0), (lo, -e0)], d0)], env.real('eps'),
           'stated guarantee')


def stub(env, discrete, loss, inverse, cdf, tail):
  M = env.mod(L.MECH)
  np = env.np

  class Stub(M.MonotonePrivacyLoss):
    def __init__(self):
      super().__init__(discrete)

    def _map(self, f, x):
      if isinstance(x, (list, tuple)) or getattr(x, 'ndim', 0):
        return np.array([f(y) for y in x])
      return f(x)

    def mu_upper_cdf(self, x):
      return self._map(cdf, x)

    def privacy_loss(self, x):
      return self._map(loss, x)

    def inverse_privacy_loss(self, v):
      return inverse(v)

    def privacy_loss_tail(self):
      return M.TailPrivacyLossDistribution(*tail)

    def mu_lower_log_cdf(self, x):
      raise NotImplementedError

    def get_delta_for_epsilon(self, x):
      raise NotImplementedError

    def connect_dots_bounds(self):
      raise NotImplementedError
  return Stub()


def build(env, mech, pess, h):
  """Through the constructor every additive-noise mechanism goes through."""
  P = env.mod(L.PLD)
  P.privacy_loss_mechanism.LaplacePrivacyLoss = lambda *a, **k: mech
  return P.from_laplace_mechanism(1.0, pessimistic_estimate=pess,
                                  value_discretization_interval=h, use_connect_dots=False)


def tailprob(env, pld, h, t):
  m, inf, _, _ = L.view(pld._pmf_remove)
  tot = inf
  for k in sorted(m):
    if env.fork(k * h >= t):
      tot = tot + m[k]
  return tot


def continuous(env, pess, cells, where):
  """Loss of output x is -x; arbitrary distribution function."""
  h = env.pos('h')
  a = env.real('a')
  b = env.real('b')
  env.assume(b - a > 0)
  env.assume(b - a <= cells * h)
  env.assume(a >= -3 * h if where == 'near' else a >= 4 * h)
  env.assume(a <= 1 * h if where == 'near' else a <= 6 * h)
  F = env.func('F', 'inc', lo=(0, True), hi=(1, True))
  fa, fb = F(a), F(b)
  up = math.inf if pess else -a
  lw = -b if pess else None
  tail = {up: fa}
  if lw is not None:
    tail[lw] = 1 - fb
  mech = stub(env, False, lambda x: -x, lambda v: -v, F, (a, b, tail))
  pld = build(env, mech, pess, h)
  m, inf, _, gp = L.view(pld._pmf_remove)
  env.check_eq(L.total(m) + inf, 1 if pess else fb, 'probability mass conserved')
  env.check_eq(inf, fa if pess else 0, 'infinite-loss mass is the upper tail')
  env.check(gp is pess, 'estimate direction kept')
  t = env.real('t')

  def true(t, strict=False):
    """P(L >= t) (or > t) of the mechanism with its tails replaced as stated."""
    if not env.fork(-t >= a):
      if pess:
        return fa
      if strict:
        return 0
      return fa if env.fork(t <= -a) else 0
    if not env.fork(-t <= b):
      return 1 if pess else fb
    if strict and pess and env.fork(-t == b):
      return fb
    if not strict and pess and env.fork(-t == b):
      return 1
    return F(-t)
  got = tailprob(env, pld, h, t)
  if pess:
    env.check_le(true(t), got, 'losses never rounded down (pessimistic)')
    env.check_le(got, true(t - h, True), 'losses rounded by less than an interval')
  else:
    env.check_le(got, true(t), 'losses never rounded up (optimistic)')
    env.check_le(true(t + h), got, 'losses rounded by less than an interval')


def discrete(env, pess, n):
  """Integer outputs 0..n-1 with arbitrary decreasing losses."""
  h = env.pos('h')
  ls = [env.real('l%d' % i) for i in range(n)]
  for x, y in zip(ls, ls[1:]):
    env.assume(x >= y)
  env.assume(ls[0] <= 2 * h)
  env.assume(ls[-1] >= -2 * h)
  ps = [env.real('p%d' % i, lo=0) for i in range(n)]
  below = env.real('below', lo=0)
  above = 1 - below - sum(ps)
  env.assume(above >= 0)
  cum = [below]
  for p in ps:
    cum.append(cum[-1] + p)

  def cdf(x):
    k = int(x)
    return cum[min(max(k + 1, 0), n)]
  tail = {math.inf if pess else ls[0]: below}
  if pess:
    tail[ls[-1]] = above
  frac = env.choice('frac', [0, 0.25])   # truncation points need not be integers
  mech = stub(env, True, lambda x: ls[int(x)], None, cdf, (-frac, n - 1 + frac, tail))
  pld = build(env, mech, pess, h)
  m, inf, _, _ = L.view(pld._pmf_remove)
  env.check_eq(L.total(m) + inf, 1 if pess else 1 - above, 'probability mass conserved')
  env.check_eq(inf, below if pess else 0, 'infinite-loss mass is the upper tail')
  atoms = list(zip(ps, ls)) + ([(above, ls[-1])] if pess else [(below, ls[0])])
  bounds(env, pld, h, pess, [(atoms, below if pess else 0)], env.real('eps'), 'discrete noise')


def from_cdf(env, pess, n):
  h = env.pos('h')
  ls = [env.real('l%d' % i) for i in range(n)]
  for l in ls:
    env.assume(l <= 2 * h)
    env.assume(l > -2 * h)
  ps = env.probs('p', n)
  tau = env.real('tau', lo=0, lo_open=True, hi=1)

  def cdf(x):
    t = 0
    for p, l in zip(ps, ls):
      if env.fork(l <= x):
        t = t + p
    return t
  pld = env.mod(L.PLD).create_from_cdf(cdf, pess, h, tau)
  bounds(env, pld, h, pess, [(list(zip(ps, ls)), 0)], env.real('eps'), 'distribution function',
         shift=False)
  m, inf, _, _ = L.view(pld._pmf_remove)
  env.check_le(L.total(m) + inf, 1 + tau, 'at most the truncation budget is added')
  env.check_le(1 - tau, L.total(m) + inf, 'at most the truncation budget is lost')


def laplace(env, pess, dots):
  """End to end: Laplace noise, loss range [-s/b, s/b]."""
  b = env.pos('b')
  h = env.pos('h')
  env.assume(1 <= (2 if pess else 1) * h * b)
  P = env.mod(L.PLD)
  pld = P.from_laplace_mechanism(b, pessimistic_estimate=pess, value_discretization_interval=h,
                                 use_connect_dots=dots)
  eps = env.real('eps')
  r = 1 / b

  def true(e):
    if env.fork(e >= r):
      return 0
    if env.fork(e <= -r):
      return 1 - env.exp(e)
    return 1 - env.exp((e - r) / 2)
  got = pld.get_delta_for_epsilon(eps)
  if pess:
    env.check_le(true(eps), got, 'Laplace: pessimistic delta at least the true one')
  else:
    env.check_le(got, true(eps), 'Laplace: optimistic delta at most the true one')
  m, inf, _, _ = L.view(pld._pmf_remove)
  env.check_eq(L.total(m) + inf, 1, 'probability mass conserved')


CONSTRUCTORS = {
    'laplace': ('LaplacePrivacyLoss', {'parameter': 'parameter', 'sensitivity': 'sensitivity'}),
    'gaussian': ('GaussianPrivacyLoss',
                 {'standard_deviation': 'standard_deviation', 'sensitivity': 'sensitivity',
                  'log_mass_truncation_bound': 'log_mass_truncation_bound'}),
    'discrete_laplace': ('DiscreteLaplacePrivacyLoss',
                         {'parameter': 'parameter', 'sensitivity': 'sensitivity'}),
    'discrete_gaussian': ('DiscreteGaussianPrivacyLoss',
                          {'sigma': 'sigma', 'sensitivity': 'sensitivity',
                           'truncation_bound': 'truncation_bound'}),
    'mixture_gaussian': ('MixtureGaussianPrivacyLoss',
                         {'standard_deviation': 'standard_deviation',
                          'sensitivities': 'sensitivities', 'sampling_probs': 'sampling_probs',
                          'log_mass_truncation_bound': 'log_mass_truncation_bound'})}


def construct(env, kind, deprecated):
  """A constructor hands its own arguments to the mechanism, in both directions."""
  import inspect
  M = env.mod(L.MECH)
  P = env.mod(L.PLD)
  cls, names = CONSTRUCTORS[kind]
  sig = inspect.signature(getattr(M, cls).__init__)
  J = M.AdjacencyType
  inf = {J.REMOVE: env.prob('inf_remove'), J.ADD: env.prob('inf_add')}
  at = {J.REMOVE: 1, J.ADD: 2}
  h = env.pos('h')
  seen, used = [], []

  class Stub(M.MonotonePrivacyLoss):
    """One output; its loss is on the grid and tells the direction."""

    def __init__(self, *a, **k):
      super().__init__(True)
      b = sig.bind(self, *a, **k)
      b.apply_defaults()
      self.adjacency_type = b.arguments['adjacency_type']
      self.k = at[self.adjacency_type]
      self.inf = inf[self.adjacency_type]
      seen.append(b.arguments)

    def _map(self, f, x):
      if isinstance(x, (list, tuple)) or getattr(x, 'ndim', 0):
        return env.np.array([f(y) for y in x])
      return f(x)

    def mu_upper_cdf(self, x):
      return self._map(lambda y: 1 if y >= 0 else self.inf, x)

    def privacy_loss(self, x):
      return self._map(lambda y: self.k * h, x)

    def inverse_privacy_loss(self, v):
      raise core.Inconclusive('loss inverted')

    def privacy_loss_tail(self):
      used.append('tail')
      return M.TailPrivacyLossDistribution(0, 0, {math.inf: self.inf})

    def mu_lower_log_cdf(self, x):
      raise core.Inconclusive('lower distribution asked')

    def get_delta_for_epsilon(self, x):
      return self._map(lambda y: self.inf, x)

    def connect_dots_bounds(self):
      used.append('dots')
      return M.ConnectDotsBounds(lower_x=0, upper_x=0)

  setattr(P.privacy_loss_mechanism, cls, Stub)
  fn = getattr(P.PrivacyLossDistribution if deprecated else P, 'from_%s_mechanism' % kind)
  pars = inspect.signature(fn).parameters
  given = {}
  for n in names:
    if n in ('sensitivities', 'sampling_probs'):
      given[n] = [env.real(n + '0'), env.real(n + '1')]
    elif pars[n].default is inspect.Parameter.empty or env.bool('give_' + n):
      given[n] = env.real(n)
  q = 1.0
  if 'sampling_prob' in pars and env.bool('give_sampling'):
    q = given['sampling_prob'] = env.real('q', lo=0, hi=1, lo_open=True, hi_open=True)
  pess = True
  if env.bool('give_pess'):
    pess = given['pessimistic_estimate'] = env.bool('pess')
  dots = None
  if 'use_connect_dots' in pars and env.bool('give_dots'):
    dots = given['use_connect_dots'] = env.bool('dots')
  given['value_discretization_interval'] = h
  pld = fn(**given)
  both = kind == 'mixture_gaussian' or 'sampling_prob' in given
  dirs = [J.REMOVE, J.ADD] if both else [J.REMOVE]
  if not both and len(seen) == 1:
    # without sampling the two directions are the same
    env.check(seen[0]['adjacency_type'] in (J.REMOVE, J.ADD), 'a direction is built')
    dirs = [seen[0]['adjacency_type']]
  else:
    env.check({a['adjacency_type'] for a in seen} >= set(dirs), 'both directions are built')
  default = {n: p.default for n, p in sig.parameters.items()}
  for a in seen:
    for n, m in names.items():
      x = a[m]
      if n not in given:
        env.check(x == default[m] or x == pars[n].default, '%s: default kept' % n)
      elif isinstance(given[n], list):
        env.check(len(x) == 2, '%s handed on' % n)
        for u, v in zip(x, given[n]):
          env.check_eq(u, v, '%s handed on' % n)
      else:
        env.check_eq(x, given[n], '%s handed on' % n)
    if 'sampling_prob' in a:
      env.check_eq(a['sampling_prob'], q, 'sampling probability handed on')
    if 'pessimistic_estimate' in a:
      env.check(bool(a['pessimistic_estimate']) == bool(pess), 'estimate handed on')
  for p, j in zip((pld._pmf_remove, pld._pmf_add), dirs if both else dirs * 2):
    m, i, d, e = L.view(p)
    env.check_eq(d, h, 'interval kept')
    env.check(bool(e) == bool(pess), 'estimate direction kept')
    env.check_eq(i, inf[j], 'infinite mass of its own direction')
    L.check_same_masses(env, m, {at[j]: 1 - inf[j]}, 'losses of its own direction')
  if dots is not None:
    env.check(('dots' in used) == bool(dots and pess), 'algorithm asked for is the one used')


def deprecated(env, name):
  """The deprecated class methods give what the functions give."""
  P = env.mod(L.PLD)
  c = env.mod(L.COMMON)
  h = env.pos('h')
  kw = dict(value_discretization_interval=h)
  pess = env.bool('pess')
  if name == 'identity':
    pass
  elif name == 'from_privacy_parameters':
    e0 = env.real('e0', lo=0)
    env.assume(e0 <= 2 * h)
    kw['privacy_parameters'] = c.DifferentialPrivacyParameters(e0, env.prob('d0'))
  elif name == 'from_randomized_response':
    env.assume(h >= 1)
    kw.update(noise_parameter=env.real('p', lo=0.3, hi=0.7), num_buckets=env.choice('k', [2, 3]),
              pessimistic_estimate=pess)
  elif name == 'from_two_probability_mass_functions':
    at = atoms_in(env, 2, h, 1)
    kw.update(log_probability_mass_function_upper={i: a for i, (a, l) in enumerate(at)},
              log_probability_mass_function_lower={i: a - l for i, (a, l) in enumerate(at)},
              pessimistic_estimate=pess)
    if env.bool('truncate'):
      kw['log_mass_truncation_bound'] = env.real('bound', hi=0)
  else:
    ls = [env.real('l0'), env.real('l1')]
    for l in ls:
      env.assume(l <= h)
      env.assume(l > -h)
    ps = env.probs('p', 2)

    def cdf(x):
      t = 0
      for p, l in zip(ps, ls):
        if env.fork(l <= x):
          t = t + p
      return t
    kw.update(cdf=cdf, pessimistic_estimate=pess)
    if env.bool('truncate'):
      kw['tail_mass_truncation'] = env.real('tau', lo=0, lo_open=True, hi=1)
  a = getattr(P.PrivacyLossDistribution, name)(**kw)
  b = getattr(P, name)(**kw)
  for x, y in ((a._pmf_remove, b._pmf_remove), (a._pmf_add, b._pmf_add)):
    (m1, i1, d1, p1), (m2, i2, d2, p2) = L.view(x), L.view(y)
    L.check_same_masses(env, m1, m2, name + ': same losses')
    env.check_eq(i1, i2, name + ': same infinite mass')
    env.check_eq(d1, d2, name + ': same interval')
    env.check(p1 == p2, name + ': same estimate')


def cases(tier):
  q = tier == 'quick'
  out = []
  for pess in (True, False):
    w = 'pess' if pess else 'opt'
    for n, sym, extra in ((1, True, 'ul'), (2, True, 'z'), (2, False, ''), (1, False, 'ulz'),
                          (3, True, '')) + (() if q else ((3, False, 'ul'), (4, True, 'z'))):
      out.append(Case('two-%s-%d%s-%s' % (w, n, '' if sym else '-asym', extra), two,
                      kw=dict(n=n, pess=pess, sym=sym, extra=extra,
                              cells=(2 if n < 3 and (sym or n < 2) else 1) if q else 2)))
    out.append(Case('grid-' + w, grid, kw=dict(pess=pess, ks=[-2, 0, 1, 1])))
    out.append(Case('truncation-' + w, truncation, kw=dict(pess=pess)))
    for k in (2, 3, 7):
      for sp in (False, True):
        out.append(Case('rr-%s-%d%s' % (w, k, '-special' if sp else ''), rr,
                        kw=dict(k=k, pess=pess, special=sp)))
    for wh in ('near', 'far'):
      out.append(Case('noise-%s-%s' % (w, wh), continuous,
                      kw=dict(pess=pess, cells=3 if q else 4, where=wh)))
    for n in (1, 2) if q else (1, 2, 3):
      out.append(Case('discrete-%s-%d' % (w, n), discrete, kw=dict(pess=pess, n=n)))
    for n in (1, 2) if q else (1, 2, 3):
      out.append(Case('cdf-%s-%d' % (w, n), from_cdf, kw=dict(pess=pess, n=n)))
    out.append(Case('laplace-%s' % w, laplace, kw=dict(pess=pess, dots=False)))
  out.append(Case('laplace-dots', laplace, kw=dict(pess=True, dots=True)))
  out.append(Case('rr-refuse', rr_refuse))
  out.append(Case('params', params))
  for k in CONSTRUCTORS:
    out.append(Case('construct-' + k, construct, kw=dict(kind=k, deprecated=False)))
    if k != 'mixture_gaussian':
      out.append(Case('construct-%s-method' % k, construct, kw=dict(kind=k, deprecated=True)))
  for n in ('identity', 'from_privacy_parameters', 'from_randomized_response',
            'from_two_probability_mass_functions', 'create_from_cdf'):
    out.append(Case('deprecated-' + n, deprecated, kw=dict(name=n)))
  return out
