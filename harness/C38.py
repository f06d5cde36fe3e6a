"""C38: audited mean and noisy-max mechanisms noise what they document."""
from fractions import Fraction
from se import core
from se.runner import Case
from harness.rnglib import Draws

MEAN = 'dp_auditorium.mechanisms.mean'
MAX = 'dp_auditorium.mechanisms.noisy_max'
UTIL = 'dp_auditorium.mechanisms.mechanisms_utils'
CFG = 'dp_auditorium.configs.mechanism_config'
FUNCTIONS = ['mean.MeanMechanism', 'noisy_max.NoisyMaxMechanism',
             'mechanisms_utils.default_mean_mechanism_config_generator, '
             'get_wrong_one_step_gd_budget']
BOUNDS = ['epsilon, delta, clipping bounds, records and noise symbolic; 1 to 3 records, 1 to 2 '
          'samples; noisy max: up to 3 elements and 4 records (thorough: 4 and 6)']
ASSUMPTIONS = ['a draw of scale s is s times an arbitrary number']
FLOOR = Fraction(1, 10**12)


def clipped(env, v, lo, hi):
  if env.fork(v < lo):
    return lo
  if env.fork(v > hi):
    return hi
  return v


def mean(env, n, m, delta, in_mean, in_scale):
  M = env.mod(MEAN)
  C = env.mod(CFG)
  eps, lo, width = env.pos('eps'), env.real('lo'), env.pos('width')
  hi = lo + width
  dl = 0.0
  factor = 1
  if delta:
    t = env.pos('t')
    dl = Fraction(5, 4) * env.exp(-t * t / 2)     # so that the factor is t
    factor = t
  d = Draws(env)
  one = d.one

  def nonzero(kind, loc, scale):
    v = one(kind, loc, scale)
    if kind == 'laplace' and (in_mean or in_scale) and not env.fork(n + v > 0):
      env.assume(n + v < 0)       # a noisy count of exactly zero is left out
    return v
  d.one = nonzero
  mech = M.MeanMechanism(C.MeanMechanismConfig(
      epsilon=eps, delta=dl, use_noised_counts_for_calculating_mean=in_mean,
      use_noised_counts_for_calculating_noise_scale=in_scale, max_value=hi, min_value=lo),
                         d.generator())
  data = [env.real('x%d' % i) for i in range(n)]
  budget = Fraction(1, 2) if in_mean or in_scale else 1
  out = mech(env.np.array(data), m)
  y = [clipped(env, v, lo, hi) for v in data]
  tot = 0
  for v in y:
    tot = tot + v
  env.check(tuple(env.np.shape(out)) == (m, 1), 'one value per sample')
  env.check(all(w.loc == 0 if not core.sym(w.loc) else False for w in d.log), 'centred noise')
  if len(d.log) not in (m, 2 * m):
    env.fail('one noise per sample, and one for its count')
  cn, vn = d.log[:-m], d.log[-m:]
  if not cn and (in_mean or in_scale):
    env.fail('noise for the counts')
  kind = 'normal' if delta else 'laplace'
  if in_mean or in_scale:
    env.check(all(w.kind == 'laplace' for w in cn), 'Laplace noise for the counts')
    for w in cn:
      env.check_eq(w.scale, 1 / (budget * eps), 'half the budget for the counts')
  env.check(all(w.kind == kind for w in vn), 'Gaussian noise when delta is positive')
  for s in range(m):
    noisy = n + cn[s].scale * cn[s].z if cn else n
    count = noisy if in_mean else n
    base = noisy if in_scale else n
    # noise of the sum: its sensitivity over the budget left, divided by the count
    if env.fork(base <= 0):
      scale = FLOOR
    else:
      scale = factor * width / (budget * eps) / base
      if env.fork(scale <= FLOOR):
        scale = FLOOR
    env.check_eq(vn[s].scale, scale, 'documented scale of the noise')
    env.check_eq(out[s, 0], tot / count + vn[s].scale * vn[s].z, 'noised sum over the count')


def configs(env):
  U = env.mod(UTIL)
  eps, dl = env.pos('eps'), env.real('delta', lo=0)
  for name, a, b in (('non_private_mean_v1', False, False), ('non_private_mean_v2', False, True),
                     ('private_mean', True, True)):
    c = U.default_mean_mechanism_config_generator(name, eps, dl)
    env.check_eq(c.epsilon, eps, 'budget kept')
    env.check_eq(c.delta, dl, 'budget kept')
    env.check(c.use_noised_counts_for_calculating_mean is a and
              c.use_noised_counts_for_calculating_noise_scale is b, 'flags of the variant')
    env.check(c.max_value == 1 and c.min_value == 0, 'unit range')
  env.check(env.raises(lambda: U.default_mean_mechanism_config_generator('mean', eps),
                       AttributeError) is not None, 'unknown variants are refused')
  nm, al = env.pos('nm'), env.pos('alpha')
  env.check_eq(U.get_wrong_one_step_gd_budget(nm, al) * nm * nm * 2, al, 'wrong budget')


def noisy_max(env, k, n, m):
  N = env.mod(MAX)
  C = env.mod(CFG)
  eps = env.pos('eps')
  d = Draws(env)
  data = [env.int('r%d' % i, 0, k - 1) for i in range(n)]
  mech = N.NoisyMaxMechanism(C.NoisyMaxMechanismConfig(epsilon=eps, num_elements=k), d.generator())
  out = mech(env.np.array(data), m)
  env.check(len(d.log) == m * k, 'one noise per element and sample')
  env.check(all(w.kind == 'gumbel' for w in d.log), 'Gumbel noise')
  env.check(all(not core.sym(w.loc) and w.loc == 0 for w in d.log), 'centred noise')
  for w in d.log:
    env.check_eq(w.scale * eps, 2, 'documented scale of the noise')
  env.check(tuple(env.np.shape(out)) == (m,), 'one element per sample')
  counts = [sum(1 for v in data if v == i) for i in range(k)]
  for s in range(m):
    noisy = [counts[i] + d.log[s * k + i].scale * d.log[s * k + i].z for i in range(k)]
    r = out[s]
    env.check(0 <= r < k, 'an element of the domain')
    for i in range(k):
      env.check_le(noisy[i], noisy[int(r)], 'largest noisy count')


def cases(tier):
  q = tier == 'quick'
  out = [Case('configs', configs)]
  for n, m in ((1, 1), (2, 1), (1, 2)) + (() if q else ((3, 1), (2, 2))):
    for delta in (False, True):
      for a in (False, True):
        for b in (False, True):
          out.append(Case('mean-%d-%d-%d%d%d' % (n, m, delta, a, b), mean, kw=dict(
              n=n, m=m, delta=delta, in_mean=a, in_scale=b)))
  for k, n, m in ((1, 1, 1), (2, 0, 1), (2, 2, 1), (3, 2, 1), (2, 3, 1), (2, 1, 2)) + (
      () if q else ((3, 4, 1), (4, 2, 1), (3, 2, 2))):
    out.append(Case('max-%d-%d-%d' % (k, n, m), noisy_max, kw=dict(k=k, n=n, m=m)))
  return out
