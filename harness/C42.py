"""C42: an audit tests both directions of every pair and stops at a violation."""
from se import core
from se.runner import Case

RUN = 'dp_auditorium.privacy_test_runner'
CFG = 'dp_auditorium.configs.privacy_test_runner_config'
PROP = 'dp_auditorium.configs.privacy_property'
FUNCTIONS = ['privacy_test_runner.PrivacyTestRunner.test_privacy / _get_postprocess_function',
             'privacy_property.PrivacyProperty']
BOUNDS = ['up to 3 trials (thorough 5); estimates, verdicts and samples symbolic; 1 to 2 samples '
          'a side']
ASSUMPTIONS = ['mechanism, generator and tester are arbitrary']


def audit(env, trials, post, rank):
  R = env.mod(RUN)
  C = env.mod(CFG)
  P = env.mod(PROP)
  f = env.prob('f')
  prop = P.PrivacyProperty(pure_dp=P.PureDp(1.0))
  count = env.choice('samples', [1, 2])
  log = []
  raw = {}
  values = {}

  def generator(last):
    n = len([l for l in log if l[0] == 'generate'])
    log.append(('generate', last))
    return 'd%d' % n, 'e%d' % n

  def mechanism(data, num_samples):
    log.append(('mechanism', data, num_samples))
    v = [env.real('%s_%d' % (data, i)) for i in range(num_samples)]
    raw[data] = v
    return env.np.array(v if rank == 1 else [[x] for x in v])

  class Tester:
    privacy_property = prop

    def estimate_lower_bound(self, s1, s2, failure_probability):
      n = len(log)
      v = env.real('estimate%d' % len([l for l in log if l[0] == 'estimate']))
      log.append(('estimate', s1, s2, failure_probability, v))
      return v

    def reject_property(self, bound):
      r = env.bool('verdict%d' % len([l for l in log if l[0] == 'reject']))
      log.append(('reject', bound, r))
      return r
  cfg = C.PrivacyTestRunnerConfig(
      property_tester=C.PropertyTester.HISTOGRAM_TESTER, max_num_trials=trials,
      failure_probability=f, num_samples=count, post_processing=getattr(C.PostProcessing, post))
  res = R.PrivacyTestRunner(cfg, generator, Tester()).test_privacy(mechanism, 'name')

  def processed(v):
    if post == 'NONE':
      return [v]
    t = env.np.tanh(v)
    if post == 'TANH':
      return [t]
    out = [1, t]
    for _ in range(4):
      out.append(2 * t * out[-1] - out[-2])
    return out

  def same(sample, data, label):
    got = env.np.asarray(sample)
    env.check(len(got) == count, label)
    for i in range(count):
      w = processed(raw[data][i])
      g = env.np.ravel(got[i]) if env.np.ndim(got[i]) else [got[i]]
      env.check(len(g) == len(w), label)
      for a, b in zip(g, w):
        env.check_eq(a, b, label)
  gens = [l for l in log if l[0] == 'generate']
  ests = [l for l in log if l[0] == 'estimate']
  rejs = [l for l in log if l[0] == 'reject']
  mechs = [l for l in log if l[0] == 'mechanism']
  stop = [i for i, l in enumerate(rejs) if l[2]]
  done = stop[0] + 1 if stop else trials
  env.check(len(gens) == done, 'stops at the first violation or the limit')
  env.check(len(rejs) >= done, 'every estimate is judged')
  env.check(len(ests) == 2 * done, 'both directions of every pair')
  env.check(sorted(l[1] for l in mechs) == sorted(
      x for i in range(done) for x in ('d%d' % i, 'e%d' % i)), 'each dataset sampled once')
  env.check(all(l[2] == count for l in mechs), 'configured number of samples')
  bounds = []
  for i in range(done):
    a, b = ests[2 * i], ests[2 * i + 1]
    for e, (x, y) in ((a, ('d%d', 'e%d')), (b, ('e%d', 'd%d'))):
      env.check_eq(e[3], f, 'configured failure probability')
      same(e[1], x % i, 'samples of the first dataset, post-processed')
      same(e[2], y % i, 'samples of the second dataset, post-processed')
    m = a[4] if env.fork(a[4] >= b[4]) else b[4]
    bounds.append(m)
    env.check_eq(rejs[i][1], m, 'the larger direction is judged')
  env.check(gens[0][1] is None, 'no estimate before the first trial')
  for i in range(1, done):
    env.check_eq(gens[i][1], bounds[i - 1], 'the estimate reaches the generator')
  got = res.lower_bound_divergence_estimates
  env.check(len(got) == done, 'one estimate per trial')
  for g, w in zip(got, bounds):
    env.check_eq(g, w, 'the larger direction is recorded')
  env.check(res.num_inspected_trials == done, 'number of trials')
  env.check((res.found_privacy_violation is not None) == bool(stop), 'violation exactly if rejected')
  T = C.TerminationReason
  env.check(res.termination_reason is (T.FOUND_PRIVACY_VIOLATION if stop else
                                       T.TRIAL_LIMIT_REACHED), 'reason')
  if stop:
    env.check_eq(res.found_privacy_violation.failure_probability, f, 'failure probability')
  env.check(res.privacy_property is prop and res.mechanism_name == 'name' and
            res.property_tester is C.PropertyTester.HISTOGRAM_TESTER and
            res.max_num_trials == trials, 'what was tested')


def one_property(env):
  P = env.mod(PROP)
  k = {}
  if env.bool('pure'):
    k['pure_dp'] = P.PureDp(env.real('e'))
  if env.bool('renyi'):
    k['renyi_dp'] = P.RenyiDp(alpha=env.real('al'), epsilon=env.real('e'))
  if env.bool('approx'):
    k['approximate_dp'] = P.ApproximateDp(epsilon=env.real('e'), delta=env.real('d'))
  r = env.raises(lambda: P.PrivacyProperty(**k), ValueError)
  env.check((r is None) == (len(k) == 1), 'exactly one guarantee')


def unknown(env):
  R = env.mod(RUN)
  C = env.mod(CFG)
  cfg = C.PrivacyTestRunnerConfig(
      property_tester=C.PropertyTester.MMD_TESTER, max_num_trials=1, failure_probability=0.1,
      num_samples=1, post_processing=7)
  env.check(env.raises(lambda: R.PrivacyTestRunner(cfg, None, None), ValueError) is not None,
            'unknown post-processing is refused')


def cases(tier):
  out = [Case('one-property', one_property), Case('unknown', unknown)]
  for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5):
    out.append(Case('none-%d' % n, audit, kw=dict(trials=n, post='NONE', rank=1)))
  for post in ('TANH', 'CHEBYSHEV_POLYNOMIALS_D5'):
    for rank in (1, 2):
      out.append(Case('%s-%d' % (post.lower()[:4], rank), audit,
                      kw=dict(trials=1, post=post, rank=rank)))
  return out
