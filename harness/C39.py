"""C39: privacy testers report a lower bound minus their full error allowance."""
import math
from se import core
from se.runner import Case
from harness import audlib as A

HIST = A.TEST + 'histogram_tester'
UTIL = A.TEST + 'property_tester_utils'
HS = A.TEST + 'hockey_stick_tester'
RENYI = A.TEST + 'renyi_tester'
FUNCTIONS = ['histogram_tester.HistogramTester', 'hockey_stick_tester.HockeyStickPropertyTester',
             'renyi_tester.RenyiPropertyTester / RenyiModel.call / _compute_error_from_samples',
             'divergence_tester.DivergencePropertyTester',
             'property_tester_utils.split_train_test_samples / validate_*']
BOUNDS = ['1 to 4 samples a side, 1 to 3 bins; epsilon, delta, failure probability, model outputs '
          'and accuracies symbolic']
ASSUMPTIONS = ['tensorflow is a stand-in: training does nothing, the outputs of the network and '
               'its accuracy are arbitrary numbers in their range']


def near(env, a, b):
  return not env.symbolic and abs(a - b) <= 1e-9 * (abs(a) + abs(b) + 1e-300)


def allowance(env, original, size, n, p1, p2, eps, f):
  e = env.exp(eps)
  if original:
    t1 = 2 * (1 + e) * env.sqrt(env.num(size) / n)
  else:
    t1 = 0
    for p in p1:
      t1 = t1 + 2 * root(env, p) / env.sqrt(env.num(n))
    for p in p2:
      t1 = t1 + 2 * e * root(env, p) / env.sqrt(env.num(n))
  return t1 + 6 * (1 + e) * env.sqrt(env.log(4 / f) / (2 * n))


def root(env, p):
  return env.sqrt(p) if p > 0 else 0


def histogram(env, size, n1, n2, discrete, original):
  H = env.mod(HIST)
  C = env.mod(A.CFG)
  eps, delta, f = env.pos('eps'), env.real('delta', lo=0), env.real('f', lo=0, hi=1, lo_open=True, hi_open=True)
  lo, hi = (env.real('lo'), None)
  if not discrete:
    lo = env.choice('lo', [0, -1])
    hi = lo + size            # bins of width one
  cfg = C.HistogramPropertyTesterConfig(
      test_discrete_mechanism=discrete, histogram_size=size, min_value=None if discrete else lo,
      max_value=None if discrete else hi, approximate_dp=A.approx(env, eps, delta),
      use_original_tester=original)
  t = H.HistogramTester(cfg)
  if discrete:
    s1 = [env.int('a%d' % i, 0, size - 1) for i in range(n1)]
    s2 = [env.int('b%d' % i, 0, size - 1) for i in range(n2)]
    b1, b2 = s1, s2
  else:
    s1 = [env.real('a%d' % i) for i in range(n1)]
    s2 = [env.real('b%d' % i) for i in range(n2)]

    def bin_of(v):
      for k in range(size - 1):
        if near(env, v, lo + k + 1):
          return None
        if env.fork(v < lo + k + 1):
          return k
      return size - 1
  r = t.estimate_lower_bound(env.np.array(s1), env.np.array(s2), f)
  if not discrete:
    b1, b2 = [bin_of(v) for v in s1], [bin_of(v) for v in s2]
    if None in b1 + b2:
      return
  p1 = [env.num(sum(1 for v in b1 if v == k)) / n1 for k in range(size)]
  p2 = [env.num(sum(1 for v in b2 if v == k)) / n2 for k in range(size)]
  est = 0
  for a, b in zip(p1, p2):
    if near(env, a, env.exp(eps) * b):
      continue
    if env.fork(a > env.exp(eps) * b):
      est = est + a - env.exp(eps) * b
  al = allowance(env, original, size, min(n1, n2), p1, p2, eps, f)
  env.check_eq(r, est - al, 'empirical divergence minus the full allowance')
  v = env.real('bound')
  if not near(env, v, delta) or (not env.symbolic and v == delta):
    rej = t.reject_property(v)
    if env.fork(v < delta):
      env.check(not rej, 'kept below the claimed delta')
    elif env.fork(v > delta):
      env.check(bool(rej), 'rejected above the claimed delta')
  pp = t.privacy_property.approximate_dp
  env.check(pp.epsilon is eps and pp.delta is delta, 'tests the configured property')


def histogram_inputs(env):
  H = env.mod(HIST)
  C = env.mod(A.CFG)
  size = env.int('size', 1, 2)
  mk = lambda d: H.HistogramTester(C.HistogramPropertyTesterConfig(
      test_discrete_mechanism=d, histogram_size=size, min_value=0.0, max_value=1.0,
      approximate_dp=A.approx(env, 1.0, 0.1)))
  t = mk(True)
  v = env.int('v', -2, 3)
  e = env.raises(lambda: t.estimate_lower_bound(env.np.array([0, v]), env.np.array([0, 0]), 0.5),
                 ValueError)
  env.check((e is None) == (0 <= v < size), 'values outside the domain are refused')
  e = env.raises(lambda: t.estimate_lower_bound(env.np.array([0, 0]), env.np.array([v, 0]), 0.5),
                 ValueError)
  env.check((e is None) == (0 <= v < size), 'values outside the domain are refused')
  for d in (True, False):
    env.check(env.raises(lambda: mk(d).estimate_lower_bound(
        env.np.array([]), env.np.array([0]), 0.5), ValueError) is not None, 'samples needed')


def split(env, n, rank):
  U = env.mod(UTIL)
  x = [env.real('x%d' % i) for i in range(n)]
  arr = env.np.array(x) if rank == 1 else (env.np.array([[v, -v] for v in x]) if n else
                                           env.np.zeros((0, 2)))
  r, ex = env.call(lambda: U.split_train_test_samples(arr))
  if n < 2:
    env.check(isinstance(ex, ValueError), 'fewer than two samples are refused')
    return
  if ex is not None:
    raise ex
  a, b = r
  env.check(len(a) == n // 2 and len(b) == n - n // 2, 'halves')
  got = list(a) + list(b)
  for g, v in zip(got, x):
    env.check_eq(g if rank == 1 else g[0], v, 'training and test samples cover the data')
    if rank == 2:
      env.check_eq(g[1], -v, 'training and test samples cover the data')


def validation(env):
  U = env.mod(UTIL)
  P = env.mod(A.PROP)
  e = env.choice('eps', [None, 'x'])
  e = env.real('e') if e else None
  d = env.choice('delta', [None, 'x'])
  d = env.real('d') if d else None
  al = env.choice('alpha', [None, 'x'])
  al = env.real('a') if al else None
  ok = e is not None and bool(env.fork(e > 0))
  r = env.raises(lambda: U.validate_pure_dp_property(P.PureDp(e)), ValueError)
  env.check((r is None) == ok, 'invalid epsilon refused')
  r = env.raises(lambda: U.validate_approximate_dp_property(P.ApproximateDp(e, d)), ValueError)
  env.check((r is None) == (ok and d is not None and bool(env.fork(d >= 0))),
            'invalid delta refused')
  r = env.raises(lambda: U.validate_renyi_dp_property(P.RenyiDp(alpha=al, epsilon=e)), ValueError)
  env.check((r is None) == (ok and al is not None and bool(env.fork(al > 1))),
            'invalid order refused')


def training_validation(env):
  U = env.mod(UTIL)
  k = {}
  good = True
  for n, lab in (('training_epochs', 'ep'), ('batch_size', 'bs'),
                 ('optimizer_learning_rate', 'lr'), ('model_output_coordinate_bound', 'mb')):
    v = env.real(lab) if env.bool('set_' + lab) else None
    good = good and v is not None and bool(env.fork(v > 0))
    k[n] = v
  r = env.raises(lambda: U.validate_training_config(A.training(env, **k)), ValueError)
  env.check((r is None) == good, 'invalid training parameters refused')


def validated(env, which):
  """The testers refuse invalid properties."""
  tf = A.tensorflow(env)
  C = env.mod(A.CFG)
  P = env.mod(A.PROP)
  e, d = env.real('e'), env.real('d')
  ok = bool(env.fork(e > 0))
  net = A.Net(env, lambda v: 0.0)
  if which == 'hist':
    H = env.mod(HIST)
    mk = lambda: H.HistogramTester(C.HistogramPropertyTesterConfig(
        test_discrete_mechanism=True, histogram_size=2, min_value=0.0, max_value=1.0,
        approximate_dp=A.approx(env, e, d)))
  elif which == 'hs':
    mk = lambda: env.mod(HS).HockeyStickPropertyTester(C.HockeyStickPropertyTesterConfig(
        training_config=A.training(env, 7.0), approximate_dp=A.approx(env, e, d)), net)
  elif which == 'renyi':
    ok = ok and bool(env.fork(d > 1))
    mk = lambda: env.mod(RENYI).RenyiPropertyTester(C.RenyiPropertyTesterConfig(
        alpha=d, training_config=A.training(env, 1.0),
        privacy_property=P.PrivacyProperty(renyi_dp=P.RenyiDp(alpha=d, epsilon=e))), net)
  else:
    mk = lambda: env.mod(RENYI).RenyiPropertyTester(C.RenyiPropertyTesterConfig(
        alpha=2.0, training_config=A.training(env, 1.0),
        privacy_property=P.PrivacyProperty(pure_dp=P.PureDp(e))), net)
  if which in ('hist', 'hs'):
    ok = ok and bool(env.fork(d >= 0))
  r = env.raises(mk, ValueError)
  env.check((r is None) == ok, 'invalid properties refused')
  if which == 'renyi':
    other = env.raises(lambda: env.mod(RENYI).RenyiPropertyTester(C.RenyiPropertyTesterConfig(
        alpha=3.0, training_config=A.training(env, 1.0),
        privacy_property=P.PrivacyProperty(renyi_dp=P.RenyiDp(alpha=2.0, epsilon=1.0))), net),
                       ValueError)
    env.check(other is not None, 'contradictory orders refused')
    other = env.raises(lambda: env.mod(RENYI).RenyiPropertyTester(C.RenyiPropertyTesterConfig(
        alpha=2.0, training_config=A.training(env, 1.0),
        privacy_property=P.PrivacyProperty(approximate_dp=A.approx(env, 1.0, 0.1))), net),
                       ValueError)
    env.check(other is not None, 'unsupported properties refused')


def floor_frac(env, n, eps):
  """floor(n / (e^eps + 1)), or None on a tie up to rounding."""
  c = env.exp(eps) + 1
  k = 0
  while k < n:
    if near(env, env.num(n), (k + 1) * c):
      return None
    if env.fork(n >= (k + 1) * c):
      k += 1
    else:
      break
  return k


def hockey(env, n1, n2):
  tf = A.tensorflow(env)
  T = env.mod(HS)
  C = env.mod(A.CFG)
  eps, delta, f = env.pos('eps'), env.real('delta', lo=0), env.real('f', lo=0, hi=1, lo_open=True, hi_open=True)
  acc = env.real('acc', lo=0, hi=1)
  log = []

  class Classifier:
    def compile(self, *a, **k):
      pass

    def fit(self, x, y, *a, **k):
      log.append(('fit', x, y))

    def evaluate(self, x, y, *a, **k):
      log.append(('evaluate', x, y))
      return [env.real('loss'), acc]
  tf.keras.models.clone_model = lambda m: Classifier()
  t = T.HockeyStickPropertyTester(C.HockeyStickPropertyTesterConfig(
      training_config=A.training(env, 7.0), approximate_dp=A.approx(env, eps, delta)),
                                  A.Net(env, None))
  s1 = [env.real('a%d' % i) for i in range(n1)]
  s2 = [env.real('b%d' % i) for i in range(n2)]
  r = t.estimate_lower_bound(env.np.array(s1), env.np.array(s2), f)
  te1, te2 = s1[n1 // 2:], s2[n2 // 2:]
  tr1, tr2 = s1[:n1 // 2], s2[:n2 // 2]
  n = min(len(te1), len(te2))
  e = env.exp(eps)
  want = (acc - env.sqrt(env.log(1 / f) / (2 * n))) * (1 + e) - e
  env.check_eq(r, want, 'empirical divergence minus the full allowance')
  env.check([l[0] for l in log] == ['fit', 'evaluate'], 'trained once, then evaluated')
  for l, p, q, lab in ((log[0], tr1, tr2, 'trained'), (log[1], te1, te2, 'evaluated')):
    k1, k2 = floor_frac(env, len(p), eps), floor_frac(env, len(q), eps)
    if k1 is None or k2 is None:
      return
    x, y = l[1], l[2]
    want = [(v, 0) for v in p[:k1]] + [(v, 1) for v in q[k2:]]
    env.check(len(x) == len(want) and len(y) == len(want), lab + ' on its half of the samples')
    for i, (v, c) in enumerate(want):
      env.check_eq(x[i, 0], v, lab + ' on its half of the samples')
      env.check_eq(y[i, 0], c, 'samples labelled by their dataset')
  rejects(env, t, delta)


def rejects(env, t, thr):
  v = env.real('bound')
  if near(env, v, thr) and v != thr:
    return
  rej = t.reject_property(v)
  if env.fork(v < thr):
    env.check(not rej, 'kept below the claimed bound')
  elif env.fork(v > thr):
    env.check(bool(rej), 'rejected above the claimed bound')


def renyi(env, n1, n2, alpha, pure):
  A.tensorflow(env)
  T = env.mod(RENYI)
  C = env.mod(A.CFG)
  P = env.mod(A.PROP)
  eps, f, b = env.pos('eps'), env.real('f', lo=0, hi=1, lo_open=True, hi_open=True), env.pos('b')
  # keep the allowance finite: gamma < 1
  s1 = [float(i + 1) for i in range(n1)]
  s2 = [float(100 + i) for i in range(n2)]
  out = {v: env.real('g%d' % i, lo=-1, hi=1) for i, v in enumerate(s1 + s2)}
  N = A.Net(env, lambda v: out[float(v)])
  prop = (P.PrivacyProperty(pure_dp=P.PureDp(eps)) if pure else
          P.PrivacyProperty(renyi_dp=P.RenyiDp(alpha=alpha, epsilon=eps)))
  t = T.RenyiPropertyTester(C.RenyiPropertyTesterConfig(
      alpha=alpha, training_config=A.training(env, b), privacy_property=prop), N)
  n = min(n1 - n1 // 2, n2 - n2 // 2)
  L = env.log(2 / f)
  e1 = env.sqrt(3 * L * env.exp(2 * (alpha - 1) * b) / n)
  e2 = env.sqrt(2 * L * env.exp(2 * alpha * b) / n)
  if near(env, e1, e2):
    return
  g = e1 if env.fork(e1 > e2) else e2
  if near(env, g, 1):
    return
  env.assume(g < 1)
  r = t.estimate_lower_bound(env.np.array(s1), env.np.array(s2), f)
  env.reach('first' if g is e1 else 'second')
  te1, te2 = s1[n1 // 2:], s2[n2 // 2:]
  t1 = t2 = 0
  for v in te1:
    t1 = t1 + env.exp((alpha - 1) * b * out[v])
  for v in te2:
    t2 = t2 + env.exp(alpha * b * out[v])
  ratio = env.num(alpha) / (alpha - 1)
  want = (ratio * env.log(t1 / len(te1)) - env.log(t2 / len(te2)) -
          env.log((1 + g) / (1 - g)))
  env.check_eq(r, want, 'empirical divergence minus the full allowance')
  seen = [float(v) for x, _ in N.seen for v in x]
  env.check(all(v in te1 + te2 for v in seen), 'estimated on held-out samples')
  tr = t._renyi_model.trained if hasattr(t, '_renyi_model') else []
  for a in tr:
    for x in a[:2]:
      env.check(all(float(v) in s1[:n1 // 2] + s2[:n2 // 2] for v in x),
                'trained on the other samples')
  thr = eps
  if pure:
    if near(env, eps, 2 * alpha * eps * eps):
      return
    thr = eps if env.fork(eps <= 2 * alpha * eps * eps) else 2 * alpha * eps * eps
  rejects(env, t, thr)


def cases(tier):
  q = tier == 'quick'
  out = [Case('validation', validation), Case('training', training_validation),
         Case('histogram-inputs', histogram_inputs)]
  for w in ('hist', 'hs', 'renyi', 'pure'):
    out.append(Case('validated-' + w, validated, kw=dict(which=w)))
  for n in range(0, 6):
    for rank in (1, 2):
      out.append(Case('split-%d-%d' % (n, rank), split, kw=dict(n=n, rank=rank)))
  for size, n1, n2 in ((1, 1, 1), (2, 1, 1), (2, 2, 1), (2, 1, 2), (3, 2, 2)) + (
      () if q else ((2, 3, 2), (3, 3, 2), (2, 3, 3))):
    for d in (True, False):
      for o in (True, False):
        out.append(Case('hist-%d-%d-%d-%d%d' % (size, n1, n2, d, o), histogram, kw=dict(
            size=size, n1=n1, n2=n2, discrete=d, original=o)))
  for n1, n2 in ((2, 2), (3, 2), (6, 2), (2, 6)) + (() if q else ((5, 6), (8, 8), (9, 4))):
    out.append(Case('hockey-%d-%d' % (n1, n2), hockey, kw=dict(n1=n1, n2=n2)))
  for n1, n2 in ((8, 7), (7, 9)) + (() if q else ((16, 16),)):
    for alpha in (2, 3):
      out.append(Case('renyi-%d-%d-%d' % (n1, n2, alpha), renyi, kw=dict(
          n1=n1, n2=n2, alpha=alpha, pure=alpha == 3), must_reach=['first', 'second']))
  return out
