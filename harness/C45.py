"""C45: the Go aggregations ask for noise that covers what one user can change, and only once."""
import math
import re

from se import core
from se.runner import Case
from harness import golib as G

FUNCTIONS = ['go/dpagg: Count, BoundedSumInt64, BoundedSumFloat64, BoundedMean, BoundedVariance, '
             'BoundedStandardDeviation: New*, Add/Increment, Merge, Result, ThresholdedResult, '
             'PreThresholdedResult, ComputeConfidenceInterval, GobEncode/GobDecode; ClampInt64, '
             'ClampFloat64']
BOUNDS = ['up to three elements (any number, also NaN and the infinities); options, noise, '
          'threshold and interval symbolic; the interval of the mean with alpha divided in 3 parts '
          'instead of 1000']
ASSUMPTIONS = ['the noise is whatever the noise package returns (C40, C47); it is only recorded '
               'what is asked of it', 'floating-point rounding and integer overflow are not '
               'modelled (the documentation excludes results that overflow)']

KINDS = ('count', 'sumint', 'sumfloat', 'mean', 'variance', 'stddev')
NEW = {'count': ('NewCount', 'CountOptions'),
       'sumint': ('NewBoundedSumInt64', 'BoundedSumInt64Options'),
       'sumfloat': ('NewBoundedSumFloat64', 'BoundedSumFloat64Options'),
       'mean': ('NewBoundedMean', 'BoundedMeanOptions'),
       'variance': ('NewBoundedVariance', 'BoundedVarianceOptions'),
       'stddev': ('NewBoundedStandardDeviation', 'BoundedStandardDeviationOptions')}


class World:
  """The translated library with a noise package that only takes notes."""

  def __init__(self, env, kind, gauss, text=None):
    self.env, self.kind, self.gauss = env, kind, gauss
    self.rt = rt = G.load(env, text=text)
    self.calls, self.noises, self.thrs, self.cis = [], [], [], []
    self.thr = None
    self.ci = {}
    self.bad = False
    for name, cls in (('laplace', rt.noise.laplace), ('gaussian', rt.noise.gaussian)):
      for t in ('Int64', 'Float64'):
        setattr(cls, 'AddNoise' + t, self.add(name, t))
        setattr(cls, 'ComputeConfidenceInterval' + t, self.interval(name, t))
      cls.Threshold = self.threshold(name)

  def integer(self, v):
    if self.env.symbolic:
      return self.rt.integer(v)
    return math.floor(v)

  def add(self, name, t):
    def fn(this, x, l0, linf, eps, delta):
      if self.bad:
        return 0, self.rt.dpagg._pkg_fmt.Errorf('refused')
      z = 0
      if self.noises is not None:
        z = self.env.real('z%d' % len(self.calls))
        if t == 'Int64':
          z = self.integer(z)
      self.calls.append((name, t, x, l0, linf, eps, delta, x + z))
      return x + z, None
    return fn

  def threshold(self, name):
    def fn(this, *a):
      self.thrs.append((name,) + a)
      return self.thr, None
    return fn

  def interval(self, name, t):
    def fn(this, *a):
      self.cis.append((name, t) + a)
      lo, hi = self.ci[t]
      return self.rt.noise.ConfidenceInterval(LowerBound=lo, UpperBound=hi), None
    return fn

  def options(self):
    env, kind = self.env, self.kind
    self.eps = env.real('eps', lo=2.0**-40)
    self.delta = env.real('delta', lo=0, hi=1, lo_open=True, hi_open=True) if self.gauss else 0.0
    self.l0 = self.integer(env.nat('l0', 1))
    self.m = self.integer(env.nat('m', 1))
    o = {'Epsilon': self.eps, 'Delta': self.delta, 'MaxPartitionsContributed': self.l0,
         'Noise': self.rt.noise.Gaussian() if self.gauss else self.rt.noise.Laplace()}
    if kind in ('count', 'sumint', 'sumfloat'):
      o['maxContributionsPerPartition'] = self.m
    else:
      o['MaxContributionsPerPartition'] = self.m
    if kind != 'count':
      lo, hi = env.real('lo'), env.real('hi')
      if kind == 'sumint':
        lo, hi = self.integer(lo), self.integer(hi)
        env.assume(lo > -2**40)
        env.assume(hi < 2**40)
        env.assume(self.m < 2**10)
      env.assume(lo < hi if kind in ('mean', 'variance', 'stddev') else lo <= hi)
      if env.fork(lo == 0):
        env.assume(hi > 0)
      self.lo, self.hi = o['Lower'], o['Upper'] = lo, hi
    return o

  def new(self, o, ok=True):
    d = self.rt.dpagg
    fn, opts = NEW[self.kind]
    r = getattr(d, fn)(getattr(d, opts)(**o))
    return G.error(self.env, r, fn) if ok else r

  def add_all(self, obj, xs):
    for x in xs:
      err = obj.IncrementBy(x) if self.kind == 'count' else obj.Add(x)
      self.env.check(err is None, 'an element is accepted')

  def element(self, i):
    if self.kind == 'count':
      return 1                     # one contribution
    v = self.env.real('x%d' % i)
    return self.integer(v) if self.kind == 'sumint' else v

  def clamp(self, x):
    if self.kind == 'count':
      return x
    if isinstance(x, float) and math.isinf(x):
      return self.hi if x > 0 else self.lo
    if self.env.fork(x > self.hi):
      return self.hi
    return self.lo if self.env.fork(x < self.lo) else x

  def released(self, obj, how='Result'):
    """The result and the noise asked for it."""
    n = len(self.calls)
    r = G.error(self.env, getattr(obj, how)(), how)
    return r, self.calls[n:]


def same(env, a, b):
  if env.symbolic:
    d = core.SymReal.lift(a) - core.SymReal.lift(b)
    return not d.num
  return abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(a)), abs(float(b)))


def statistics(w, xs):
  """What the noise is added to: [(label, value, the most one element changes it)]."""
  env = w.env
  if w.kind == 'count':
    return [('count', sum(xs), 1)]
  cl = [w.clamp(x) for x in xs]
  if w.kind in ('sumint', 'sumfloat'):
    a, b = abs_(env, w.lo), abs_(env, w.hi)
    return [('sum', sum(cl), a if env.fork(a > b) else b)]
  mid, half = (w.lo + w.hi) / 2, (w.hi - w.lo) / 2
  out = [('count', len(xs), 1), ('sum', sum([c - mid for c in cl], 0), half)]
  if w.kind != 'mean':
    out.append(('squares', sum([(c - mid) * (c - mid) for c in cl], 0), half * half))
  return out


def abs_(env, x):
  return -x if env.fork(x < 0) else x


def budget(w, calls, stats):
  """The noise asked for: right amount for each statistic, epsilon and delta used up exactly."""
  env = w.env
  if len(calls) != len(stats):
    env.fail('%d noisy numbers for %d statistics' % (len(calls), len(stats)))
  found = {}
  for name, t, x, l0, linf, eps, delta, y in calls:
    left = [s for s in stats if s[0] not in found]
    # with few elements different statistics may coincide: prefer the one whose range fits
    hits = [s for s in left if same(env, x, s[1])]
    s = ([s for s in hits if same(env, linf, w.m * s[2])] or hits or [None])[0]
    if s is None:
      env.fail('noise is added to something else')
    found[s[0]] = y
    env.check((name == 'gaussian') == w.gauss, 'the noise chosen')
    env.check_eq(l0, w.l0, 'noise for all the partitions of a user: ' + s[0])
    env.check_eq(linf, w.m * s[2], 'noise for all a user adds to a partition: ' + s[0])
    env.check_lt(0, eps, 'some epsilon for each')
  env.check_eq(sum([c[5] for c in calls], 0), w.eps, 'epsilon is used up')
  env.check_eq(sum([c[6] for c in calls], 0), w.delta, 'delta is used up')
  return found


def value(w, got, r):
  """The result, computed from the noisy statistics."""
  env = w.env
  if w.kind in ('count', 'sumint', 'sumfloat'):
    env.check_eq(r, list(got.values())[0], 'the result is the noisy number')
    return
  n = got['count']
  n = n if env.fork(n > 1) else 1
  mean = got['sum'] / n
  if w.kind == 'mean':
    env.check_eq(r, w.clamp(mean + (w.lo + w.hi) / 2), 'the result is the noisy mean, clamped')
    return
  v = got['squares'] / n - mean * mean
  top = (w.hi - w.lo) * (w.hi - w.lo) / 4
  v = top if env.fork(v > top) else (0 if env.fork(v < 0) else v)
  if w.kind == 'stddev':
    env.check_le(0, r, 'not negative')
    r = r * r
  env.check_eq(r, v, 'the result is the noisy variance, clamped')


def release(env, kind, gauss, n):
  w = World(env, kind, gauss)
  obj = w.new(w.options())
  xs = [w.element(i) for i in range(n)]
  if kind == 'count' and n:
    xs[0] = w.integer(env.nat('users', 0))
  w.add_all(obj, xs)
  r, calls = w.released(obj)
  value(w, budget(w, calls, statistics(w, xs)), r)
  after(w, obj, lambda: w.new(again(w)))


def again(w):
  o = {'Epsilon': w.eps, 'Delta': w.delta, 'MaxPartitionsContributed': w.l0,
       'Noise': w.rt.noise.Gaussian() if w.gauss else w.rt.noise.Laplace()}
  o['maxContributionsPerPartition' if w.kind in ('count', 'sumint', 'sumfloat')
    else 'MaxContributionsPerPartition'] = w.m
  if w.kind != 'count':
    o['Lower'], o['Upper'] = w.lo, w.hi
  return o


def after(w, obj, fresh):
  """An object that is used up takes no more data and gives no more results."""
  env, n = w.env, len(w.calls)
  v, err = obj.Result()
  env.check(err is not None, 'no second result')
  env.check(len(w.calls) == n, 'no noise for a second result')
  if w.kind == 'count':
    env.check(obj.IncrementBy(1) is not None and obj.Increment() is not None,
              'no more data once used up')
  else:
    env.check(obj.Add(1 if w.kind == 'sumint' else 1.0) is not None, 'no more data once used up')
  other = fresh()
  n = len(w.calls)
  env.check(obj.Merge(other) is not None, 'no merge into an object used up')
  env.check(other.Merge(obj) is not None, 'no merge from an object used up')
  w.noises = None
  v, err = other.Result()
  env.check(err is None, 'a refused merge leaves the other usable')


def special(env, kind, value_):
  """NaN is ignored, infinities count as the nearest bound."""
  w = World(env, kind, False)
  obj = w.new(w.options())
  xs = [w.element(0), value_]
  w.add_all(obj, xs)
  r, calls = w.released(obj)
  if value_ != value_:
    xs = xs[:1]
  value(w, budget(w, calls, statistics(w, xs)), r)


def merged(env, kind, gauss):
  """Two halves merged are one whole; the second half is used up."""
  w = World(env, kind, gauss)
  o = w.options()
  a, b = w.new(o), w.new(o)
  xs = [w.element(i) for i in range(2 if kind in ('variance', 'stddev') else 3)]
  if kind == 'count':
    xs[1] = w.integer(env.nat('users', 0))
  w.add_all(a, xs[:1])
  w.add_all(b, xs[1:2])
  env.check(a.Merge(b) is None, 'compatible objects merge')
  n = len(w.calls)
  v, err = b.Result()
  env.check(err is not None and len(w.calls) == n, 'a merged object gives no result')
  env.check((b.IncrementBy(1) if kind == 'count' else b.Add(0 if kind == 'sumint' else 0.0))
            is not None, 'a merged object takes no data')
  env.check(a.Merge(b) is not None, 'an object is merged once')
  v, err = b.GobEncode()
  env.check(err is not None, 'a merged object is not serialized')
  w.add_all(a, xs[2:])
  r, calls = w.released(a)
  value(w, budget(w, calls, statistics(w, xs)), r)


OPTIONS = ('Epsilon', 'Delta', 'MaxPartitionsContributed', 'max', 'Lower', 'Upper', 'Noise')


def different(env, kind, gauss, opt):
  """Objects that differ in an option are not merged, and nothing changes."""
  w = World(env, kind, gauss)
  o = w.options()
  p = dict(o)
  k = opt
  if opt == 'max':
    k = [x for x in o if x.lower().startswith('maxcontributions')][0]
  if opt == 'Noise':
    p['Noise'] = w.rt.noise.Laplace() if gauss else w.rt.noise.Gaussian()
  else:
    d = env.pos('d')
    if opt in ('MaxPartitionsContributed', 'max') or kind == 'sumint' and opt in ('Lower', 'Upper'):
      d = w.integer(d)
      if not env.symbolic:
        env.assume(d >= 1)
      else:
        env.assume(d >= 1)
    p[k] = o[k] - d if opt == 'Lower' else o[k] + d
    if opt == 'max':               # the bounds stay apart, so the sensitivity differs
      env.assume(d >= 1)
    if opt == 'Delta':
      env.assume(p[k] < 1)
    if kind == 'sumint':
      env.assume(d < 2**20)
  if kind in ('sumint', 'sumfloat') and opt in ('Lower', 'Upper') or kind in NEW:
    if 'Lower' in p and env.fork(p['Lower'] == 0):
      env.assume(p['Upper'] > 0)
  a, b = w.new(o), w.new(p)
  x, y = w.element(0), w.element(1)
  w.add_all(a, [x])
  w.add_all(b, [y])
  env.check(a.Merge(b) is not None, 'objects with another %s do not merge' % opt)
  w.noises = None
  r, calls = w.released(a)
  budget(w, calls, statistics(w, [x]))
  v, err = b.Result()
  env.check(err is None, 'a refused merge leaves the other usable')


def stored(env, kind, gauss):
  """Serialized and read back: the same object; the original is used up."""
  w = World(env, kind, gauss)
  o = w.options()
  a = w.new(o)
  xs = [w.element(i) for i in range(2 if kind in ('variance', 'stddev') else 3)]
  if kind == 'count':
    xs[0] = w.integer(env.nat('users', 0))
  w.add_all(a, xs[:1])
  data = G.error(env, a.GobEncode(), 'GobEncode')
  b = type(a)()
  env.check(b.GobDecode(data) is None, 'read back')
  n = len(w.calls)
  v, err = a.Result()
  env.check(err is not None and len(w.calls) == n, 'a serialized object gives no result')
  env.check((a.IncrementBy(1) if kind == 'count' else a.Add(0 if kind == 'sumint' else 0.0))
            is not None, 'a serialized object takes no data')
  c = w.new(again(w))
  env.check(a.Merge(c) is not None and c.Merge(a) is not None, 'a serialized object is not merged')
  w.add_all(b, xs[1:2])
  w.add_all(c, xs[2:])
  env.check(b.Merge(c) is None, 'merges with an object of the same options')
  r, calls = w.released(b)
  value(w, budget(w, calls, statistics(w, xs)), r)
  v, err = b.GobEncode()
  env.check(err is not None, 'an object is not serialized after its result')


def threshold(env, kind, gauss, pre):
  """A result is given from the threshold on, and the threshold assumes the noise added."""
  w = World(env, kind, gauss)
  obj = w.new(w.options())
  td = env.real('td', lo=0, hi=1, lo_open=True, hi_open=True)
  if kind == 'sumfloat':
    w.thr = c = env.real('thr')
  else:
    c, f = w.integer(env.real('c')), env.real('f', lo=0, hi=1, hi_open=True)
    w.thr = c - f
    env.assume(c >= 1)
    if env.symbolic:
      G.rounding(w.rt.dpagg, w.thr, c, -f, w.rt)
  xs = [w.element(0)]
  if kind == 'count':
    xs = [w.integer(env.nat('users', 0))]
  w.add_all(obj, xs)
  n = len(w.calls)
  if pre:
    p = w.integer(env.nat('pre', 0))
    r, err = obj.PreThresholdedResult(p, td)
    p = p if env.fork(p > 1) else 1
    if env.fork(xs[0] < p):
      env.check(err is None and r is None, 'nothing below the pre-threshold')
      env.check(len(w.calls) == n, 'no noise below the pre-threshold')
      return
    c = c + p - 1
  else:
    r, err = obj.ThresholdedResult(td)
  env.check(err is None, 'no error')
  calls = w.calls[n:]
  y = list(budget(w, calls, statistics(w, xs)).values())[0]
  if len(w.thrs) != 1:
    raise core.Inconclusive('%d thresholds' % len(w.thrs))
  name, l0, linf, eps, delta, td2 = w.thrs[0]
  env.check((name == 'gaussian') == gauss, 'the threshold of the noise chosen')
  for a, b, t in zip((l0, linf, eps, delta, td2), calls[0][3:7] + (td,),
                     ('l0', 'lInf', 'epsilon', 'delta', 'threshold delta')):
    env.check_eq(a, b, 'the threshold assumes the noise added: ' + t)
  if kind != 'sumfloat' and not env.fork(y >= c):
    env.assume(y <= c - 1)       # whole numbers
  if env.fork(y < c):
    env.check(r is None, 'nothing below the threshold')
  else:
    env.check(r is not None, 'a result from the threshold on')
    env.check_eq(r.v if hasattr(r, 'v') else r, y, 'the noisy number')
  v, err = obj.Result()
  env.check(err is not None and len(w.calls) == n + 1, 'no second result')


def interval(env, kind, gauss):
  """The interval of the noise, cut to what the true value can be."""
  # the mean tries 1000 ways to divide alpha: two of them
  w = World(env, kind, gauss, {'dpagg': lambda t: re.sub(r'\b1000\b', '3', t)})
  obj = w.new(w.options())
  alpha = env.real('alpha', lo=0, hi=1, lo_open=True, hi_open=True)
  for t in ('Int64', 'Float64'):
    lo = env.real('lo' + t)
    w.ci[t] = lo, lo + env.real('wide' + t, lo=0)
  v, err = obj.ComputeConfidenceInterval(alpha)
  env.check(err is not None, 'no interval before the result')
  if kind != 'mean':             # the raw data make no difference
    w.add_all(obj, [w.element(0)])
  r, calls = w.released(obj)
  del w.cis[:]
  ci = G.error(env, obj.ComputeConfidenceInterval(alpha), 'ComputeConfidenceInterval')
  if not w.cis:
    raise core.Inconclusive('no interval asked for')
  seen = set()
  for c in w.cis:
    key = tuple(id(v) for v in c[:7])
    if key in seen:
      continue
    seen.add(key)
    match = [k for k in calls if k[1] == c[1]]
    if len(match) != 1:
      raise core.Inconclusive('intervals for %d noisy numbers' % len(match))
    k = match[0]
    env.check(c[0] == k[0], 'the interval of the noise chosen')
    for a, b, t in zip(c[2:7], (k[7],) + k[3:7], ('value', 'l0', 'lInf', 'epsilon', 'delta')):
      env.check_eq(a, b, 'the interval is for the noise added: ' + t)
  if kind == 'mean':
    a, b = ([c for c in w.cis if c[1] == t] for t in ('Float64', 'Int64'))
    if len(a) != len(b):
      raise core.Inconclusive('intervals do not pair up')
    for c, d in zip(a, b):
      env.check_eq((1 - c[7]) * (1 - d[7]), 1 - alpha, 'both intervals hold with 1 - alpha')
    s, n = env.real('s'), env.real('n', lo=1)
    env.assume(w.ci['Float64'][0] <= s)
    env.assume(s <= w.ci['Float64'][1])
    env.assume(w.ci['Int64'][0] <= n)
    env.assume(n <= w.ci['Int64'][1])
    truth = w.clamp(s / n + (w.lo + w.hi) / 2)
    env.check_le(ci.LowerBound, truth, 'the interval holds the true mean')
    env.check_le(truth, ci.UpperBound, 'the interval holds the true mean')
    return
  t = w.cis[0][1]
  env.check_eq(w.cis[0][7], alpha, 'the confidence asked for')
  lo, hi = w.ci[t]
  # whatever the true value within the interval of the noise, it is in the interval given
  truth = env.real('truth')
  env.assume(lo <= truth)
  env.assume(truth <= hi)
  if kind == 'count' or env.fork(w.lo >= 0):
    env.assume(truth >= 0)
  if kind != 'count' and env.fork(w.hi <= 0):
    env.assume(truth <= 0)
  env.check_le(ci.LowerBound, truth, 'the interval holds the true value')
  env.check_le(truth, ci.UpperBound, 'the interval holds the true value')
  env.check(env.fork(ci.LowerBound == lo) or env.fork(ci.LowerBound == 0), 'cut at zero only')
  env.check(env.fork(ci.UpperBound == hi) or env.fork(ci.UpperBound == 0), 'cut at zero only')


def refuses(env, kind):
  """Options out of range, and those the noise refuses."""
  w = World(env, kind, False)
  l0 = w.integer(env.real('l0'))
  m = w.integer(env.real('m'))
  env.assume(m >= 0)
  eps = env.real('eps')
  o = {'Epsilon': eps, 'Delta': 0.0, 'MaxPartitionsContributed': l0, 'Noise': w.rt.noise.Laplace()}
  simple = kind in ('count', 'sumint', 'sumfloat')
  o['maxContributionsPerPartition' if simple else 'MaxContributionsPerPartition'] = m
  ok = env.fork(l0 != 0) and (simple or env.fork(m > 0))
  if kind != 'count':
    lo, hi = env.real('lo'), env.real('hi')
    if kind == 'sumint':
      lo, hi = w.integer(lo), w.integer(hi)
      for v in (lo, hi):
        env.assume(v > -2**40)
        env.assume(v < 2**40)
      env.assume(m < 2**20)
    o['Lower'], o['Upper'] = lo, hi
    ok = ok and not (env.fork(lo == 0) and env.fork(hi == 0)) and (
        env.fork(lo <= hi) if simple else env.fork(lo < hi))
  w.bad = env.choice('the noise refuses', [False, True])
  r, err = w.new(o, ok=False)
  env.check((err is None) == (ok and not w.bad), 'accepts exactly the options in range')


def cases(tier):
  deep = tier == 'thorough'
  out = []
  for k in KINDS:
    for g in (False, True):
      s = '%s-%s' % (k, 'gaussian' if g else 'laplace')
      for n in ((0, 1, 2, 3) if deep else (0, 1, 2)):
        out.append(Case('release-%s-%d' % (s, n), release, kw={'kind': k, 'gauss': g, 'n': n}))
      out += [Case('merge-' + s, merged, kw={'kind': k, 'gauss': g}),
              Case('stored-' + s, stored, kw={'kind': k, 'gauss': g})]
      if k in ('count', 'sumint', 'sumfloat'):
        out.append(Case('threshold-' + s, threshold, kw={'kind': k, 'gauss': g, 'pre': False}))
      if k == 'count':
        out.append(Case('prethreshold-' + s, threshold, kw={'kind': k, 'gauss': g, 'pre': True}))
      if k in ('count', 'sumint', 'sumfloat', 'mean'):
        if k != 'mean' or g or deep:
          out.append(Case('interval-' + s, interval, kw={'kind': k, 'gauss': g}))
    for opt in OPTIONS:
      if k == 'count' and opt in ('Lower', 'Upper'):
        continue
      g = opt == 'Delta'
      out.append(Case('different-%s-%s' % (k, opt), different,
                      kw={'kind': k, 'gauss': g, 'opt': opt}))
    if k not in ('count', 'sumint'):
      out += [Case('special-%s-%s' % (k, v), special, kw={'kind': k, 'value_': v})
              for v in (math.nan, math.inf, -math.inf)]
    out.append(Case('refuses-' + k, refuses, kw={'kind': k}))
  return out
