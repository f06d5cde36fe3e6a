"""C46: the Go partition selection keeps a partition as often as its privacy allows, never more."""
from se import core
from se.runner import Case
from harness import golib as G
from harness.C40 import proxy

FUNCTIONS = ['go/dpagg: NewPreAggSelectPartition, PreAggSelectPartition.IncrementBy/Merge/'
             'ShouldKeepPartition/GetHardThreshold, keepPartitionProbability, sumExpPowers']
BOUNDS = ['counts 0..6 (thorough 0..10), crossover after at most 6 (10) users, 1..3 partitions per '
          'user for the optimal probabilities; epsilon, delta, counts of users and pre-threshold '
          'symbolic otherwise']
ASSUMPTIONS = ['floating-point rounding is not modelled']


def setup(env, l0, top, cross=None):
  rt = G.load(env)
  d = rt.dpagg
  E = env.real('E', lo=1, lo_open=True)
  pe = env.log(E)
  pd = env.real('pd', lo=0, lo_open=True)
  env.assume(pd * l0 < 1)
  eps, delta = pe * l0, pd * l0
  if env.symbolic:
    logs = []
    old = d._pkg_math

    def log(x):
      r = old.Log(x)
      logs.append((x, r))
      return r
    cs = {}

    def floor(x):
      k = core.SymReal.lift(x).key()
      if k in cs:
        return cs[k]
      c = env.choice('cross%d' % len(cs), list(range(-1, top + 2)) if cross is None else [cross])
      for a, la in logs:
        if (x * pe - la).num == {} or bool_zero(x * pe - la):
          if c > -1 or cross is not None:
            env.assume(E**c <= a)
          if c <= top:
            env.assume(a < E**(c + 1))
          break
      else:
        env.assume(c <= x)
        env.assume(x < c + 1)
      cs[k] = float(c)
      return cs[k]
    d._pkg_math = proxy(old, Log=log, Floor=floor)
  return rt, d, E, pd, eps, delta


def bool_zero(x):
  x = core.SymReal.lift(x)
  return not x.num


def optimal(env, l0, n, top):
  """p(n + 1) is the largest probability the two privacy inequalities allow after p(n)."""
  rt, d, E, pd, eps, delta = setup(env, l0, top)
  p = G.error(env, d.keepPartitionProbability(n, l0, eps, delta), 'keepPartitionProbability')
  q = G.error(env, d.keepPartitionProbability(n + 1, l0, eps, delta), 'keepPartitionProbability')
  if n == 0:
    env.check_eq(p, 0, 'a partition without users is never kept')
  a, b = E * p + pd, 1 - (1 - p - pd) / E
  env.check_le(q, a, 'keeping it is bounded by e^eps p + delta')
  env.check_le(q, b, 'dropping it is bounded by e^eps (1 - q) + delta')
  env.check_le(q, 1, 'a probability')
  env.check_le(p, q, 'more users, more often')
  if not (env.fork(q >= 1) or env.fork(q == a) or env.fork(q == b)):
    env.fail('the probability could be larger')


def keep(env, l0):
  """ShouldKeepPartition: the pre-threshold, then a coin of the right probability."""
  rt = G.load(env)
  d = rt.dpagg
  eps = env.real('eps', lo=2.0**-50)
  delta = env.real('delta', lo=0, hi=1, lo_open=True, hi_open=True)
  pre = env.nat('pre', 0)
  n = env.nat('n', 0)
  if env.symbolic:
    rt.integer(pre), rt.integer(n)
  p = env.prob('p')
  got = []

  def prob(*a):
    got.append(a)
    return p, None
  d.keepPartitionProbability = prob
  draws = []

  def run(dice):
    del draws[:], got[:]

    def uni():
      draws.append(1)
      return G.Uniform(dice)
    rt.rand.Uniform = uni
    s = G.error(env, d.NewPreAggSelectPartition(d.PreAggSelectPartitionOptions(
        Epsilon=eps, Delta=delta, PreThreshold=pre, MaxPartitionsContributed=l0)), 'New')
    r = s.Increment()
    k = env.choice('split', [False, True])
    if k:                          # counted by two objects
      t = G.error(env, d.NewPreAggSelectPartition(d.PreAggSelectPartitionOptions(
          Epsilon=eps, Delta=delta, PreThreshold=pre, MaxPartitionsContributed=l0)), 'New')
      t.IncrementBy(n)
      env.check(s.Merge(t) is None, 'compatible objects merge')
      v, e = t.ShouldKeepPartition()
      env.check(e is not None and v is False and not draws, 'a merged object decides nothing')
    else:
      s.IncrementBy(n)
    v = G.error(env, s.ShouldKeepPartition(), 'ShouldKeepPartition')
    m = len(draws)
    v2, e2 = s.ShouldKeepPartition()
    env.check(e2 is not None and v2 is False and len(draws) == m, 'the decision is made once')
    env.check(s.Increment() is not None, 'no users after the decision')
    return v
  out = G.law(run)
  users = n + 1
  limit = pre if env.fork(pre > 1) else 1
  w = sum([w for w, v in out if v], 0)
  if env.fork(users < limit):
    env.check_eq(w, 0, 'never kept below the pre-threshold')
  else:
    env.check_eq(w, p, 'kept with the probability computed')
    if len(got) != 1:
      raise core.Inconclusive('probability computed %d times' % len(got))
    for a, b, t in zip(got[0], (users - (limit - 1), l0, eps, delta),
                       ('users above the pre-threshold', 'l0', 'epsilon', 'delta')):
      env.check_eq(a, b, 'probability for the right ' + t)


def many(env, l0):
  """More than three partitions per user: a Gaussian count and a threshold, delta shared."""
  rt = G.load(env)
  d = rt.dpagg
  eps = env.real('eps', lo=2.0**-50)
  delta = env.real('delta', lo=0, hi=1, lo_open=True, hi_open=True)
  pre = env.nat('pre', 0)
  n = env.nat('n', 0)
  if env.symbolic:
    rt.integer(pre), rt.integer(n)
  z = rt.integer(env.real('z'))
  z = z if env.symbolic else int(z)
  # the threshold: a whole number less a fraction
  c, f = env.real('c'), env.real('f', lo=0, hi=1, hi_open=True)
  rt.integer(c) if env.symbolic else None
  c = c if env.symbolic else int(c)
  thr = c - f
  if env.symbolic:
    old = d._pkg_math

    def ceil(x):
      r = core.SymReal.lift(x) - thr
      return c if bool_zero(r) else old.Ceil(x)
    d._pkg_math = proxy(old, Ceil=ceil)
  adds, thrs = [], []

  def add(self, *a):
    adds.append(a)
    return a[0] + z, None

  def th(self, *a):
    thrs.append(a)
    return thr, None
  other = []
  rt.noise.gaussian.AddNoiseInt64 = add
  rt.noise.gaussian.Threshold = th
  rt.noise.laplace.AddNoiseInt64 = lambda self, *a: other.append(a) or (a[0], None)
  rt.noise.laplace.Threshold = lambda self, *a: other.append(a) or (thr, None)
  s = G.error(env, d.NewPreAggSelectPartition(d.PreAggSelectPartitionOptions(
      Epsilon=eps, Delta=delta, PreThreshold=pre, MaxPartitionsContributed=l0)), 'New')
  s.IncrementBy(n)
  v = G.error(env, s.ShouldKeepPartition(), 'ShouldKeepPartition')
  limit = pre if env.fork(pre > 1) else 1
  if env.fork(n < limit):
    env.assume(n <= limit - 1)
    env.check(v is False, 'never kept below the pre-threshold')
    return
  if other or not adds or len(thrs) != 1:
    raise core.Inconclusive('noise other than one Gaussian count')
  k = n - (limit - 1)
  # the constructor tries the noise on zero
  env.check(len(adds) == 2, 'one noisy count')
  x, a, b, e, dn = adds[-1]
  env.check_eq(x, k, 'users above the pre-threshold are counted')
  ta, tb, te, tn, td = thrs[0]
  env.check_eq(a, l0, 'noise for all the partitions of a user')
  env.check_eq(ta, l0, 'threshold for all the partitions of a user')
  env.check_le(1, b, 'one per partition')
  env.check_eq(tb, b, 'the threshold assumes the noise added')
  env.check_eq(e, eps, 'noise with the epsilon given')
  env.check_eq(te, eps, 'threshold for the epsilon given')
  env.check_eq(tn, dn, 'the threshold assumes the delta of the noise')
  env.check_eq(dn + td, delta, 'noise and threshold share delta')
  env.check_lt(0, td, 'some delta for the threshold')
  if not env.fork(k + z >= c):
    env.assume(k + z <= c - 1)   # whole numbers
  if env.fork(k + z >= c):
    env.check(v is True, 'kept from the threshold on')
  else:
    env.check(v is False, 'dropped below the threshold')


def hard(env, l0):
  """GetHardThreshold: that many users are kept whatever the coin or the noise."""
  rt = G.load(env)
  d = rt.dpagg
  eps = env.real('eps', lo=2.0**-50)
  delta = env.real('delta', lo=0, hi=1, lo_open=True, hi_open=True)
  pre = env.nat('pre', 0)
  more = env.nat('more', 0)
  if env.symbolic:
    rt.integer(pre), rt.integer(more)
  sure = env.choice('sure', [1, 2, 3])
  p = env.real('p', lo=0, hi=1, hi_open=True)

  def prob(n, *a):
    return (1.0 if (env.fork(n >= sure) if env.symbolic else n >= sure) else p), None
  d.keepPartitionProbability = prob
  u = env.real('u', lo=0, hi=1, lo_open=True, hi_open=True)
  rt.rand.Uniform = lambda: u
  z, thr = rt.integer(env.real('z')), env.real('thr')
  rt.noise.gaussian.AddNoiseInt64 = lambda self, x, *a: (
      x + (z if env.symbolic else int(z)), None)
  rt.noise.gaussian.Threshold = lambda self, *a: (thr, None)
  if env.symbolic:
    d._pkg_math = proxy(d._pkg_math, Ceil=lambda x: rt.integer(x))

  def new():
    return G.error(env, d.NewPreAggSelectPartition(d.PreAggSelectPartitionOptions(
        Epsilon=eps, Delta=delta, PreThreshold=pre, MaxPartitionsContributed=l0)), 'New')
  k = G.error(env, new().GetHardThreshold(), 'GetHardThreshold')
  s = new()
  s.IncrementBy(k + more)
  v = G.error(env, s.ShouldKeepPartition(), 'ShouldKeepPartition')
  env.check(bool(v), 'as many users as the hard threshold are kept' if l0 <= 3 else
            'as many users as the hard threshold are kept, with many partitions per user')


def make(env, rt, o):
  return G.error(env, rt.dpagg.NewPreAggSelectPartition(
      rt.dpagg.PreAggSelectPartitionOptions(**o)), 'New')


def options(env, rt):
  o = {'Epsilon': env.real('eps', lo=2.0**-40),
       'Delta': env.real('delta', lo=0, hi=1, lo_open=True, hi_open=True),
       'PreThreshold': env.nat('pre', 1), 'MaxPartitionsContributed': env.choice('l0', [1, 2, 3])}
  if env.symbolic:
    rt.integer(o['PreThreshold'])
  return o


def stub(env, rt):
  got = []
  rt.dpagg.keepPartitionProbability = lambda *a: got.append(a) or (1.0, None)
  rt.rand.Uniform = lambda: 0.5
  return got


def stored(env):
  """Serialized and read back: decides as the original would have; the original is used up."""
  rt = G.load(env)
  o = options(env, rt)
  got = stub(env, rt)
  n = env.nat('n', 0)
  if env.symbolic:
    rt.integer(n)
  s = make(env, rt, o)
  s.IncrementBy(n)
  data = G.error(env, s.GobEncode(), 'GobEncode')
  t = type(s)()
  env.check(t.GobDecode(data) is None, 'read back')
  v, err = s.ShouldKeepPartition()
  env.check(err is not None and v is False and not got, 'a serialized object decides nothing')
  env.check(s.Increment() is not None, 'a serialized object counts nothing')
  env.check(t.Increment() is None, 'the copy goes on counting')
  v = G.error(env, t.ShouldKeepPartition(), 'ShouldKeepPartition')
  if env.fork(n + 1 < o['PreThreshold']):
    env.check(v is False, 'never kept below the pre-threshold')
    return
  env.check(v is True, 'kept')
  if len(got) != 1:
    raise core.Inconclusive('probability computed %d times' % len(got))
  for a, b, t in zip(got[0], (n + 1 - (o['PreThreshold'] - 1), o['MaxPartitionsContributed'],
                              o['Epsilon'], o['Delta']), ('users', 'l0', 'epsilon', 'delta')):
    env.check_eq(a, b, 'kept over storage: ' + t)


def different(env, opt):
  """Objects that differ in an option are not merged; both remain usable."""
  rt = G.load(env)
  o = options(env, rt)
  stub(env, rt)
  d = env.pos('d')
  if opt in ('PreThreshold', 'MaxPartitionsContributed'):
    env.assume(d >= 1)
    d = rt.integer(d) if env.symbolic else int(d)
  p = dict(o)
  p[opt] = o[opt] + d
  if opt == 'Delta':
    env.assume(p[opt] < 1)
  s, t = make(env, rt, o), make(env, rt, p)
  env.check(s.Merge(t) is not None, 'objects with another %s do not merge' % opt)
  env.check(t.Merge(s) is not None, 'objects with another %s do not merge' % opt)
  env.check(s.Increment() is None and t.Increment() is None, 'a refused merge uses up neither')


def refuses(env):
  rt = G.load(env)
  d = rt.dpagg
  eps, delta = env.real('eps'), env.real('delta')
  pre, l0 = env.real('pre'), env.real('l0')
  if env.symbolic:
    rt.integer(pre), rt.integer(l0)
  else:
    pre, l0 = int(pre), int(l0)
  s, e = d.NewPreAggSelectPartition(d.PreAggSelectPartitionOptions(
      Epsilon=eps, Delta=delta, PreThreshold=pre, MaxPartitionsContributed=l0))
  ok = (env.fork(eps > 0) and env.fork(delta > 0) and env.fork(delta < 1) and
        env.fork(pre >= 0) and env.fork(l0 > 0))
  env.check((e is None) == ok, 'accepts exactly the parameters in range')


def cases(tier):
  top = 10 if tier == 'thorough' else 6
  out = [Case('optimal-l%d-n%d' % (l0, n), optimal, kw={'l0': l0, 'n': n, 'top': top})
         for l0 in (1, 2, 3) for n in range(top + 1) if l0 == 1 or n in (0, 2, top)]
  out += [Case('keep-%d' % k, keep, kw={'l0': k}) for k in (1, 3)]
  out += [Case('many-%d' % k, many, kw={'l0': k}) for k in (4, 9)]
  out += [Case('hard-%d' % k, hard, kw={'l0': k}) for k in (1, 3, 4)]
  out += [Case('stored', stored)]
  out += [Case('different-' + k, different, kw={'opt': k})
          for k in ('Epsilon', 'Delta', 'PreThreshold', 'MaxPartitionsContributed')]
  out += [Case('refuses', refuses)]
  return out
