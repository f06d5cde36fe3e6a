"""C48: the Go quantile tree counts an element once per level, and its quantiles are in range."""
import math

from se import core
from se.runner import Case
from harness import golib as G
from harness import C45

FUNCTIONS = ['go/dpagg: NewBoundedQuantiles, BoundedQuantiles.Add/Merge/Result/GobEncode/GobDecode, '
             'getIndex, getParent, getLeftmostChild, getRightmostChild, getNoisedCount, '
             'getLeftValue, getRightValue, adjustRank']
BOUNDS = ['trees of height 1..3 with 2..4 children (up to 9 leaves), one or two elements anywhere; '
          'rank, bounds, options and noisy counts symbolic for height 1 and 2',
          '|bounds| < 2^20, at least 2^-10 apart, elements 2^-10 of a leaf from its ends, quantiles up '
          'to 2^-20 of the range','leaf of an element: every double, for five pairs of bounds and three tree sizes']
ASSUMPTIONS = ['the children of a node are noised from left to right',
               'floating-point rounding is not modelled but for the leaf of an element']


class World(C45.World):
  """Noise that takes notes; every noisy count is its raw count, or as the walk asks."""

  def __init__(self, env, gauss=False, h=2, b=2):
    C45.World.__init__(self, env, 'sumfloat', gauss)
    C45.NEW['quantiles'] = ('NewBoundedQuantiles', 'BoundedQuantilesOptions')
    self.h, self.b, self.leaves = h, b, b**h
    self.path = None

  def add(self, name, t):
    def fn(this, x, l0, linf, eps, delta):
      if self.bad:
        return 0, self.rt.dpagg._pkg_fmt.Errorf('refused')
      y = x
      k = len(self.calls)
      if self.path is not None:
        y = 1000.0 if k % self.b == self.path[k // self.b] else 0.0
      elif self.noises == 'any':
        y = self.env.real('y%d' % k)
      self.calls.append((name, t, x, l0, linf, eps, delta, y))
      return y, None
    return fn

  def options(self):
    o = C45.World.options(self)
    env = self.env               # room for rounding
    env.assume(self.lo > -2**20)
    env.assume(self.hi < 2**20)
    env.assume(self.hi - self.lo > 2.0**-10)
    self.slack = (self.hi - self.lo) / 2**20
    o['MaxContributionsPerPartition'] = o.pop('maxContributionsPerPartition')
    o['TreeHeight'], o['BranchingFactor'] = self.h, self.b
    self.kind = 'quantiles'
    return o

  def element(self, name, leaf):
    """A number in a leaf: lower + (upper - lower) (leaf + f) / leaves."""
    env = self.env
    f = env.real('f' + name, lo=2.0**-10, hi=1 - 2.0**-10)
    if env.symbolic:
      G.rounding(self.rt.dpagg, leaf + f, leaf, f, self.rt)
    return self.lo + (self.hi - self.lo) * (leaf + f) / self.leaves

  def fresh(self):
    del self.calls[:]


def walk(w, make, leaves):
  """Visits every node of the tree: each holds the elements of its range, and no others."""
  env, b, h = w.env, w.b, w.h
  for target in range(w.leaves):
    w.path = None
    obj = make()
    w.fresh()
    w.path = [target // b**(h - 1 - i) % b for i in range(h)]
    r = G.error(env, obj.Result(0.5), 'Result')
    if len(w.calls) != h * b:
      env.fail('%d noisy counts for one walk' % len(w.calls))
    first = 0
    for level in range(h):
      size = b**(h - 1 - level)
      for j in range(b):
        name, t, x, l0, linf, eps, delta, y = w.calls[level * b + j]
        lo = first + j * size
        env.check_eq(x, len([i for i in leaves if lo <= i < lo + size]),
                     'the elements in the range of a node are counted')
        env.check((name == 'gaussian') == w.gauss, 'the noise chosen')
        env.check_eq(l0, w.l0 * h, 'noise for one node of each level, of all partitions')
        env.check_eq(linf, w.m, 'noise for all a user adds to a partition')
        env.check_eq(eps, w.eps, 'noise with the epsilon given')
        env.check_eq(delta, w.delta, 'noise with the delta given')
      first += w.path[level] * size
    step = (w.hi - w.lo) / w.leaves
    env.check_le(w.lo + step * target, r + w.slack, 'the quantile is in the leaf of the walk')
    env.check_le(r - w.slack, w.lo + step * (target + 1), 'the quantile is in the leaf of the walk')


def counted(env, h, b, gauss, leaf):
  w = World(env, gauss, h, b)
  o = w.options()
  x = w.element('x', leaf)

  def make():
    q = w.new(o)
    env.check(q.Add(x) is None, 'an element is accepted')
    return q
  walk(w, make, [leaf])


def extreme(env, what):
  w = World(env, False, 2, 2)
  o = w.options()
  d = env.pos('d')
  x = {'upper': w.hi, 'lower': w.lo, 'nan': math.nan, 'inf': math.inf, '-inf': -math.inf, 'above': w.hi + d,
       'below': w.lo - d}[what]

  def make():
    q = w.new(o)
    env.check(q.Add(x) is None, 'an element is accepted')
    return q
  walk(w, make, [] if what == 'nan' else [3] if what in ('inf', 'above', 'upper') else [0])


def joined(env, i, j, how):
  """Two elements: added to one tree, to two that are merged, or with a stored tree between."""
  w = World(env, how == 'store', 2, 2)
  o = w.options()
  x, y = w.element('x', i), w.element('y', j)

  def make():
    p = w.new(o)
    p.Add(x)
    if how == 'add':
      p.Add(y)
      return p
    if how == 'merge':
      q = w.new(o)
      q.Add(y)
      env.check(p.Merge(q) is None, 'trees of the same options merge')
      used_up(w, q)
      return p
    data = G.error(env, p.GobEncode(), 'GobEncode')
    q = type(p)()
    env.check(q.GobDecode(data) is None, 'read back')
    used_up(w, p)
    q.Add(y)
    return q
  walk(w, make, [i, j])


def used_up(w, q):
  env, n = w.env, len(w.calls)
  v, err = q.Result(0.5)
  env.check(err is not None and len(w.calls) == n, 'no result of a tree used up')
  env.check(q.Add(0.0) is not None, 'no more data for a tree used up')


def ranks(env, h, b, two=True):
  """Any noisy counts: quantiles are in range and ordered, each node is noised once."""
  w = World(env, False, h, b)
  o = w.options()
  q = w.new(o)
  w.fresh()
  w.noises = 'any'
  r1, r2 = env.prob('r1'), env.prob('r2')
  env.assume(r1 <= r2)
  v1 = G.error(env, q.Result(r1), 'Result')
  n = len(w.calls)
  again = G.error(env, q.Result(r1), 'Result')
  env.check(len(w.calls) == n, 'a node is noised once')
  env.check_eq(v1, again, 'the same rank gives the same quantile')
  env.check(q.Add(0.0) is not None, 'no data after a result')
  v2 = G.error(env, q.Result(r2), 'Result') if two else v1
  env.check(len(w.calls) <= sum(b**(i + 1) for i in range(h)), 'a node is noised once')
  for v in (v1, v2):
    env.check_le(w.lo, v + w.slack, 'the quantile is within the bounds')
    env.check_le(v - w.slack, w.hi, 'the quantile is within the bounds')
  env.check_le(v1, v2 + w.slack, 'a larger rank gives no smaller quantile')
  v, err = q.Result(env.real('above', lo=1, lo_open=True))
  env.check(err is not None, 'a rank above 1 is refused')
  v, err = q.Result(env.real('below', hi=0, hi_open=True))
  env.check(err is not None, 'a negative rank is refused')


def exact_leaves(env, h, b, leaves):
  """Without noise, the quantile of a rank is in the leaf of the element of that rank."""
  w = World(env, False, h, b)
  o = w.options()
  xs = [w.element('x%d' % i, l) for i, l in enumerate(leaves)]
  q = w.new(o)
  for x in xs:
    q.Add(x)
  w.fresh()
  r = env.prob('r')
  k = env.choice('k', list(range(len(leaves))))
  n = len(leaves)
  env.assume(r >= env.frac(k, n) + 1e-3)
  env.assume(r <= env.frac(k + 1, n) - 1e-3)
  v = G.error(env, q.Result(r), 'Result')
  step = (w.hi - w.lo) / w.leaves
  leaf = sorted(leaves)[k]
  env.check_le(w.lo + step * leaf, v + w.slack, 'the quantile is in the leaf of its element')
  env.check_le(v - w.slack, w.lo + step * (leaf + 1), 'the quantile is in the leaf of its element')


def different(env, opt):
  w = World(env, opt == 'Delta')
  o = w.options()
  p = dict(o)
  if opt == 'Noise':
    p[opt] = w.rt.noise.Gaussian()
  elif opt == 'product':         # the same number of nodes noised, in a flatter tree
    p['TreeHeight'], p['MaxPartitionsContributed'] = 1, o['MaxPartitionsContributed'] * 2
  elif opt in ('TreeHeight', 'BranchingFactor'):
    p[opt] = o[opt] + env.choice('d', [1, 2])
  else:
    d = env.pos('d')
    if opt.startswith('Max'):
      env.assume(d >= 1)
      d = w.integer(d)
    p[opt] = o[opt] - d if opt == 'Lower' else o[opt] + d
    if opt == 'Lower':
      env.assume(p[opt] > 0)
    if opt == 'Delta':
      env.assume(p[opt] < 1)
    if opt == 'Upper':
      env.assume(o['Lower'] > 0)
  a, c = w.new(o), w.new(p)
  env.check(a.Merge(c) is not None, 'trees with another %s do not merge' % opt)
  v, err = c.Result(0.5)
  env.check(err is None, 'a refused merge leaves the other usable')


def refuses(env):
  w = World(env)
  l0, m = w.integer(env.real('l0')), w.integer(env.real('m'))
  lo, hi = env.real('lo'), env.real('hi')
  h = env.choice('h', [-1, 0, 1, 3])
  b = env.choice('b', [-1, 0, 1, 2, 3])
  w.bad = env.choice('the noise refuses', [False, True])
  w.kind = 'quantiles'
  r, err = w.new({'Epsilon': env.real('eps'), 'MaxPartitionsContributed': l0,
                  'MaxContributionsPerPartition': m, 'Lower': lo, 'Upper': hi, 'TreeHeight': h,
                  'BranchingFactor': b}, ok=False)
  ok = (env.fork(l0 != 0) and env.fork(m > 0) and env.fork(lo < hi) and h >= 0 and
        b in (0, 2, 3) and not w.bad)
  env.check((err is None) == ok, 'accepts exactly the options in range')


def leaf_of(env, lo, hi, h, b):
  """Bit-exact: every double within the bounds is counted in a leaf of the tree."""
  import z3
  from se.golang import exact as X
  from harness import C40
  rt = G.load(env)
  for c in (rt.noise.laplace, rt.noise.gaussian):
    c.AddNoiseFloat64 = lambda self, x, *a: (x, None)
  q = G.error(env, rt.dpagg.NewBoundedQuantiles(rt.dpagg.BoundedQuantilesOptions(
      Epsilon=1.0, MaxPartitionsContributed=1, MaxContributionsPerPartition=1, Lower=lo, Upper=hi,
      TreeHeight=h, BranchingFactor=b)), 'New')
  if not hasattr(q, 'getIndex'):
    raise core.Unsupported('getIndex')
  first, n = (b**h - 1) // (b - 1), b**h

  def f(X_, t, must):
    if X_:
      x = z3.fpBVToFP(t['x'], X.F64)
      r = q.getIndex(X.D(x, t['x']))
      if isinstance(r, int):
        must(first <= r < first + n, 'an element is counted in a leaf')
        return
      must(r.t >= first, 'an element is counted in a leaf')
      must(r.t < first + n, 'an element is counted in a leaf')
    else:
      import struct
      x = struct.unpack('<d', struct.pack('<Q', t['x'] % 2**64))[0]
      r = q.getIndex(x)
      must(first <= r < first + n, 'an element is counted in a leaf')
  C40.exactly(env, {'x': 'V'}, [
      lambda t: z3.fpGEQ(z3.fpBVToFP(t['x'], X.F64), z3.FPVal(lo, X.F64)),
      lambda t: z3.fpLEQ(z3.fpBVToFP(t['x'], X.F64), z3.FPVal(hi, X.F64))], f)


def cases(tier):
  deep = tier == 'thorough'
  out = []
  for h, b in ((1, 2), (2, 2), (1, 4), (3, 2), (2, 3)):
    for leaf in range(b**h):
      if deep or leaf in (0, 1, b**h // 2, b**h - 2, b**h - 1):
        out.append(Case('counted-%d-%d-%d' % (h, b, leaf), counted,
                        kw={'h': h, 'b': b, 'gauss': leaf % 2 == 1, 'leaf': leaf}))
  out += [Case('extreme-' + s, extreme, kw={'what': s})
          for s in ('nan', 'inf', '-inf', 'above', 'below', 'upper', 'lower')]
  for how in ('add', 'merge', 'store'):
    for i, j in ((0, 0), (0, 1), (1, 2), (3, 0), (2, 3)):
      out.append(Case('%s-%d-%d' % (how, i, j), joined, kw={'i': i, 'j': j, 'how': how}))
  for h, b in ((1, 2), (1, 3), (2, 2)):
    out.append(Case('ranks-%d-%d' % (h, b), ranks, kw={'h': h, 'b': b, 'two': deep or h == 1}))
  for l in ((0,), (1, 2), (0, 3), (2, 2), (3, 1, 0)):
    for h, b in ((1, 4), (2, 2)):
      out.append(Case('exact-%d-%s' % (h, '-'.join(map(str, l))), exact_leaves,
                      kw={'h': h, 'b': b, 'leaves': l}))
  out += [Case('different-' + s, different, kw={'opt': s}) for s in (
      'Epsilon', 'Delta', 'MaxPartitionsContributed', 'MaxContributionsPerPartition', 'Lower',
      'Upper', 'Noise', 'TreeHeight', 'BranchingFactor', 'product')]
  out.append(Case('refuses', refuses))
  for lo, hi in ((0.0, 1.0), (-2.0**53, 1.0), (-1.0, 2.0**-60), (-1e17, 5.0), (0.1, 7.3)):
    for h, b in ((1, 2), (4, 16), (2, 10)):
      if deep or (h, b) == (4, 16) and lo != 0.1:
        out.append(Case('leaf-%g-%g-%d' % (lo, hi, b), leaf_of,
                        kw={'lo': lo, 'hi': hi, 'h': h, 'b': b}))
  return out
