"""C40: the Go library's noise is exactly calibrated, on a grid that hides rounding."""
from se import core
from se.runner import Case
from harness import golib as G

FUNCTIONS = ['go/noise: laplace.AddNoiseFloat64/AddNoiseInt64, addLaplaceFloat64/Int64, geometric, '
             'twoSidedGeometric, gaussian.AddNoiseFloat64/AddNoiseInt64, addGaussianFloat64/Int64, '
             'SigmaForGaussian, deltaForGaussian, symmetricBinomial, binomialProbability, '
             'roundToMultiple(OfPowerOfTwo)', 'go/rand: Boolean, Sign, I63n, Uniform, Geometric']
BOUNDS = ['releases: value, sensitivities, epsilon, delta, grid and noise sample symbolic; the '
          'geometric sampler with its largest value lowered to 3..5 (thorough 6), any midpoint; '
          'binomial proposals with geometric part up to 3; the sigma search with an arbitrary '
          'decreasing delta, accuracy 1/2, up to two doublings or halvings']
ASSUMPTIONS = ['floating-point rounding is not modelled; integer overflow is modelled for the '
               'product of the sensitivities only', 'gonum and the source of random bytes are ideal']

BIG = 2.0**63


def setup(env, x_int=False, overflow=False):
  rt = G.load(env)
  rt.overflow = overflow
  n = rt.noise
  log = {}
  sample = rt.integer(env.real('sample'))

  def ceil(x):
    if 'arg' in log:
      raise core.Inconclusive('the grid is computed twice')
    log['arg'] = x
    if 'grid>=1' in log:
      if not log['grid>=1']:
        g = env.real('g', lo=0, hi=1, lo_open=True, hi_open=True)
      elif env.choice('grid is one', [True, False]):
        g = env.num(1.0)
      else:
        g = rt.integer(env.real('g', lo=2))
    else:
      g = env.pos('g')
    env.assume(x <= g)
    env.assume(g < 2 * x)
    log['g'] = g
    return g

  def draw(lam):
    if 'lam' in log:
      env.fail('noise is drawn twice')
    log['lam'] = lam
    return sample if env.symbolic or isinstance(sample, int) else int(sample)
  n.ceilPowerOfTwo = ceil
  n.twoSidedGeometric = draw
  n.symmetricBinomial = draw
  return rt, n, log, sample


def whole(env, rt, v):
  if env.symbolic:
    return core.is_b(v) or rt.is_int(v)
  return abs(v - round(v)) <= 1e-6


def on_grid(env, rt, out, x, g, s, label):
  """out = x rounded to the grid plus s steps of the grid."""
  base = out - g * s
  env.check_le(base - x, g / 2, label + ': rounds the value to the nearest grid point')
  env.check_le(x - base, g / 2, label + ': rounds the value to the nearest grid point')
  if not whole(env, rt, base / g):
    env.fork(2 * base == g)      # a witness to try first
    env.fail(label + ': the released value is not on the grid')


def params(env, delta):
  l0 = env.nat('l0', 1)
  eps = env.real('eps', lo=2.0**-50)
  d = env.real('delta', lo=0, hi=1, lo_open=True, hi_open=True) if delta else 0.0
  return l0, eps, d


def laplace_float(env):
  rt, n, log, s = setup(env)
  l0, eps, d = params(env, False)
  linf = env.pos('linf')
  x = env.real('x')
  out = G.error(env, n.Laplace().AddNoiseFloat64(x, l0, linf, eps, d), 'AddNoiseFloat64')
  calibrated(env, log, eps, l0 * linf)
  on_grid(env, rt, out, x, log['g'], s, 'float')


def calibrated(env, log, eps, l1):
  g, lam = log['g'], log['lam']
  env.check_eq(log['arg'] * eps * 2**40, l1, 'the grid is a 2^-40 part of the noise scale')
  # two neighbouring values are at most l1 / g + 1 steps apart once rounded to the grid
  env.check_eq(eps * g / lam - l1, g, 'noise for one step of the grid beyond the sensitivity')


def integer_input(env, rt, name, lo=None):
  v = env.nat(name, lo) if lo is not None else env.real(name)
  if env.symbolic:
    return rt.integer(v)
  return int(v)


def laplace_int(env, coarse):
  rt, n, log, s = setup(env)
  log['grid>=1'] = coarse
  _, eps, d = params(env, False)
  l0 = integer_input(env, rt, 'l0', 1)
  linf = integer_input(env, rt, 'linf', 1)
  x = integer_input(env, rt, 'x')
  out = G.error(env, n.Laplace().AddNoiseInt64(x, l0, linf, eps, d), 'AddNoiseInt64')
  calibrated(env, log, eps, l0 * linf)
  int_out(env, rt, out, x, log['g'], s, coarse)


def int_out(env, rt, out, x, g, s, coarse):
  if coarse:
    on_grid(env, rt, out, x, g, s, 'integer')
  else:                          # x is on the grid already; the sum is rounded afterwards
    d = out - x - g * s
    env.check_le(d, env.frac(1, 2), 'integer: the noisy value is rounded')
    env.check_le(-d, env.frac(1, 2), 'integer: the noisy value is rounded')
    if not whole(env, rt, out - x):
      env.fail('integer: the released value is not an integer')


def int_overflow(env):
  """Sensitivities whose product does not fit an integer."""
  rt, n, log, s = setup(env, overflow=True)
  eps = env.real('eps', lo=2.0**-50)
  l0 = integer_input(env, rt, 'l0', 1)
  linf = integer_input(env, rt, 'linf', 1)
  env.assume(l0 < 2**52)
  env.assume(linf < 2**52)
  n.addLaplaceInt64 = lambda x, e, l1: log.__setitem__('l1', l1) or 0
  _, err = n.Laplace().AddNoiseInt64(0, l0, linf, eps, 0.0)
  if err is None:
    if 'l1' not in log:
      raise core.Inconclusive('addLaplaceInt64 was not called')
    env.check_le(l0 * linf, log['l1'], 'the noise is scaled to the product of the sensitivities')


def gauss(env, kind):
  rt, n, log, s = setup(env)
  log['grid>=1'] = kind == 'int-coarse'
  if kind == 'float':
    del log['grid>=1']
  l0, eps, d = params(env, True)
  got = []
  sigma = env.pos('sigma')

  def sig(*a):
    got.append(a)
    return sigma
  n.SigmaForGaussian = sig
  if kind == 'float':
    linf = env.pos('linf')
    x = env.real('x')
    out = G.error(env, n.Gaussian().AddNoiseFloat64(x, l0, linf, eps, d), 'AddNoiseFloat64')
  else:
    l0 = integer_input(env, rt, 'l0', 1)
    linf = integer_input(env, rt, 'linf', 1)
    x = integer_input(env, rt, 'x')
    out = G.error(env, n.Gaussian().AddNoiseInt64(x, l0, linf, eps, d), 'AddNoiseInt64')
  if len(got) != 1:
    env.fail('sigma is computed %d times' % len(got))
  for a, b, w in zip(got[0], (l0, linf, eps, d), ('l0', 'lInf', 'epsilon', 'delta')):
    env.check_eq(a, b, 'sigma is calibrated to the %s given' % w)
  g = log['g']
  env.check_eq(log['arg'] * 2**57, 2 * sigma, 'the grid is a 2^-57 part of two sigma')
  env.check_eq(log['lam'] * g, 2 * sigma, 'the binomial has standard deviation sigma')
  if kind == 'float':
    on_grid(env, rt, out, x, g, s, 'float')
  else:
    int_out(env, rt, out, x, g, s, kind == 'int-coarse')


def refuses(env, which):
  """Arguments outside the range of a mechanism give an error and no noise."""
  rt, n, log, s = setup(env)
  n.SigmaForGaussian = lambda *a: env.pos('sigma')
  l0, linf, eps, d = env.real('l0'), env.real('linf'), env.real('eps'), env.real('delta')
  l0 = integer_input(env, rt, 'l0')
  mech = n.Laplace() if which.startswith('laplace') else n.Gaussian()
  if which.endswith('int'):
    linf = integer_input(env, rt, 'linf')
    log['grid>=1'] = False
    _, err = mech.AddNoiseInt64(0, l0, linf, eps, d)
  else:
    _, err = mech.AddNoiseFloat64(0.0, l0, linf, eps, d)
  ok = env.fork(l0 > 0) and env.fork(linf > 0) and env.fork(eps >= 2.0**-50)
  if which.startswith('laplace'):
    ok = ok and env.fork(d == 0)
  else:
    ok = ok and env.fork(d > 0) and env.fork(d < 1)
  env.check(ok == (err is None), 'noise is added exactly for arguments in range')


def geometric(env, top):
  """The law of the geometric sampler, its largest value lowered to top."""
  rt = G.load(env, text={'noise': lambda t: t.replace('9223372036854775807', str(top)).replace(
      '9.223372036854776e+18', '%d.0' % top)})
  n = rt.noise
  E = env.real('E', lo=1, lo_open=True)      # e to the rate
  lam = env.log(E)
  state = {}
  mids = {}

  def uniform():
    if state['d'].pos > 2 * top:
      env.fail('the search does not narrow its interval')
      raise G.Reject()
    return G.Uniform(state['d'])
  rt.rand.Uniform = uniform

  def floor(x):
    k = (state['n'], tuple(state['d'].script[:state['d'].pos]))
    if k not in mids:
      mids[k] = -env.choice('mid%d' % len(mids), list(range(1, top)))
    return mids[k]
  n._pkg_math = proxy(n._pkg_math, Floor=floor)

  def run(d):
    state['d'], state['n'] = d, 0
    return n.geometric(lam)
  out = G.law(run)
  R = 1 / E
  for k in range(1, top + 1):
    w = sum([w for w, v in out if not isinstance(v, bool) and v == k], 0)
    want = (1 - R) * R**(k - 1) + (R**top if k == top else 0)
    env.check_eq(w, want, 'probability of the value %d of %d' % (k, top))
  if any(v is None or not 1 <= v <= top for _, v in out):
    env.fail('a value out of range')


def proxy(m, **kw):
  import types
  r = types.SimpleNamespace(**vars(m))
  for k, v in kw.items():
    setattr(r, k, v)
  return r


def two_sided(env):
  """One round of the two-sided sampler: symmetric, with the rate of its geometric part."""
  rt = G.load(env)
  n = rt.noise
  E = env.real('E', lo=1, lo_open=True)
  lam = env.log(E)
  R = 1 / E
  state = {}

  def geo(x):
    env.check_eq(x, lam, 'the geometric part has the given rate')
    if state['n']:
      raise G.Reject()
    state['n'] = 1
    return state['d'].pick([((1 - R) * R**k, k + 1) for k in range(4)])
  n.geometric = geo
  half = env.frac(1, 2)
  rt.rand.Sign = lambda: state['d'].pick([(half, 1.0), (half, -1.0)])
  rt.rand.Boolean = lambda: state['d'].pick([(half, True), (half, False)])

  def run(d):
    state['d'], state['n'] = d, 0
    return n.twoSidedGeometric(lam)
  out = G.law(run)
  one = sum([w for w, v in out if v is not None and v == 0], 0)
  for k in range(1, 4):
    for sgn in (1, -1):
      w = sum([w for w, v in out if v is not None and v == sgn * k], 0)
      env.check_eq(w, one * R**k, 'probability of %d relative to zero' % (sgn * k))
  env.check_lt(0, one, 'zero has a positive probability')
  if any(v is not None and abs(v) > 3 for _, v in out):
    env.fail('a value out of range')


def sigma_search(env):
  rt = G.load(env)
  n = rt.noise
  l0, eps, d = params(env, True)
  linf = env.pos('linf')
  root = env.pos('root')
  env.assume(root * root == l0)
  l2 = linf * root
  pts = []
  n.gaussianSigmaAccuracy = 0.5

  def delta(sig, a, b, c):
    env.check_eq(a, l0, 'delta is asked for the given l0 sensitivity')
    env.check_eq(b, linf, 'delta is asked for the given lInf sensitivity')
    env.check_eq(c, eps, 'delta is asked for the given epsilon')
    for s, v in pts:
      if env.fork(s == sig):
        return v
    v = env.real('delta%d' % len(pts), lo=0, hi=1)
    for s, w in pts:
      if env.fork(s < sig):
        env.assume(v <= w)
      else:
        env.assume(v >= w)
    pts.append((sig, v))
    if len(pts) > 5:
      raise core.PathEnd()
    return v
  n.deltaForGaussian = delta
  r = n.SigmaForGaussian(l0, linf, eps, d)
  hit = [v for s, v in pts if env.fork(s == r)]
  if not hit:
    env.fail('the returned sigma was not examined')
  env.check_le(hit[0], d, 'the returned sigma keeps delta')
  near = [v for s, v in pts if env.fork(s < r) and env.fork(r <= s * env.frac(3, 2))]
  if not any(env.fork(v > d) for v in near):
    env.fail('a sigma smaller by more than the accuracy would do')


def delta_formula(env):
  rt = G.load(env)
  n = rt.noise
  E = env.real('E', lo=1, lo_open=True)
  eps = env.log(E)
  root = env.pos('root')
  l0 = root * root
  linf, sig = env.pos('linf'), env.pos('sigma')
  if env.symbolic:
    old = n._pkg_math.Sqrt
    n._pkg_math = proxy(n._pkg_math, Sqrt=lambda x: root if core.SymReal.lift(
        x).key() == core.SymReal.lift(l0).key() else old(x))
  v = n.deltaForGaussian(sig, l0, linf, eps)
  l2 = linf * root
  want = env.Phi(l2 / (2 * sig) - eps * sig / l2) - E * env.Phi(-l2 / (2 * sig) - eps * sig / l2)
  env.check_eq(v, want, 'delta of the Gaussian mechanism')


def binomial(env, part):
  """Rejection sampling of the binomial: proposal times acceptance is proportional to its law."""
  rt = G.load(env)
  n = rt.noise
  state = {}
  N = env.real('sqrtN', lo=64, hi=128) if part == 'small' else env.real(
      'sqrtN', lo=2.0**56, hi=2.0**57)
  half = env.frac(1, 2)
  seen = []
  formula = n.binomialProbability

  def prob(s, m):
    env.check_eq(s, N, 'the law is that of the given size')
    seen.append(m)
    return state['p']
  n.binomialProbability = prob
  rt.rand.Geometric = lambda: state['d'].pick(
      [(env.frac(1, 2**(k + 1)), float(k + 1)) for k in range(3)])
  rt.rand.Boolean = lambda: state['d'].pick([(half, True), (half, False)])

  def below(k):
    if 'step' not in state:
      state['step'] = k
      state['u'] = rt.integer(env.real('u', lo=0))
      env.assume(state['u'] < k)
      if not env.symbolic:
        state['u'] = int(state['u'])
    elif not env.fork(state['step'] == k):
      env.fail('the offset is drawn from two ranges')
    state['d'].weight = state['d'].weight / k
    return state['u']
  rt.rand.I63n = below
  draws = []

  def uniform():
    draws.append(G.Uniform(state['d']))
    return draws[-1]
  rt.rand.Uniform = uniform

  old = rt.rand.Geometric

  def once():
    if state['n']:
      raise G.Reject()
    state['n'] = 1
    return old()
  rt.rand.Geometric = once
  if part == 'law':
    p = env.real('p', lo=0, hi=1, lo_open=True)
    state['p'] = p

    def run(d):
      state['d'], state['n'] = d, 0
      del seen[:], draws[:]
      v = n.symmetricBinomial(N)
      if len(seen) != 1 or len(draws) != 1:
        raise core.Inconclusive('law or uniform draw used %d, %d times' % (len(seen), len(draws)))
      env.check_eq(seen[0], v, 'the value returned is the one whose probability was computed')
      return v
    out = [(w, v) for w, v in G.law(run) if v is not None]
    step = state['step']
    if len(out) != 6:
      env.fail('%d values instead of 6' % len(out))
    for w, v in out:
      env.check_eq(w, out[0][0], 'every value is as likely as its law says')
    env.check_lt(0, out[0][0], 'values are accepted')
    # the proposals cover every integer once: blocks of one step around zero
    for t in range(-3, 3):
      hit = [1 for _, v in out if env.fork(v == step * t + state['u'])]
      if len(hit) != 1:
        env.fail('block %d is proposed %d times' % (t, len(hit)))
    env.check_le(N * env.frac(14, 10), step, 'a step is at least a standard deviation times 2.8')
  else:
    m = rt.integer(env.real('m'))
    env.assume(env.log(N) <= (5 if part == 'small' else 40))
    env.assume(env.log(N) >= 4)
    v = formula(N, m if env.symbolic else int(m))
    w = formula(N, -m if env.symbolic else -int(m))
    env.check_eq(v, w, 'the law is symmetric')
    env.check_le(0, v, 'the law is not negative')
    bound = env.sqrt(env.num(2) / env.num(PI)) / N * env.exp(-2 * m * m / (N * N))
    env.check_le(v, bound, 'at most the Gaussian density')
    if env.fork(m <= N) and env.fork(-m <= N):
      env.check_le(bound * env.frac(3, 4), v, 'close to the Gaussian density')


PI = 3.141592653589793


class Bits:
  """A byte of fresh random bits, or a part of it."""

  def __init__(self, log, serial, bits, shift=0):
    self.log, self.serial, self.bits, self.shift = log, serial, bits, shift

  def go_op(self, op, a, b, k):
    if op in ('&', '>>') and a is self and isinstance(b, int):
      if op == '&':
        return Bits(self.log, self.serial, [i for i in self.bits if b >> (i - self.shift) & 1],
                    self.shift)
      return Bits(self.log, self.serial, [i for i in self.bits if i - self.shift >= b],
                  self.shift + b)
    if op == '&' and isinstance(a, int):
      return self.go_op('&', self, a, k)
    if op == '%' and b == 2:
      return self.go_op('&', self, 1, k)
    raise core.Unsupported('operation %s on random bits' % op)

  go_bit = go_op

  def go_wrap(self, k):
    return self

  def go_conv(self, a, b):
    return self

  def go_cmp(self, a, op, b):
    if a is not self or b not in (0, 1) or len(self.bits) != 1:
      raise core.Inconclusive('comparison of several random bits')
    self.log.append((self.serial, self.bits[0]))
    return (b == 0) == (op in ('>', '!='))


def booleans(env):
  """Every boolean is one fresh bit."""
  rt = G.load(env)
  log, count = [], [0]

  def byte():
    count[0] += 1
    return Bits(log, count[0], list(range(8)))
  rt.rand.U8 = byte
  use = env.choice('use', ['Boolean', 'Sign'])
  n = 20
  for i in range(n):
    v = getattr(rt.rand, use)()
    if len(log) != i + 1:
      raise core.Inconclusive('a draw looked at %d bits' % (len(log) - i))
    env.check(v is True or v == 1, 'a set bit gives true and the sign plus')
  env.check(len(set(log)) == n, 'no random bit is used twice')


class Word:
  """A 64-bit random word of which only the remainder or the low bits are used."""

  def __init__(self, rt, v):
    self.rt, self.v = rt, v

  def go_conv(self, a, b):
    return self

  def go_wrap(self, k):
    return self

  def go_op(self, op, a, b, k):
    if op == '&' and a is self and isinstance(b, int):
      op, b = '%', b + 1
    if op == '%' and a is self and isinstance(b, int) and b > 0 and b & (b - 1) == 0:
      return self.v(b)
    raise core.Unsupported('operation %s on a random word' % op)

  def go_cmp(self, a, op, b):
    raise core.Unsupported('comparison of a random word')


def uniform(env, k):
  """Given the geometric part k, the draw is 2^-k (1 + f) with f from 53 random bits."""
  rt = G.load(env)
  count, got = [0], []

  def low(m):
    v = rt.integer(env.real('low', lo=0, hi=m - 1))
    got.append((v if env.symbolic else int(v), m))
    return got[-1][0]

  def word():
    count[0] += 1
    return Word(rt, low)
  rt.rand.U64 = word
  rt.rand.Geometric = lambda: float(k)
  v = rt.rand.Uniform()
  if count[0] != 1 or len(got) != 1:
    raise core.Inconclusive('%d random words, used %d times' % (count[0], len(got)))
  env.check_lt(0, v, 'positive')
  env.check_le(v, 1, 'at most one')
  if k < 1000:
    w, m = got[0]
    env.check_eq(v * 2**k - 1, w / env.num(m), 'the low bits fill the interval evenly')


class Zeros:
  """A random byte known by its number of leading zeros."""

  def __init__(self, z):
    self.z = z

  def go_op(self, *a):
    raise core.Unsupported('operation on a random byte')

  def go_wrap(self, k):
    return self

  def go_conv(self, a, b):
    return self

  def go_clz8(self):
    return self.z

  def go_cmp(self, a, op, b):
    if a is self and b == 0 and op in ('==', '!=', '>'):
      return (self.z == 8) == (op == '==')
    raise core.Unsupported('comparison of a random byte')


def geometric_part(env):
  """The number of leading zeros of an unending stream of bits, plus one."""
  rt = G.load(env)
  state = {}

  def byte():
    state['n'] += 1
    if state['n'] > 3:
      raise G.Reject()
    return Zeros(state['d'].pick([(env.frac(1, 2**(z + 1)), z) for z in range(8)] +
                                 [(env.frac(1, 256), 8)]))
  rt.rand.U8 = byte

  def run(d):
    state['d'], state['n'] = d, 0
    return rt.rand.Geometric()
  out = G.law(run)
  for k in range(1, 25):
    w = sum([w for w, v in out if v == k], 0)
    env.check_eq(w, env.frac(1, 2**k), 'probability of %d' % k)


def exactly(env, names, assume, f, others=()):
  """Bit-exact check of f(terms, must), whose obligations z3 decides; replayed on numbers."""
  import z3
  from se.golang import exact as X
  if env.symbolic:
    terms = {k: (z3.Int(k) if kind == 'Z' else z3.BitVec(k, 64)) for k, kind in names.items()}
    bad = X.run(lambda ex: f(X, terms, ex.must), terms, [a(terms) for a in assume],
                stats=env.e.stats)
    for g in others:             # the same property, seen in another way
      if bad and X.run(lambda ex: g(X, terms, ex.must), terms, [a(terms) for a in assume],
                       stats=env.e.stats) is None:
        bad = None
    for k in names:
      hi, lo = env.real(k + '_hi', lo=-2**40, hi=2**40), env.real(k + '_lo', lo=0, hi=2**32)
      if bad:
        v = bad[1][k]
        env.assume(hi == v >> 32)
        env.assume(lo == v & (2**32 - 1))
    env.check(bad is None, bad[0] if bad else 'bit-exact obligations')
  else:
    vals = {k: (int(env.real(k + '_hi', lo=-2**40, hi=2**40)) << 32) +
            int(env.real(k + '_lo', lo=0, hi=2**32)) for k in names}
    f(None, vals, lambda c, label: env.check(bool(c), label))


def ceil_power(env):
  """The grid is the power of two at or above its argument, for every double."""
  import z3
  rt = G.load(env)
  n = rt.noise

  def f(X, t, must, high=False):
    if X:
      r = n.ceilPowerOfTwo(X.D(z3.fpBVToFP(t['x'], X.F64), t['x']))
      x = z3.fpBVToFP(t['x'], X.F64)
      big = z3.FPVal(2.0**1023, X.F64)
      pos = z3.And(z3.fpGT(x, z3.FPVal(0.0, X.F64)), z3.Not(z3.fpIsInf(x)))
      if isinstance(r, float):
        must(z3.Or(z3.Not(pos), z3.fpGT(x, big)) if r != r else False, 'no grid')
        return
      must(z3.And(pos, z3.fpLEQ(x, big)), 'a grid for a positive number only')
      must(z3.Extract(51, 0, r.bits()) == 0, 'the grid is a power of two')
      must(z3.fpGEQ(r.t, x), 'the grid is not below its argument')
      must(z3.Or(z3.fpIsSubnormal(x), z3.fpEQ(r.t, x), z3.fpLT(z3.fpMul(
          X.RNE, r.t, z3.FPVal(0.5, X.F64)), x)), 'the grid is the next power of two')
    else:
      import math
      import struct
      x = struct.unpack('<d', struct.pack('<Q', t['x'] % 2**64))[0]
      r = n.ceilPowerOfTwo(x)
      if x > 0 and x <= 2.0**1023:
        must(math.frexp(r)[0] == 0.5 and r >= x, 'the grid is a power of two')
        must(r / 2 < x or x < 2.0**-1022, 'the grid is the next power of two')
      else:
        must(r != r, 'no grid')
  exactly(env, {'x': 'V'}, [], f)


def next_float(env, larger):
  """The double next to an int64 bounds it on the right side."""
  import z3
  rt = G.load(env)
  n = rt.noise
  fn = n.nextLargerFloat64 if larger else n.nextSmallerFloat64

  def f(X, t, must, high=False):
    if X:
      r = fn(X.V(t['n'], 'int64'))
      top = z3.fpEQ(r.t, z3.FPVal(2.0**63, X.F64))
      v = z3.fpToSBV(X.RTZ, r.t, z3.BitVecSort(64))
      ok = z3.And(z3.fpGEQ(r.t, z3.FPVal(-2.0**63, X.F64)), z3.fpLEQ(r.t, z3.FPVal(
          2.0**63, X.F64)))
      must(ok, 'the bound is in range')
      if larger:
        must(z3.Or(top, v >= t['n']), 'the bound is at least the integer')
        must(z3.Or(top, v - t['n'] < 1024), 'the bound is the next double')
      else:
        must(z3.And(z3.Not(top), v <= t['n']), 'the bound is at most the integer')
        must(t['n'] - v < 1024, 'the bound is the next double')
    else:
      k = t['n'] % 2**64
      k -= 2**64 if k >= 2**63 else 0
      r = fn(k)
      must(int(r) >= k if larger else int(r) <= k, 'the bound is on the right side')
      must(abs(int(r) - k) < 1024, 'the bound is the next double')
  exactly(env, {'n': 'V'}, [], f)


def round_multiple(env, g):
  """Rounding an int64 to a multiple of the grid, exactly."""
  rt = G.load(env)

  def f(X, t, must, high=False):
    x = X.Z(t['x'], 'int64') if X else t['x']
    r = rt.noise.roundToMultiple(x, g)
    r, x = (r.t, x.t) if X else (r, x)
    must(r % g == 0, 'a multiple of the grid')
    must(2 * (r - x) <= g, 'at most half a step up')
    must(2 * (x - r) <= g, 'at most half a step down')
  exactly(env, {'x': 'Z'}, [lambda t: t['x'] >= -2**62, lambda t: t['x'] <= 2**62], f)


def below(env, n):
  """I63n: every accepted word stands for its remainder, and whole blocks are accepted."""
  rt = G.load(env)

  def f(X, t, must, high=False):
    words = []

    def word():
      if not words:
        raise G.Reject()
      w = words.pop()
      return X.Z(w, 'uint64') if X else w
    rt.rand.U64 = word
    words.append(t['w'])
    try:
      r = rt.rand.I63n(n)
    except G.Reject:
      return
    r = r.t if X else r
    low = (t['w'] / 2 if X else t['w'] // 2) if high else t['w'] % 2**63
    must(r >= 0, 'the result is not negative')
    must(r < n, 'the result is below the bound')
    must((low - r) % n == 0, 'the result is the remainder')
    other = low - r + t['other']
    if high:
      other = 2 * other
    if not X and not 0 <= t['other'] < n:
      return
    words.append(other)
    try:
      s = rt.rand.I63n(n)
    except G.Reject:
      must(False, 'the rest of the block is accepted')
      return
    must((s.t if X else s) == t['other'], 'every remainder is as likely as the others')
  exactly(env, {'w': 'Z', 'other': 'Z'}, [
      lambda t: t['w'] >= 0, lambda t: t['w'] < 2**64, lambda t: t['other'] >= 0,
      lambda t: t['other'] < n], f,
      [lambda X, t, must: f(X, t, must, high=True)])


def int63(env):
  """The 63-bit source: never negative, and its low or high bits are those of the word."""
  import z3
  rt = G.load(env)
  rt.overflow = True
  src = rt.rand.randSource() if hasattr(rt.rand, 'randSource') else None
  if src is None:
    return

  def f(X, t, must):
    rt.word = lambda b: X.V(t['w'], 'uint64') if X else t['w'] % 2**64
    rt.rand.readRandBuf = lambda b: (8, None)
    rt.rand.U64 = lambda: rt.word(None)
    r = src.Int63()
    if X:
      must(r.t >= 0, 'the number is not negative')
    else:
      must(r >= 0, 'the number is not negative')
  exactly(env, {'w': 'V'}, [], f)


def cases(tier):
  deep = tier == 'thorough'
  out = [Case('laplace-float', laplace_float),
         Case('laplace-int-fine', laplace_int, kw={'coarse': False}),
         Case('laplace-int-coarse', laplace_int, kw={'coarse': True}),
         Case('laplace-int-overflow', int_overflow)]
  out += [Case('gauss-' + k, gauss, kw={'kind': k}) for k in ('float', 'int-fine', 'int-coarse')]
  out += [Case('refuses-' + k, refuses, kw={'which': k})
          for k in ('laplace-float', 'laplace-int', 'gauss-float', 'gauss-int')]
  out += [Case('geometric-%d' % k, geometric, kw={'top': k}) for k in (3, 4) + (5,) * deep]
  out += [Case('two-sided', two_sided), Case('sigma-search', sigma_search),
          Case('delta-formula', delta_formula), Case('binomial-law', binomial, kw={'part': 'law'}),
          Case('binomial-formula', binomial, kw={'part': 'formula'}),
          Case('binomial-formula-small', binomial, kw={'part': 'small'}),
          Case('booleans', booleans), Case('geometric-part', geometric_part)]
  out += [Case('ceil-power', ceil_power), Case('next-larger', next_float, kw={'larger': True}),
          Case('next-smaller', next_float, kw={'larger': False})]
  out += [Case('int63', int63)]
  out += [Case('round-multiple-%d' % k, round_multiple, kw={'g': 2**k})
          for k in ((0, 1, 13, 40, 60) if not deep else range(61))]
  out += [Case('below-%d' % k, below, kw={'n': k})
          for k in (1, 2, 3, 10, 2**31 - 1, 101904825965567745, 2**62, 2**62 + 1, 2**63 - 1)]
  out += [Case('uniform-%d' % k, uniform, kw={'k': k}) for k in (1, 2, 7, 1000)]
  return out
