"""C43: the kernel tester bounds delta by the discrepancy less its allowance."""
from se import core
from se.runner import Case
from harness import audlib as A

MMD = A.TEST + 'mmd_tester'
FUNCTIONS = ['mmd_tester.MMDPropertyTester', 'property_tester_utils.split_train_test_samples']
BOUNDS = ['4 to 7 samples a side (2 or 3 quadruples; thorough 9), scalar samples and vectors of '
          'dimension 2; samples, bandwidth, epsilon, delta and failure probability symbolic']
ASSUMPTIONS = ['at least four samples a side (with fewer, the data-dependent allowance divides by '
               'zero)']


def kernel(env, name, bw, x, y):
  d = 0
  for a, b in zip(x, y):
    if name == 'KERNEL_RBF':
      d = d + (a - b) * (a - b)
    else:
      d = d + (a - b if env.fork(a >= b) else b - a)
  return env.exp(-bw * d)


def estimate(env, name, x, y, dim, e=None, f=None, bw=None):
  """x, y: samples, each a tuple of numbers or (None) symbolic ones."""
  M = env.mod(MMD)
  C = env.mod(A.CFG)
  # exp(eps), the bandwidth and the failure probability through their logarithms
  E = env.num(e) if e else env.real('E', lo=1, lo_open=True)
  eps = env.log(E)
  if f == 'M':                  # the logarithm of 2 / f is a square
    root = env.real('root', lo=1, hi=2)
    L = root * root - env.log(env.num(2))
    f = 2 * env.exp(-root * root)
  elif f:
    L = env.log(env.num(f))
    f = 1 / env.num(f)
  else:
    L = env.pos('rootL')
    L = L * L
    f = env.exp(-L)
  if bw is None:
    U = env.real('U', lo=1, lo_open=True)
    bw = env.log(U)
  elif bw == 'log 3':
    bw = env.log(env.num(3))
  t = M.MMDPropertyTester(C.MMDPropertyTesterConfig(
      kernel=getattr(C.Kernel, name), bandwidth=bw, approximate_dp=A.approx(env, eps, 0.1)))

  def samples(side, vals):
    return [tuple(env.real('%s%d_%d' % (side, i, k)) if u is None else env.num(u)
                  for k, u in enumerate(v)) for i, v in enumerate(vals)]
  x, y = samples('x', x), samples('y', y)
  arr = lambda v: env.np.array([list(s) if dim else s[0] for s in v])
  r = t.estimate_lower_bound(arr(x), arr(y), f)
  hx, hy = len(x) // 2, len(y) // 2
  xa, xb, ya, yb = x[:hx], x[hx:], y[:hy], y[hy:]
  n = min(len(xa), len(xb), len(ya), len(yb))
  k = lambda a, b: kernel(env, name, bw, a, b)
  hs = [k(xa[i], xb[i]) - 2 * k(xa[i], ya[i]) + k(ya[i], yb[i]) for i in range(n)]
  mean = sum(hs) / n
  var = sum(h * h for h in hs) / n - mean * mean
  if not env.symbolic:
    var = max(0, var)
  elif not env.fork(var > 0):
    env.assume(var == 0)
    var = 0
  L2 = env.log(env.num(2)) + L
  tol = [env.sqrt(8 * L / n), env.sqrt(2 * var * L2 / n) + 28 * L2 / (3 * (n - 1))]
  a = E - 1 / E
  b = 1 + 1 / E
  c = E - 1

  # The bound decreases in the allowance, so the larger one has the smaller allowance, and it is
  # the non-negative root of b d^2 + 2 a d + c^2 = mean - tol, or -a / b where there is none.
  d = r * b + a                 # the square root taken
  lab = 'solves the inequality for the discrepancy less the smaller allowance'
  if not env.symbolic:
    w = max(0, a * a + b * (mean - min(tol) - c * c))
    env.check(abs(d - w ** 0.5) <= 1e-6 * (1 + abs(a)), lab)
    return
  s = tol[0] if env.fork(tol[0] <= tol[1]) else tol[1]
  w = a * a + b * (mean - s - c * c)
  if env.fork(w <= 0):
    env.check_eq(d, 0, lab)
  else:
    env.check(d >= 0, lab)
    env.check_eq(d * d, w, lab)


def judged(env):
  M = env.mod(MMD)
  C = env.mod(A.CFG)
  delta = env.real('delta', lo=0)
  dp = A.approx(env, env.pos('eps'), delta)
  t = M.MMDPropertyTester(C.MMDPropertyTesterConfig(
      kernel=C.Kernel.KERNEL_RBF, bandwidth=1.0, approximate_dp=dp))
  v = env.real('bound')
  rej = t.reject_property(v)
  if env.fork(v > delta):
    env.check(bool(rej), 'rejected above the claimed delta')
  elif env.fork(v < delta):
    env.check(not rej, 'kept below the claimed delta')
  else:
    env.check(not rej, 'kept at the claimed delta')
  pp = t.privacy_property.approximate_dp
  env.check(pp.epsilon is dp.epsilon and pp.delta is delta, 'tests the configured property')


def refused(env):
  M = env.mod(MMD)
  C = env.mod(A.CFG)
  mk = lambda k, e, d: M.MMDPropertyTester(C.MMDPropertyTesterConfig(
      kernel=k, bandwidth=1.0, approximate_dp=A.approx(env, e, d)))
  env.check(env.raises(lambda: mk(C.Kernel.KERNEL_UNSPECIFIED, 1.0, 0.1), ValueError)
            is not None, 'unknown kernel')
  e, d = env.real('e'), env.real('d')
  r = env.raises(lambda: mk(C.Kernel.KERNEL_LAPLACIAN, e, d), ValueError)
  if env.fork(e <= 0) or env.fork(d < 0):
    env.check(r is not None, 'invalid guarantees are refused')
  elif env.fork(d < 1):
    env.check(r is None, 'valid guarantees are accepted')
  t = mk(C.Kernel.KERNEL_LAPLACIAN, 1.0, 0.1)
  n = env.choice('n', [0, 1])
  x, y = env.np.zeros(n), env.np.zeros(4)
  if env.bool('swap'):
    x, y = y, x
  env.check(env.raises(lambda: t.estimate_lower_bound(x, y, 0.5), ValueError) is not None,
            'too few samples')


def cases(tier):
  out = [Case('judged', judged), Case('refused', refused)]
  N, sc = None, lambda *v: [(u,) for u in v]
  add = lambda label, name, x, y, dim=0, **k: out.append(Case(
      '%s-%s' % (name[7:10].lower(), label), estimate, kw=dict(name=name, x=x, y=y, dim=dim, **k)))
  known = dict(e=10, f=2, bw=1)
  for name in ('KERNEL_RBF', 'KERNEL_LAPLACIAN'):
    # symbolic samples in every position, known guarantee
    add('xa-yb', name, sc(N, 0, 0, 0), sc(0, 0, N, 0), **known)
    add('xb', name, sc(0, 0, N, 0), sc(0, 0, 0, 0), **known)
    add('ya', name, sc(0, 0, 0, 0), sc(0, N, 0, 0), **known)
    add('vector', name, [(0, 0), (N, 2), (0, 0), (0, 1)], [(0, 0), (1, 0), (0, 0), (1, 1)], 1,
        **known)
    add('uneven', name, sc(0, N, 0, 0, 7), sc(0, 0, 5, 0, 0, 6, 8), **known)
    add('longer', name, sc(0, 0, 5, 1, 0, 2, 6), sc(0, 1, 0, N, 1), **known)
    # known samples, symbolic guarantee
    x, y = sc(0, 1, 3, 0), sc(2, 1, 1, 0)
    add('bandwidth', name, x, y, e=10, f=2)
    add('epsilon', name, x, y, f=2, bw=1)
    add('failure', name, sc(0, 0, 1, 1), sc(2, 2, 0, 0), e=3, bw=1)
    # enough samples for the data-dependent allowance to be the smaller one
    n = 50                      # the variance is the square of a rational
    for m in (1, 10, 25) if tier == 'thorough' else (1,):
      half = sc(*[1] * m + [0] * (n - m))
      add('bernstein-%d' % m, name, sc(*[0] * (2 * n)), half + half, e=10, f='M', bw='log 3')
    n = 40
    half = sc(*[1] * n)
    add('bernstein-failure', name, sc(*[0] * (2 * n)), half + half, e=10, bw=1)
    add('bernstein-epsilon', name, sc(*[0] * (2 * n)), half + half, f=2, bw=1)
  return out
