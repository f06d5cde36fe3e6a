"""Module stand-ins seen by the code under test (math, numpy, scipy, builtins)."""
import builtins
import importlib
import itertools
import math
import sys
import types
from fractions import Fraction

import numpy as np
import scipy
import scipy.special
import scipy.stats

from se import core
from se import poly as P
from se.core import INF, SymBool, SymReal, Unsupported, anysym, is_inf, is_nan

obj = object


def E():
  return core.CUR


def isS(x):
  return isinstance(x, (SymReal, SymBool))


def S(x):
  if isinstance(x, SymReal) or is_inf(x) or is_nan(x):
    return x
  return SymReal.lift(x)


# ------------------------------------------------------------------ math
def m_exp(x):
  if isinstance(x, np.ndarray):
    x = x.item()
  if is_inf(x) or is_nan(x):
    return math.exp(x)
  return E().exp(S(x))


def m_expm1(x):
  if is_inf(x) or is_nan(x):
    return math.expm1(x)
  return E().exp(S(x)) - 1


def m_log(x, base=None):
  if is_inf(x) or is_nan(x):
    return math.log(x)
  r = E().mathlog(S(x))
  if base is not None:
    r = r / E().mathlog(S(base))
  return r


def m_log1p(x):
  if is_inf(x) or is_nan(x):
    return math.log1p(x)
  return E().mathlog(S(x) + 1)


def m_sqrt(x):
  if is_inf(x) or is_nan(x):
    return math.sqrt(x)
  return E().sqrt(S(x))


def m_pow(x, y):
  if not isS(x) and not isS(y):
    try:
      r = math.pow(x, y)
    except (OverflowError, ValueError):
      raise
    if is_inf(x) or is_inf(y) or r in (0.0, INF):
      return r
  try:
    return core.spow(x, y)
  except ZeroDivisionError:
    raise ValueError('math domain error')


def m_floor(x):
  if isinstance(x, LazyInt):
    return x
  if not isS(x):
    return math.floor(x)
  if E().opts.get('lazy_int'):
    return LazyInt(S(x), False)
  return E().floor(S(x))


def m_ceil(x):
  if isinstance(x, LazyInt):
    return x
  if not isS(x):
    return math.ceil(x)
  if E().opts.get('lazy_int'):
    return LazyInt(S(x), True)
  return E().ceil(S(x))


class LazyInt:
  """floor(x)+o or ceil(x)+o kept symbolic; comparisons with integers exact."""
  __slots__ = ('x', 'c', 'o', 'v')

  def __init__(self, x, ceil, o=0):
    self.x, self.c, self.o, self.v = x, ceil, o, None

  def conc(self):
    if self.v is None:
      self.v = (E().ceil(self.x) if self.c else E().floor(self.x)) + self.o
    return self.v

  def _le(self, k):  # self <= k, integer k
    return self.x <= k - self.o if self.c else self.x < k - self.o + 1

  def _cmp(self, k, f, g):
    """f: on integer k; g: on reals."""
    if isinstance(k, LazyInt):
      k = k.conc()
    if is_inf(k):
      return g(0, k)
    if isinstance(k, (int, np.integer)) or (isinstance(k, float) and k == int(k)):
      return f(int(k))
    return g(self.conc(), k)

  def __le__(self, k):
    return self._cmp(k, self._le, lambda a, b: a <= b)

  def __lt__(self, k):
    return self._cmp(k, lambda k: self._le(k - 1), lambda a, b: a < b)

  def __ge__(self, k):
    return self._cmp(k, lambda k: core.b_not(self._le(k - 1)), lambda a, b: a >= b)

  def __gt__(self, k):
    return self._cmp(k, lambda k: core.b_not(self._le(k)), lambda a, b: a > b)

  def __eq__(self, k):
    return bool(self <= k) and bool(self >= k)

  def __ne__(self, k):
    return not self == k

  def __hash__(self):
    return hash(self.conc())

  def __add__(self, k):
    if isinstance(k, int):
      return LazyInt(self.x, self.c, self.o + k)
    return self.conc() + k

  __radd__ = __add__

  def __sub__(self, k):
    if isinstance(k, int):
      return LazyInt(self.x, self.c, self.o - k)
    return self.conc() - k

  def __rsub__(self, k):
    return k - self.conc()

  def __neg__(self):
    return LazyInt(-self.x, not self.c, -self.o)

  def __mul__(self, k):
    return self.conc() * k

  __rmul__ = __mul__

  def __truediv__(self, k):
    return self.conc() / k

  def __floordiv__(self, k):
    return self.conc() // k

  def __index__(self):
    return self.conc()

  __int__ = __index__

  def __float__(self):
    return float(self.conc())

  def __abs__(self):
    return self if bool(self >= 0) else -self

  def __bool__(self):
    return not self == 0

  def __ceil__(self):
    return self

  def __floor__(self):
    return self


def m_isinf(x):
  return False if isS(x) else math.isinf(x)


def m_isnan(x):
  return False if isS(x) else math.isnan(x)


def m_isfinite(x):
  return True if isS(x) else math.isfinite(x)


def m_isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
  if not (isS(a) or isS(b)):
    return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
  if is_inf(a) or is_inf(b):
    return False
  a, b = S(a), S(b)
  if bool(a == b):
    return True
  d = abs(a - b)
  if bool(d <= abs_tol):
    return True
  return bool(d <= rel_tol * abs(a)) or bool(d <= rel_tol * abs(b))


def m_fabs(x):
  return abs(x)


def m_fsum(xs):
  r = 0
  for x in xs:
    r = r + x
  return r


def m_erf(x):
  if not isS(x):
    return math.erf(x)
  return 2 * E().phi(S(x) * E().sqrt(SymReal.lift(2))) - 1


def m_erfc(x):
  if not isS(x):
    return math.erfc(x)
  return 2 - 2 * E().phi(S(x) * E().sqrt(SymReal.lift(2)))


def m_lgamma(x):
  return sp_gammaln(x)


def m_log2(x):
  if not isS(x):
    return math.log2(x)
  return m_log(x) / m_log(2)


def m_copysign(a, b):
  if not (isS(a) or isS(b)):
    return math.copysign(a, b)
  return abs(a) if bool(b >= 0) else -abs(a)


def m_tanh(x):
  e = m_exp(2 * S(x))
  return (e - 1) / (e + 1)


def m_cosh(x):
  return (m_exp(x) + m_exp(-x)) / 2


def m_sinh(x):
  return (m_exp(x) - m_exp(-x)) / 2


def m_prod(xs, start=1):
  for x in xs:
    start = start * x
  return start


def make_math():
  m = types.ModuleType('math')
  m.__dict__.update({k: getattr(math, k) for k in dir(math)})
  for k, f in dict(exp=m_exp, expm1=m_expm1, log=m_log, log1p=m_log1p,
                   sqrt=m_sqrt, pow=m_pow, floor=m_floor, ceil=m_ceil,
                   isinf=m_isinf, isnan=m_isnan, isfinite=m_isfinite,
                   isclose=m_isclose, fabs=m_fabs, fsum=m_fsum, erf=m_erf,
                   erfc=m_erfc, lgamma=m_lgamma, log2=m_log2, tanh=m_tanh,
                   copysign=m_copysign, cosh=m_cosh, sinh=m_sinh,
                   prod=m_prod).items():
    setattr(m, k, f)
  m.trunc = lambda x: math.trunc(x)
  m.log10 = lambda x: m_log(x) / m_log(10)
  return m


# ------------------------------------------------------------------ scipy
def sp_gammaln(x):
  if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
    return elem(sp_gammaln)(x)
  if isS(x):
    c = S(x).const()
    if c is None:
      return E().apply_uf('gammaln', S(x))
    x = c
  if not isS(x) and float(x) == int(x) and 0 < x < 400:
    return E().log(SymReal.lift(math.factorial(int(x) - 1)))
  if is_inf(x):
    return INF
  x = P.to_frac(x)
  b = x - math.floor(x)          # log|Gamma(x)| from log Gamma(b), 0 < b < 1
  if b == 0 and x <= 0:
    return INF
  r = Fraction(1)
  for i in range(abs(int(x - b))):
    r = r * abs(b + i) if x > b else r / abs(b - 1 - i)
  if abs(x) > 400:
    return E().apply_uf('gammaln', SymReal.lift(x))
  return E().apply_uf('gammaln', SymReal.lift(b)) + E().log(SymReal.lift(r))


def sp_binom(n, k):
  if isinstance(n, np.ndarray) or isinstance(k, np.ndarray):
    return elem(sp_binom)(n, k)
  if isS(n) or isS(k):
    nn, kk = S(n), S(k)
    kc = kk.const()
    if kc is not None and kc.denominator == 1 and kc >= 0:
      r = SymReal.lift(1)
      for i in range(int(kc)):
        r = r * (nn - i) / (i + 1)
      return r
    raise Unsupported('binom symbolic k')
  if float(k) == int(k) and k >= 0:
    r = Fraction(1)
    n = P.to_frac(n)
    for i in range(int(k)):
      r = r * (n - i) / (i + 1)
    return SymReal.lift(r) if r.denominator != 1 else int(r)
  return float(scipy.special.binom(n, k))


def sp_comb(n, k, exact=False, repetition=False):
  return sp_binom(n, k)


def sp_log_ndtr(x):
  if isinstance(x, np.ndarray):
    return elem(sp_log_ndtr)(x)
  p = E().phi(S(x))
  if not isS(p):
    return -INF if p == 0 else 0.0
  return E().log(p)


def sp_ndtr(x):
  if isinstance(x, np.ndarray):
    return elem(sp_ndtr)(x)
  return E().phi(S(x))


def sp_erfc(x):
  if isinstance(x, np.ndarray):
    return elem(sp_erfc)(x)
  if is_inf(x):
    return float(scipy.special.erfc(x))
  return 2 - 2 * E().phi(S(x) * E().sqrt(SymReal.lift(2)))


def sp_logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False):
  if return_sign:
    raise Unsupported('logsumexp return_sign')
  if axis is not None:
    arr = A(a)
    ws = np.broadcast_to(np.asarray(1 if b is None else b, dtype=object), arr.shape)
    mv, mw = np.moveaxis(arr, axis, 0), np.moveaxis(ws, axis, 0)
    out = np.empty(mv.shape[1:], dtype=object)
    for i in np.ndindex(out.shape):
      out[i] = sp_logsumexp([mv[(j,) + i] for j in range(mv.shape[0])],
                            b=[mw[(j,) + i] for j in range(mw.shape[0])])
    if out.shape == ():
      return out.item()
    return np.expand_dims(out, axis) if keepdims else out
  xs = list(np.asarray(a, dtype=object).ravel())
  bs = [1] * len(xs) if b is None else list(
      np.broadcast_to(np.asarray(b, dtype=object), np.shape(a)).ravel())
  tot = 0
  for x, w in zip(xs, bs):
    if is_inf(x):
      if x > 0:
        return INF
      continue
    tot = tot + w * E().exp(S(x))
  if not isS(tot) and tot == 0:
    return -INF
  return E().nplog(S(tot))


class Fallback(types.ModuleType):
  """Module proxy: overridden names, else the real module's attribute."""

  def __init__(self, real, over, name=None):
    super().__init__(name or real.__name__)
    self.__dict__['_real'] = real
    self.__dict__.update(over)

  def __getattr__(self, k):
    if k.startswith('__') and k not in ('__version__',):
      raise AttributeError(k)
    v = getattr(self.__dict__['_real'], k)
    if callable(v) and not isinstance(v, type):
      return guard(v)
    return v


def guard(f):
  """Real function: usable on concrete arguments only (objects allowed if it copes)."""

  def g(*a, **k):
    if anysym(*a) or anysym(*k.values()):
      if any(isS(x) for x in a) or any(
          isinstance(x, np.ndarray) and x.dtype == object and any(
              isS(y) for y in x.ravel()) for x in a) or anysym(
                  *[x for x in a if isinstance(x, (list, tuple))]):
        try:
          return f(*a, **k)
        except Exception as e:
          raise Unsupported('no encoding for %s: %s' % (
              getattr(f, '__name__', f), e))
      a = [deobj(x) for x in a]
    return f(*a, **k)
  g.__name__ = getattr(f, '__name__', 'f')
  g.real = f
  return g


def deobj(x):
  if isinstance(x, np.ndarray) and x.dtype == object:
    try:
      return x.astype(float)
    except Exception:
      return x
  return x


# distributions: scalar kernels, vectorised by elem
def elem(f):
  def g(*args):
    arrs = [a if isinstance(a, np.ndarray) else
            (np.asarray(a, dtype=object) if isinstance(a, (list, tuple)) else a)
            for a in args]
    if not any(isinstance(a, np.ndarray) and a.ndim for a in arrs):
      return f(*[a.item() if isinstance(a, np.ndarray) else a for a in arrs])
    bs = np.broadcast_arrays(*[
        a if isinstance(a, np.ndarray) else boxed(a) for a in arrs])
    out = np.empty(bs[0].shape, dtype=object)
    for i in np.ndindex(out.shape):
      out[i] = f(*[b[i] for b in bs])
    return out
  return g


def boxed(x):
  r = np.empty((), dtype=object)
  r[()] = x
  return r


class Dist:
  """Continuous location-scale or discrete distribution with scalar kernels."""

  def __init__(self, **k):
    self.__dict__.update(k)


def _z(x, loc, scale):
  if is_inf(x) or is_nan(x):
    return x
  return (S(x) - loc) / scale


def _log0(p):
  if not isS(p):
    return -INF if p == 0 else (0.0 if p == 1 else E().log(S(p)))
  return E().nplog(p)


def make_norm():
  def cdf(x, loc=0, scale=1):
    return elem(lambda x, l, s: E().phi(_z(x, l, s)))(x, loc, scale)

  def sf(x, loc=0, scale=1):
    return elem(lambda x, l, s: E().phi(-_z(x, l, s)))(x, loc, scale)

  def logcdf(x, loc=0, scale=1):
    return elem(lambda x, l, s: _log0(E().phi(_z(x, l, s))))(x, loc, scale)

  def logsf(x, loc=0, scale=1):
    return elem(lambda x, l, s: _log0(E().phi(-_z(x, l, s))))(x, loc, scale)

  def ppf(p, loc=0, scale=1):
    return elem(lambda p, l, s: l + s * E().phi_inv(p))(p, loc, scale)

  def isf(p, loc=0, scale=1):
    return elem(lambda p, l, s: l - s * E().phi_inv(p))(p, loc, scale)

  def logpdf(x, loc=0, scale=1):
    def f(x, l, s):
      z = _z(x, l, s)
      if is_inf(z):
        return -INF
      return -(z * z) / 2 - E().log(S(s)) - logsqrt2pi()
    return elem(f)(x, loc, scale)

  def pdf(x, loc=0, scale=1):
    return elem(lambda v: E().exp(v) if isS(v) else math.exp(v))(
        logpdf(x, loc, scale))

  return frozen(Dist(cdf=cdf, sf=sf, logcdf=logcdf, logsf=logsf, ppf=ppf,
                     isf=isf, pdf=pdf, logpdf=logpdf, name='norm'))


def logsqrt2pi():
  import mpmath
  e = E()
  if 'pi2r' not in e.vars:
    from se.engine import VarInfo, enclose
    v = mpmath.sqrt(2 * mpmath.pi)
    lo, hi = enclose(v)
    e.vars['pi2r'] = VarInfo(True, 'num', lo=lo, hi=hi, val=v)
  return e.log(SymReal({(('pi2r', 1),): Fraction(1)}))


def make_laplace():
  def k_cdf(x, l, s):
    z = _z(x, l, s)
    if is_inf(z):
      return 1.0 if z > 0 else 0.0
    if bool(S(z) < 0):
      return E().exp(z) / 2
    return 1 - E().exp(-z) / 2

  def neg(z):
    return -z

  def k_ppf(p, l, s):
    if not isS(p) and (p <= 0 or p >= 1):
      return -INF if p == 0 else (INF if p == 1 else math.nan)
    p = S(p)
    if bool(p <= 0):
      return -INF if bool(p == 0) else math.nan
    if bool(p >= 1):
      return INF if bool(p == 1) else math.nan
    if bool(p <= Fraction(1, 2)):
      return l + s * E().log(2 * p)
    return l - s * E().log(2 * (1 - p))

  cdf = lambda x, loc=0, scale=1: elem(k_cdf)(x, loc, scale)
  sf = lambda x, loc=0, scale=1: elem(lambda x, l, s: k_cdf(
      (-_z(x, l, s)), 0, 1))(x, loc, scale)
  return frozen(Dist(
      cdf=cdf, sf=sf,
      logcdf=lambda x, loc=0, scale=1: elem(
          lambda x, l, s: _log0(k_cdf(x, l, s)))(x, loc, scale),
      logsf=lambda x, loc=0, scale=1: elem(
          lambda x, l, s: _log0(k_cdf(-_z(x, l, s), 0, 1)))(x, loc, scale),
      ppf=lambda p, loc=0, scale=1: elem(k_ppf)(p, loc, scale),
      isf=lambda p, loc=0, scale=1: elem(
          lambda p, l, s: l - k_ppf(p, 0, s))(p, loc, scale),
      pdf=lambda x, loc=0, scale=1: elem(
          lambda x, l, s: E().exp(-abs(_z(x, l, s))) / (2 * s))(x, loc, scale),
      logpdf=lambda x, loc=0, scale=1: elem(
          lambda x, l, s: -abs(_z(x, l, s)) - E().log(S(2 * s)))(x, loc, scale),
      name='laplace'))


def make_dlaplace():
  """P(k) = tanh(a/2) exp(-a|k|)."""
  def ifl(x):
    return E().floor(S(x)) if isS(x) else math.floor(x)

  def k_cdf(k, a, loc=0):
    if is_inf(k):
      return 1.0 if k > 0 else 0.0
    k = k - loc
    k = ifl(k)
    ea = E().exp(-S(a))
    if k >= 0:
      return 1 - ea**(k + 1) / (1 + ea)
    return ea**(-k) / (1 + ea)

  def k_sf(k, a, loc=0):
    if is_inf(k):
      return 0.0 if k > 0 else 1.0
    return 1 - k_cdf(k, a, loc)

  def k_pmf(k, a, loc=0):
    k = k - loc
    ea = E().exp(-S(a))
    return (1 - ea) / (1 + ea) * ea**abs(ifl(k))

  def k_ppf(p, a, loc=0):
    # smallest integer k with cdf(k) >= p
    if not isS(p) and p in (0, 1):
      return -INF if p == 0 else INF
    p = S(p)
    # search outward from 0
    if bool(k_cdf(0, a) >= p):
      k = 0
      for _ in range(64):
        if not bool(k_cdf(k - 1, a) >= p):
          return k + loc
        k -= 1
    else:
      k = 1
      for _ in range(64):
        if bool(k_cdf(k, a) >= p):
          return k + loc
        k += 1
    raise core.Inconclusive('dlaplace ppf range')

  def k_isf(q, a, loc=0):
    # scipy: isf(q) = smallest k with sf(k) <= q
    return k_ppf(1 - S(q), a, loc)

  def D(f):
    return lambda x, a, loc=0: elem(f)(x, a, loc)

  def rvs(a, loc=0, size=None, random_state=None):
    return RNG.draw('dlaplace', (a,), size)

  class Discrete(Dist):
    def __call__(self, a, loc=0):
      o = Dist(name='dlaplace')
      for k in ('cdf', 'sf', 'pmf', 'ppf', 'isf', 'logcdf', 'logsf', 'logpmf'):
        setattr(o, k, (lambda f: lambda x: f(x, a, loc))(getattr(self, k)))
      o.rvs = lambda size=None, random_state=None: RNG.draw('dlaplace', (a,), size)
      return o

  return Discrete(cdf=D(k_cdf), sf=D(k_sf), pmf=D(k_pmf), ppf=D(k_ppf), isf=D(k_isf),
              logcdf=D(lambda *t: _log0(k_cdf(*t))),
              logsf=D(lambda *t: _log0(k_sf(*t))),
              logpmf=D(lambda *t: _log0(k_pmf(*t))), rvs=rvs, name='dlaplace')


def frozen(d):
  class Callable_(Dist):
    def __call__(self, loc=0, scale=1):
      o = Dist(loc=loc, scale=scale, name=d.name)
      for k in ('cdf', 'sf', 'logcdf', 'logsf', 'ppf', 'isf', 'pdf', 'logpdf'):
        setattr(o, k, (lambda f: lambda x: f(x, loc, scale))(getattr(d, k)))
      return o
  c = Callable_(**d.__dict__)
  return c


class _RNG:
  """Recorder of random draws; harnesses install a provider."""
  provider = None

  def draw(self, kind, params, size):
    if self.provider is None:
      raise Unsupported('random draw %s without provider' % kind)
    return self.provider(kind, params, size)


RNG = _RNG()


# ------------------------------------------------------------------ fft
class CycVal:
  """Element of R[x]/(x^n-1): the DFT of a real vector, kept in time domain."""
  __array_priority__ = 1000
  __array_ufunc__ = None

  def __init__(self, coef):
    self.c = list(coef)

  @property
  def n(self):
    return len(self.c)

  def __len__(self):
    return self.n

  @property
  def shape(self):
    return (self.n,)

  @property
  def size(self):
    return self.n

  def __mul__(self, o):
    if isinstance(o, CycVal):
      if o.n != self.n:
        raise ValueError('operands could not be broadcast together')
      r = [0] * self.n
      for i, a in enumerate(self.c):
        if not isS(a) and a == 0:
          continue
        for j, b in enumerate(o.c):
          if not isS(b) and b == 0:
            continue
          k = (i + j) % self.n
          r[k] = r[k] + a * b
      return CycVal(r)
    if core.is_num(o) or isS(o):
      return CycVal([a * o for a in self.c])
    raise Unsupported('spectral product with non-spectrum')

  __rmul__ = __mul__

  def __add__(self, o):
    if isinstance(o, CycVal):
      return CycVal([a + b for a, b in zip(self.c, o.c)])
    raise Unsupported('spectral sum')

  def __sub__(self, o):
    if isinstance(o, CycVal):
      return CycVal([a - b for a, b in zip(self.c, o.c)])
    raise Unsupported('spectral sum')

  def __pow__(self, k):
    k = int(k)
    r = CycVal([1] + [0] * (self.n - 1))
    b = self
    while k:
      if k & 1:
        r = r * b
      k >>= 1
      if k:
        b = b * b
    return r


def f_fft(x, n=None, *a, **k):
  xs = list(x)
  n = len(xs) if n is None else int(n)
  xs = xs[:n] + [0] * (n - len(xs))
  return CycVal(xs)


def f_ifft(v, n=None, *a, **k):
  if not isinstance(v, CycVal):
    raise Unsupported('ifft of non-spectrum')
  if n is not None and int(n) != v.n:
    raise Unsupported('ifft with different length')
  return np_arr(v.c)


def f_irfft(v, n=None, *a, **k):
  if n is None:
    n = 2 * (v.n // 2 + 1 - 1)
  if int(n) != v.n:
    raise Unsupported('irfft with different length')
  return np_arr(v.c)


def conv_full(a, b):
  a, b = list(a), list(b)
  r = [0] * (len(a) + len(b) - 1)
  for i, x in enumerate(a):
    if not isS(x) and x == 0:
      continue
    for j, y in enumerate(b):
      r[i + j] = r[i + j] + x * y
  return np_arr(r)


def s_convolve(a, b, mode='full', method='auto'):
  full = conv_full(a, b)
  if mode == 'full':
    return full
  if mode == 'same':
    n = len(a)
    st = (len(full) - n) // 2
    return full[st:st + n]
  raise Unsupported('convolve mode')


# ------------------------------------------------------------------ numpy
def np_arr(xs):
  """1-D (or nested) object array without numpy guessing element structure."""
  if isinstance(xs, np.ndarray):
    if xs.dtype == object or xs.dtype == bool or xs.dtype.kind in 'iuSUO':
      return xs
    return xs.astype(object)
  if isinstance(xs, (list, tuple, range, map, zip)) or hasattr(xs, '__iter__'):
    xs = list(xs)
    if any(isinstance(x, (list, tuple, np.ndarray)) and np.ndim(x) for x in xs):
      subs = [np_arr(x) for x in xs]
      shp = subs[0].shape
      r = np.empty((len(subs),) + shp, dtype=object)
      for i, s in enumerate(subs):
        if s.shape != shp:
          raise ValueError('setting an array element with a sequence.')
        r[i] = s
      return r
    r = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
      if isinstance(x, np.ndarray):
        x = x.item()
      if isinstance(x, np.generic):
        x = x.item()
      r[i] = x
    return r
  return boxed(xs)


def settle(r, orig=None):
  """Give purely int/bool object arrays their natural dtype."""
  return r


def has_sym(a):
  return isinstance(a, np.ndarray) and a.dtype == object and any(
      isS(x) for x in a.ravel())


def A(x):
  """asarray keeping int/bool arrays, floats as objects."""
  if isinstance(x, np.ndarray):
    return np_arr(x)
  if isinstance(x, (list, tuple, range)) or (hasattr(x, '__iter__') and
                                             not isinstance(x, (str, dict))):
    x = list(x)
    if x and all(isinstance(v, (bool, np.bool_)) for v in x):
      return np.array(x, dtype=bool)
    if x and all(isinstance(v, (int, np.integer)) and not isinstance(
        v, (bool, np.bool_)) for v in x):
      return np.array(x)
    if x and all(isinstance(v, str) for v in x):
      return np.array(x)
    return np_arr(x)
  return boxed(x) if (isS(x) or isinstance(x, float)) else np.asarray(x)


def to_dtype(r, dtype):
  if dtype is None:
    return r
  if dtype in (float, 'float', np.float64, np.float32) or dtype is SymFloat or (
      isinstance(dtype, np.dtype) and dtype.kind == 'f'):
    out = np_arr(r.astype(object)) if r.dtype != object else r.copy()
    return out
  if dtype is object:
    return r.astype(object)
  if dtype in (int, np.int64, np.int32) or dtype is SymInt:
    if has_sym(r):
      out = np.empty(r.shape, dtype=np.int64)
      for i in np.ndindex(r.shape):
        out[i] = int(r[i]) if not isS(r[i]) else E().trunc(S(r[i]))
      return out
    return r.astype(int)
  if dtype in (bool, np.bool_):
    if has_sym(r):
      return np.array([bool(x) for x in r.ravel()], dtype=bool).reshape(r.shape)
    return r.astype(bool)
  return r.astype(dtype)


def n_array(x, dtype=None, copy=True, ndmin=0, **k):
  r = A(x)
  if copy and isinstance(x, np.ndarray):
    r = r.copy()
  return to_dtype(r, dtype)


def n_asarray(x, dtype=None, **k):
  if isinstance(x, np.ndarray) and dtype is None:
    return np_arr(x) if x.dtype.kind == 'f' else x
  return to_dtype(A(x), dtype)


def n_zeros(shape, dtype=None, **k):
  if dtype in (int, bool, np.int64, np.bool_) or dtype is SymInt:
    return np.zeros(shape, dtype=int if dtype in (int, np.int64, SymInt) else bool)
  r = np.empty(shape, dtype=object)
  r[...] = 0.0
  return r


def n_ones(shape, dtype=None, **k):
  if dtype in (int, bool, np.int64, np.bool_) or dtype is SymInt:
    return np.ones(shape, dtype=int if dtype in (int, np.int64, SymInt) else bool)
  r = np.empty(shape, dtype=object)
  r[...] = 1.0
  return r


def n_full(shape, v, dtype=None, **k):
  r = np.empty(shape, dtype=object)
  if isinstance(v, np.ndarray) and v.ndim:
    r[...] = v
  else:
    for i in np.ndindex(r.shape):
      r[i] = v
  return to_dtype(r, dtype)


def n_zeros_like(a, dtype=None, **k):
  a = A(a)
  if dtype is None and a.dtype.kind in 'iub':
    return np.zeros_like(a)
  return n_zeros(a.shape, dtype)


def n_ones_like(a, dtype=None, **k):
  a = A(a)
  if dtype is None and a.dtype.kind in 'iub':
    return np.ones_like(a)
  return n_ones(a.shape, dtype)


def n_full_like(a, v, dtype=None, **k):
  a = A(a)
  if dtype is None and a.dtype.kind in 'iu':
    if isS(v) or not float(v).is_integer():
      # numpy would truncate
      dtype = int
      v = int(v)
    return np.full_like(a, v)
  return n_full(a.shape, v, dtype)


def n_arange(*a, **k):
  if anysym(*a):
    st, en, sp = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1 if len(a) < 3
                                                  else a[2])
    n = E().ceil(S((en - st) / sp)) if isS((en - st) / sp) else math.ceil(
        (en - st) / sp)
    return np_arr([st + i * sp for i in range(max(0, n))])
  r = np.arange(*a, **k)
  if r.dtype.kind == 'f':
    st, en, sp = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1 if len(a) < 3
                                                  else a[2])
    st, sp = P.to_frac(st), P.to_frac(sp)
    return np_arr([SymReal.lift(st + i * sp) if (st + i * sp).denominator != 1
                   else float(st + i * sp) for i in range(len(r))])
  return r


def n_linspace(a, b, num=50, endpoint=True, **k):
  if not anysym(a, b):
    return np_arr(np.linspace(a, b, num, endpoint=endpoint))
  d = (b - a) / (num - 1 if endpoint else num)
  return np_arr([a + i * d for i in range(num)])


def unary(symf, realf):
  k = elem(symf)

  def g(x, *a, out=None, where=None, **kw):
    if isinstance(x, (list, tuple)):
      x = A(x)
    if isinstance(x, np.ndarray):
      return k(x)
    return symf(x)
  return g


def e_exp(x):
  if is_inf(x) or is_nan(x):
    return math.exp(x)
  return E().exp(S(x))


def e_tanh(x):
  return 1 - 2 / (e_exp(2 * x) + 1)


def e_expm1(x):
  r = e_exp(x)
  return r - 1


def e_log(x):
  return E().nplog(x) if not is_nan(x) else x


def e_log1p(x):
  return e_log(x + 1)


def e_sqrt(x):
  if is_inf(x) or is_nan(x):
    return math.sqrt(x) if not x < 0 else math.nan
  x = S(x)
  if bool(x < 0):
    return math.nan
  return E().sqrt(x)


def e_isinf(x):
  return False if isS(x) else bool(math.isinf(x))


def e_isnan(x):
  return False if isS(x) else bool(math.isnan(x))


def e_isfinite(x):
  return True if isS(x) else bool(math.isfinite(x))


def boolwrap(g):
  def f(*a, **k):
    r = g(*a)
    if isinstance(r, np.ndarray):
      return r.astype(bool)
    return r
  return f


def e_floor(x):
  if isS(x):
    x = E().floor(S(x))
    return np.float64(x) if isinstance(x, int) else x
  return x if is_inf(x) or is_nan(x) else np.float64(math.floor(x))


def e_ceil(x):
  if isS(x):
    x = E().ceil(S(x))
    return np.float64(x) if isinstance(x, int) else x
  return x if is_inf(x) or is_nan(x) else np.float64(math.ceil(x))


def e_rint(x):
  if isS(x):
    return E().rint(S(x))
  return float(np.rint(x))


def e_max(a, b):
  if is_nan(a) or is_nan(b):
    return math.nan
  return a if bool(a >= b) else b


def e_min(a, b):
  if is_nan(a) or is_nan(b):
    return math.nan
  return a if bool(a <= b) else b


def e_sign(x):
  if bool(x > 0):
    return 1
  return -1 if bool(x < 0) else 0


def binary(f, boolean=False):
  g = elem(f)

  def h(a, b, *r, out=None, where=None, **k):
    a = A(a) if isinstance(a, (list, tuple, np.ndarray)) else a
    b = A(b) if isinstance(b, (list, tuple, np.ndarray)) else b
    res = g(a, b)
    if boolean and isinstance(res, np.ndarray):
      return np.array([bool(x) for x in res.ravel()], dtype=bool).reshape(res.shape)
    return res
  return h


def _axis_reduce(a, axis, f, keepdims=False):
  a = A(a)
  if axis is None:
    return f(list(a.ravel()))
  if isinstance(axis, tuple):
    raise Unsupported('tuple axis')
  mv = np.moveaxis(a, axis, 0)
  out = np.empty(mv.shape[1:], dtype=object)
  for i in np.ndindex(out.shape):
    out[i] = f([mv[(j,) + i] for j in range(mv.shape[0])])
  if out.shape == ():
    r = out.item()
  else:
    r = out
  if keepdims:
    r = np.expand_dims(A(r), axis)
  return r


def _fold_sum(xs):
  r = 0
  for x in xs:
    r = r + x
  return r


def n_sum(a, axis=None, dtype=None, keepdims=False, **k):
  if isinstance(a, CycVal):
    raise Unsupported('sum of spectrum')
  if isinstance(a, types.GeneratorType):
    a = list(a)
  a = A(a)
  if a.dtype.kind in 'iub':
    return np.sum(a, axis=axis, keepdims=keepdims)
  return _axis_reduce(a, axis, _fold_sum, keepdims)


def n_prod(a, axis=None, **k):
  def f(xs):
    r = 1
    for x in xs:
      r = r * x
    return r
  return _axis_reduce(a, axis, f)


def n_mean(a, axis=None, **k):
  def f(xs):
    return _fold_sum(xs) / S(len(xs))
  return _axis_reduce(a, axis, f)


def _fmax(xs):
  if not xs:
    raise ValueError('zero-size array to reduction operation maximum which has '
                     'no identity')
  r = xs[0]
  for x in xs[1:]:
    r = e_max(r, x)
  return r


def _fmin(xs):
  if not xs:
    raise ValueError('zero-size array to reduction operation minimum which has '
                     'no identity')
  r = xs[0]
  for x in xs[1:]:
    r = e_min(r, x)
  return r


def n_max(a, axis=None, initial=None, **k):
  if initial is not None:
    return e_max(_axis_reduce(a, axis, lambda xs: _fmax(xs + [initial])), initial)
  return _axis_reduce(a, axis, _fmax)


def n_min(a, axis=None, initial=None, **k):
  if initial is not None:
    return _axis_reduce(a, axis, lambda xs: _fmin(xs + [initial]))
  return _axis_reduce(a, axis, _fmin)


def _argbest(better):
  def f(xs):
    if not xs:
      raise ValueError('attempt to get argbest of an empty sequence')
    b = 0
    for i, x in enumerate(xs):
      if is_nan(x):
        return i
      if i and bool(better(x, xs[b])):
        b = i
    return b
  return f


def n_argmin(a, axis=None, **k):
  return _axis_reduce(a, axis, _argbest(lambda x, y: x < y))


def n_argmax(a, axis=None, **k):
  r = _axis_reduce(a, axis, _argbest(lambda x, y: x > y))
  return r.astype(int) if isinstance(r, np.ndarray) else r


def n_cumsum(a, axis=None, **k):
  a = A(a)
  if axis not in (None, 0, -1) or a.ndim > 1:
    raise Unsupported('cumsum axis')
  out = np.empty(a.size, dtype=object)
  s = 0
  for i, x in enumerate(a.ravel()):
    s = s + x
    out[i] = s
  return out


def n_cumprod(a, axis=None, **k):
  a = A(a)
  out = np.empty(a.size, dtype=object)
  s = 1
  for i, x in enumerate(a.ravel()):
    s = s * x
    out[i] = s
  return out


def n_dot(a, b, **k):
  a, b = A(a), A(b)
  if a.ndim == 0 or b.ndim == 0:
    r = a * b
    return r.item() if isinstance(r, np.ndarray) and r.ndim == 0 else r
  if a.ndim == 1 and b.ndim == 1:
    if len(a) != len(b):
      raise ValueError('shapes not aligned')
    return _fold_sum([x * y for x, y in zip(a, b)])
  if a.ndim == 2 and b.ndim == 1:
    if a.shape[1] != b.shape[0]:
      raise ValueError('shapes not aligned')
    return np_arr([n_dot(r, b) for r in a])
  if a.ndim == 1 and b.ndim == 2:
    return np_arr([n_dot(a, b[:, j]) for j in range(b.shape[1])])
  if a.ndim == 2 and b.ndim == 2:
    return np_arr([[n_dot(r, b[:, j]) for j in range(b.shape[1])] for r in a])
  raise Unsupported('dot ndim')


def n_diff(a, n=1, axis=-1, prepend=None, append=None):
  a = A(a)
  if prepend is not None:
    a = n_append(prepend, a)
  if append is not None:
    a = n_append(a, append)
  for _ in range(n):
    a = a[1:] - a[:-1]
  return a


def n_append(a, v, axis=None):
  xs = list(A(a).ravel()) + list(A(v).ravel())
  return A(xs)


def n_concatenate(seq, axis=0, **k):
  seq = [A(x) for x in seq]
  if any(s.dtype == object for s in seq):
    seq = [s.astype(object) for s in seq]
  return np.concatenate(seq, axis=axis)


def n_stack(f):
  def g(seq, *a, **k):
    seq = [A(x) for x in seq]
    if any(s.dtype == object for s in seq):
      seq = [s.astype(object) for s in seq]
    return f(seq, *a, **k)
  return g


def n_clip(x, lo=None, hi=None, **k):
  lo = k.get('a_min', lo)
  hi = k.get('a_max', hi)
  r = x
  if lo is not None:
    r = binary(e_max)(r, lo)
  if hi is not None:
    r = binary(e_min)(r, hi)
  return r


def n_where(c, *ab):
  if isS(c):
    c = bool(c)
  if isinstance(c, (list, tuple)):
    c = A(c)
  if isinstance(c, np.ndarray) and c.dtype == object:
    c = np.array([bool(x) for x in c.ravel()], dtype=bool).reshape(c.shape)
  if not ab:
    return np.where(c)
  a, b = ab
  f = elem(lambda c, a, b: a if c else b)
  a = A(a) if isinstance(a, (list, tuple, np.ndarray)) else a
  b = A(b) if isinstance(b, (list, tuple, np.ndarray)) else b
  if not isinstance(c, np.ndarray) and not isinstance(
      a, np.ndarray) and not isinstance(b, np.ndarray):
    return boxed(a if c else b)
  return f(c, a, b)


def _bools(a):
  if isS(a):
    return np.array(bool(a))
  a = A(a)
  if a.dtype == object:
    return np.array([bool(x) for x in a.ravel()], dtype=bool).reshape(a.shape)
  return a


def n_any(a, axis=None, **k):
  if axis is None:
    a = A(a)
    for x in a.ravel():
      if bool(x):
        return True
    return False
  return np.any(_bools(a), axis=axis)


def n_all(a, axis=None, **k):
  if axis is None:
    a = A(a)
    for x in a.ravel():
      if not bool(x):
        return False
    return True
  return np.all(_bools(a), axis=axis)


def n_logical(f):
  return lambda *a, **k: f(*[_bools(x) for x in a])


def n_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
  def f(a, b):
    if not (isS(a) or isS(b)):
      return bool(np.isclose(a, b, rtol=rtol, atol=atol))
    if is_inf(a) or is_inf(b) or is_nan(a) or is_nan(b):
      return False
    if bool(S(a) == S(b)):
      return True
    return bool(abs(a - b) <= atol + rtol * abs(b))
  r = elem(f)(A(a) if isinstance(a, (list, tuple)) else a,
              A(b) if isinstance(b, (list, tuple)) else b)
  return r.astype(bool) if isinstance(r, np.ndarray) else r


def n_allclose(a, b, **k):
  return n_all(n_isclose(a, b, **k))


def n_vectorize(f, otypes=None, **k):
  g = elem(f)

  def h(*a, **kw):
    if kw:
      ff = elem(lambda *t: f(*t, **kw))
      r = ff(*[A(x) if isinstance(x, (list, tuple)) else x for x in a])
    else:
      r = g(*[A(x) if isinstance(x, (list, tuple)) else x for x in a])
    if isinstance(r, np.ndarray) and otypes and r.size and otypes[0] in (
        int, np.int64, 'i'):
      return to_dtype(r, int)
    return r if isinstance(r, np.ndarray) else boxed(r)
  return h


def n_sort(a, axis=-1, **k):
  a = A(a)
  if a.dtype != object:
    return np.sort(a, axis=axis)
  if a.ndim != 1:
    raise Unsupported('sort ndim')
  return np_arr(sorted(a))


def n_argsort(a, **k):
  a = A(a)
  if a.dtype != object:
    return np.argsort(a, **k)
  import functools
  idx = sorted(range(len(a)), key=functools.cmp_to_key(
      lambda i, j: -1 if bool(a[i] < a[j]) else (1 if bool(a[i] > a[j]) else 0)))
  return np.array(idx, dtype=int)


def n_searchsorted(a, v, side='left', sorter=None):
  a = list(A(a))

  def f(x):
    n = 0
    for y in a:
      if (side == 'left' and bool(y < x)) or (side == 'right' and bool(y <= x)):
        n += 1
      else:
        break
    return n
  if np.ndim(v) and not isS(v):
    return np.array([f(x) for x in v], dtype=int)
  return f(v)


def n_unique(a, **k):
  a = A(a)
  if a.dtype != object:
    return np.unique(a, **k)
  raise Unsupported('unique')


def n_logaddexp_e(a, b):
  if is_inf(a) or is_inf(b):
    if (is_inf(a) and a > 0) or (is_inf(b) and b > 0):
      return INF
    return b if is_inf(a) else a
  return E().log(E().exp(S(a)) + E().exp(S(b)))


class UFunc:
  def __init__(self, f, ident=None):
    self.f = f
    self.g = binary(f)
    self.ident = ident

  def __call__(self, *a, **k):
    return self.g(*a, **k)

  def reduce(self, a, axis=0, initial=None, **k):
    def r(xs):
      xs = list(xs) if initial is None else [initial] + list(xs)
      if not xs:
        if self.ident is None:
          raise ValueError('zero-size array to reduction operation')
        return self.ident
      v = xs[0]
      for x in xs[1:]:
        v = self.f(v, x)
      return v
    a = A(a)
    if a.ndim == 1:
      axis = None
    return _axis_reduce(a, axis, r)

  def accumulate(self, a, axis=0, **k):
    out = []
    for x in A(a):
      out.append(x if not out else self.f(out[-1], x))
    return np_arr(out)

  def outer(self, a, b):
    a, b = A(a), A(b)
    r = np.empty((a.size, b.size), dtype=object)
    for i, x in enumerate(a.ravel()):
      for j, y in enumerate(b.ravel()):
        r[i, j] = self.f(x, y)
    return r

  def at(self, a, idx, v):
    vs = np.broadcast_to(A(v), np.shape(idx)) if np.ndim(idx) else [v]
    for i, k in enumerate(np.atleast_1d(idx)):
      a[k] = self.f(a[k], vs[i])


def n_real(x):
  if isinstance(x, CycVal):
    raise Unsupported('real part of spectrum')
  return x


def n_interp(x, xp, fp, **k):
  def f(x):
    if bool(x <= xp[0]):
      return fp[0]
    for i in range(1, len(xp)):
      if bool(x <= xp[i]):
        return fp[i - 1] + (x - xp[i - 1]) * (fp[i] - fp[i - 1]) / (xp[i] - xp[i - 1])
    return fp[-1]
  return elem(f)(A(x) if isinstance(x, (list, tuple)) else x)


def n_norm(x, ord=None, axis=None, keepdims=False):
  x = A(x)

  def f(xs):
    if ord == 1:
      return _fold_sum([abs(v) for v in xs])
    if ord == INF:
      return _fmax([abs(v) for v in xs])
    if ord == 0:
      return sum(1 for v in xs if bool(v != 0))
    if ord not in (None, 2):
      raise Unsupported('norm ord')
    return e_sqrt(_fold_sum([v * v for v in xs]))
  return _axis_reduce(x, axis, f, keepdims)


def n_nan_to_num(x, **k):
  return elem(lambda v: 0.0 if is_nan(v) else v)(x)


def n_float64(x=0.0):
  if isinstance(x, (SymReal, SymBool)):
    return x
  return np.float64(x)


def n_divide(a, b):
  if not isS(a) and not isS(b):
    if b == 0 or is_inf(a) or is_inf(b):
      with np.errstate(all='ignore'):
        return float(np.divide(a, b))
  try:
    return S(a) / S(b)
  except ZeroDivisionError:
    a = S(a)
    if bool(a > 0):
      return INF
    return -INF if bool(a < 0) else math.nan


def n_nonzero(a):
  return np.nonzero(_bools(a))


def n_bincount(x, weights=None, minlength=0):
  x = np.asarray(x).astype(int)
  if weights is None:
    return np.bincount(x, minlength=minlength)
  n = max(minlength, (max(x) + 1) if len(x) else 0)
  r = n_zeros(n)
  for i, w in zip(x, weights):
    r[i] = r[i] + w
  return r


def n_histogram(a, bins=10, range=None, **k):
  a = list(A(a).ravel())
  if not isinstance(bins, int):
    edges = list(bins)
  else:
    lo, hi = range
    edges = [lo + (hi - lo) * Fraction(i, bins) if isS(lo) or isS(hi) else
             SymReal.lift(P.to_frac(lo) + (P.to_frac(hi) - P.to_frac(lo)) *
                          Fraction(i, bins)) for i in builtins.range(bins + 1)]
  n = len(edges) - 1
  cnt = np.zeros(n, dtype=int)
  for x in a:
    if bool(x < edges[0]) or bool(x > edges[-1]):
      continue
    for i in builtins.range(n):
      if i == n - 1 or bool(x < edges[i + 1]):
        cnt[i] += 1
        break
  return cnt, np_arr(edges)


def n_histogram2d(x, y, bins=10, **k):
  bx, by = list(bins[0]), list(bins[1])
  r = n_zeros((len(bx) - 1, len(by) - 1))

  def loc(v, e):
    if bool(v < e[0]) or bool(v > e[-1]):
      return None
    for i in builtins.range(len(e) - 1):
      if i == len(e) - 2 or bool(v < e[i + 1]):
        return i
  for a, b in zip(x, y):
    i, j = loc(a, bx), loc(b, by)
    if i is not None and j is not None:
      r[i, j] = r[i, j] + 1
  return r, np_arr(bx), np_arr(by)


def n_array_equal(a, b, **k):
  a, b = A(a), A(b)
  if a.shape != b.shape:
    return False
  return all(bool(x == y) for x, y in zip(a.ravel(), b.ravel()))


class NpRandom:
  def __init__(self):
    self._real = np.random

  def normal(self, loc=0.0, scale=1.0, size=None):
    return RNG.draw('normal', (loc, scale), size)

  def laplace(self, loc=0.0, scale=1.0, size=None):
    return RNG.draw('laplace', (loc, scale), size)

  def gumbel(self, loc=0.0, scale=1.0, size=None):
    return RNG.draw('gumbel', (loc, scale), size)

  def standard_normal(self, size=None):
    return RNG.draw('normal', (0.0, 1.0), size)

  def randn(self, *size):
    return RNG.draw('normal', (0.0, 1.0), size)

  def default_rng(self, *a):
    return self

  Generator = np.random.Generator
  RandomState = np.random.RandomState
  BitGenerator = np.random.BitGenerator


def make_numpy():
  f = {}
  f.update(
      array=n_array, asarray=n_asarray, asanyarray=n_asarray,
      ascontiguousarray=n_asarray, zeros=n_zeros, ones=n_ones, empty=n_zeros,
      full=n_full, zeros_like=n_zeros_like, ones_like=n_ones_like,
      empty_like=n_zeros_like, full_like=n_full_like, arange=n_arange,
      linspace=n_linspace, exp=unary(e_exp, np.exp),
      tanh=unary(e_tanh, np.tanh),
      expm1=unary(e_expm1, np.expm1), log=unary(e_log, np.log),
      log1p=unary(e_log1p, np.log1p), sqrt=unary(e_sqrt, np.sqrt),
      isinf=boolwrap(unary(e_isinf, np.isinf)),
      isnan=boolwrap(unary(e_isnan, np.isnan)),
      isfinite=boolwrap(unary(e_isfinite, np.isfinite)),
      isposinf=boolwrap(unary(lambda x: e_isinf(x) and x > 0, None)),
      isneginf=boolwrap(unary(lambda x: e_isinf(x) and x < 0, None)),
      floor=unary(e_floor, np.floor), ceil=unary(e_ceil, np.ceil),
      rint=unary(e_rint, np.rint), round=unary(e_rint, np.rint),
      abs=unary(abs, np.abs), absolute=unary(abs, np.abs),
      fabs=unary(abs, np.abs), sign=unary(e_sign, np.sign),
      square=unary(lambda x: x * x, np.square),
      log2=unary(lambda x: e_log(x) / e_log(2), None),
      log10=unary(lambda x: e_log(x) / e_log(10), None),
      negative=unary(lambda x: -x, None),
      reciprocal=unary(lambda x: 1 / S(x), None),
      maximum=UFunc(e_max, -INF), minimum=UFunc(e_min, INF),
      fmax=UFunc(e_max), fmin=UFunc(e_min),
      add=UFunc(lambda a, b: a + b, 0),
      subtract=UFunc(lambda a, b: a - b),
      multiply=UFunc(lambda a, b: a * b, 1),
      divide=UFunc(n_divide), true_divide=UFunc(n_divide),
      power=UFunc(core_pow), float_power=UFunc(core_pow),
      logaddexp=UFunc(n_logaddexp_e, -INF),
      less=binary(lambda a, b: a < b, True),
      less_equal=binary(lambda a, b: a <= b, True),
      greater=binary(lambda a, b: a > b, True),
      greater_equal=binary(lambda a, b: a >= b, True),
      equal=binary(lambda a, b: a == b, True),
      not_equal=binary(lambda a, b: a != b, True),
      sum=n_sum, nansum=n_sum, prod=n_prod, mean=n_mean, average=n_mean,
      max=n_max, amax=n_max, min=n_min, amin=n_min, argmin=n_argmin,
      argmax=n_argmax, cumsum=n_cumsum, cumprod=n_cumprod, dot=n_dot,
      inner=n_dot, vdot=n_dot, matmul=n_dot, diff=n_diff, append=n_append,
      concatenate=n_concatenate, hstack=n_stack(np.hstack),
      vstack=n_stack(np.vstack), stack=n_stack(np.stack),
      column_stack=n_stack(np.column_stack), clip=n_clip, where=n_where,
      any=n_any, all=n_all, logical_not=n_logical(np.logical_not),
      logical_and=n_logical(np.logical_and), logical_or=n_logical(np.logical_or),
      isclose=n_isclose, allclose=n_allclose, vectorize=n_vectorize,
      sort=n_sort, argsort=n_argsort, searchsorted=n_searchsorted,
      unique=n_unique, real=n_real, interp=n_interp, nan_to_num=n_nan_to_num,
      convolve=s_convolve, nonzero=n_nonzero, bincount=n_bincount,
      histogram=n_histogram, histogram2d=n_histogram2d,
      array_equal=n_array_equal, float64=np.float64, outer=UFunc(
          lambda a, b: a * b).outer, count_nonzero=lambda a, **k: int(np.sum(_bools(a))),
      flatnonzero=lambda a: np.nonzero(_bools(a).ravel())[0],
      argwhere=lambda a: np.argwhere(_bools(a)),
      pad=n_pad, random=NpRandom(),
      ndim=lambda x: 0 if isS(x) else np.ndim(x),
      size=lambda x: 1 if isS(x) else np.size(x),
      isscalar=lambda x: True if isS(x) else np.isscalar(x),
      atleast_1d=lambda x: A([x]) if (isS(x) or np.ndim(x) == 0) else A(x),
      fft=Fallback(np.fft, dict(fft=f_fft, ifft=f_ifft, rfft=f_fft,
                                irfft=f_irfft)),
      linalg=Fallback(np.linalg, dict(norm=n_norm)),
  )
  for k in ('ravel', 'reshape', 'transpose', 'expand_dims', 'squeeze',
            'moveaxis', 'flip', 'roll', 'tile', 'repeat', 'insert', 'delete',
            'take', 'shape', 'copy', 'broadcast_to', 'broadcast_arrays',
            'meshgrid', 'ndindex', 'split', 'array_split', 'trim_zeros',
            'swapaxes', 'fliplr', 'flipud', 'compress', 'extract', 'choose'):
    if hasattr(np, k):
      f[k] = arrfirst(getattr(np, k))
  return Fallback(np, f, 'numpy')


def n_pad(a, width, mode='constant', constant_values=0, **k):
  if mode != 'constant':
    raise Unsupported('pad mode')
  a = A(a)
  if isinstance(width, int):
    l = r = width
  else:
    w = width[0] if isinstance(width[0], (tuple, list)) else width
    l, r = w if len(w) == 2 else (w[0], w[0])
  return A([constant_values] * l + list(a) + [constant_values] * r)


def core_pow(a, b):
  if not isS(a) and not isS(b) and isinstance(a, int) and isinstance(b, int) and b >= 0:
    return a**b
  if not isS(a) and not isS(b):
    return core.spow(a, b)
  return core.spow(a, b)


def arrfirst(f):
  def g(a, *r, **k):
    if isinstance(a, (list, tuple)) and f.__name__ not in ('broadcast_arrays',
                                                          'ndindex'):
      a = A(a)
    return f(a, *r, **k)
  g.__name__ = f.__name__
  return g


def sp_eval_chebyt(n, x):
  n = int(n)

  def f(x):
    prev, cur = 1, x
    if n == 0:
      return 0 * x + 1
    for _ in range(n - 1):
      prev, cur = cur, 2 * x * cur - prev
    return cur
  return elem(f)(x)


def make_scipy():
  special = Fallback(scipy.special, dict(
      gammaln=sp_gammaln, loggamma=sp_gammaln, binom=sp_binom, comb=sp_comb,
      eval_chebyt=sp_eval_chebyt,
      log_ndtr=sp_log_ndtr, ndtr=sp_ndtr, erfc=sp_erfc,
      erf=lambda x: 1 - sp_erfc(x), ndtri=lambda p: elem(E().phi_inv)(p),
      logsumexp=sp_logsumexp, expm1=elem(e_expm1), log1p=elem(e_log1p),
      expit=elem(lambda x: 1 / (1 + e_exp(-x))),
      logit=elem(lambda x: e_log(x / (1 - x))),
      xlogy=elem(lambda x, y: 0 if bool(S(x) == 0) else x * e_log(y))))
  stats = Fallback(scipy.stats, dict(norm=make_norm(), laplace=make_laplace(),
                                     dlaplace=make_dlaplace()))
  fft = Fallback(importlib.import_module('scipy.fft'), dict(
      fft=f_fft, ifft=f_ifft, rfft=f_fft, irfft=f_irfft))
  signal = Fallback(importlib.import_module('scipy.signal'), dict(
      convolve=s_convolve, fftconvolve=s_convolve, oaconvolve=s_convolve))
  from se import optimize_shim
  optimize = Fallback(importlib.import_module('scipy.optimize'),
                      optimize_shim.table())
  import scipy as real
  s = Fallback(real, dict(special=special, stats=stats, fft=fft, signal=signal,
                          optimize=optimize), 'scipy')
  return s, {'scipy.special': special, 'scipy.stats': stats, 'scipy.fft': fft,
             'scipy.signal': signal, 'scipy.optimize': optimize}


# ------------------------------------------------------------------ builtins
class _FloatMeta(type):
  def __instancecheck__(cls, x):
    return isinstance(x, float) or isinstance(x, SymReal)

  def __subclasscheck__(cls, c):
    return issubclass(c, float) or c is SymReal

  def __eq__(cls, o):
    return o is float or o is SymFloat

  def __hash__(cls):
    return hash(float)

  def __or__(cls, o):
    return float | (o if o is not SymInt else int)

  def __ror__(cls, o):
    return (o if o is not SymInt else int) | float


class SymFloat(metaclass=_FloatMeta):
  def __new__(cls, x=0.0):
    if isinstance(x, SymReal):
      return x
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
      x = x.ravel()[0]
      if isinstance(x, SymReal):
        return x
    if isinstance(x, SymBool):
      return float(bool(x))
    return float(x)

  fromhex = float.fromhex


class _IntMeta(type):
  def __instancecheck__(cls, x):
    return isinstance(x, int)

  def __subclasscheck__(cls, c):
    return issubclass(c, int)

  def __eq__(cls, o):
    return o is int or o is SymInt

  def __hash__(cls):
    return hash(int)

  def __or__(cls, o):
    return int | (o if o is not SymFloat else float)

  def __ror__(cls, o):
    return (o if o is not SymFloat else float) | int


class SymInt(metaclass=_IntMeta):
  def __new__(cls, x=0, *a):
    if isinstance(x, SymReal):
      return E().trunc(x)
    if isinstance(x, SymBool):
      return int(bool(x))
    return int(x, *a)


def b_isinstance(x, c):
  if isinstance(x, (SymReal,)):
    if isinstance(c, tuple):
      return any(b_isinstance(x, k) for k in c)
    if c in (float, np.floating, np.float64, np.number, np.generic):
      return True
    if c is SymInt or c is int:
      return False
  try:
    return isinstance(x, c)
  except TypeError:
    if isinstance(c, tuple):
      return any(b_isinstance(x, k) for k in c)
    raise


def b_sum(xs, start=0):
  r = start
  for x in xs:
    r = r + x
  return r


def b_round(x, n=None):
  if isS(x):
    return round(x) if n is None else round(x, n)
  return round(x, n) if n is not None else round(x)


def b_pow(a, b, m=None):
  if m is not None:
    return pow(a, b, m)
  return a**b


def b_range(*a):
  b = []
  for x in a:
    if isinstance(x, SymReal):
      raise TypeError("'float' object cannot be interpreted as an integer")
    b.append(x)
  return range(*b)
