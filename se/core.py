"""Symbolic reals, booleans and the path-forking engine."""
import math
import numbers
import time
from fractions import Fraction

import numpy as np
import z3

from se import poly as P

INF = math.inf


class Stop(BaseException):
  """Path-steering exceptions; code under test catching Exception never sees them."""


class PathEnd(Stop):
  """Path infeasible (failed assume)."""


class Unsupported(Stop):
  """The executor cannot encode what the code did."""


class Inconclusive(Stop):
  """Bound or solver limit hit."""


CUR = None  # current Engine


def cur():
  return CUR


# --------------------------------------------------------------------------
# Booleans


class SymBool:
  """op: 'lt','le','eq','ne' over poly p (p op 0); 'and','or','not'; const."""
  __slots__ = ('op', 'args', '_k')

  def __init__(self, op, args):
    self.op = op
    self.args = args
    self._k = None

  def key(self):
    if self._k is None:
      if self.op in ('lt', 'le', 'eq', 'ne'):
        self._k = (self.op, P.pkey(self.args))
      else:
        self._k = (self.op,) + tuple(a.key() if isinstance(a, SymBool) else a
                                     for a in self.args)
    return self._k

  def __bool__(self):
    return CUR.branch(self)

  def __and__(self, o):
    return b_and(self, o)

  __rand__ = __and__

  def __or__(self, o):
    return b_or(self, o)

  __ror__ = __or__

  def __invert__(self):
    return b_not(self)

  def __eq__(self, o):
    return bool(self) == bool(o)

  def __hash__(self):
    return hash(self.key())

  def _n(self):
    return int(bool(self))

  def __add__(self, o):
    return self._n() + o

  __radd__ = __add__

  def __mul__(self, o):
    return self._n() * o

  __rmul__ = __mul__

  def __int__(self):
    return self._n()

  def __index__(self):
    return self._n()

  def __float__(self):
    return float(self._n())


def is_b(x):
  return isinstance(x, (bool, np.bool_))


def b_and(a, b):
  if is_b(a):
    return b if a else False
  if is_b(b):
    return a if b else False
  if isinstance(b, np.ndarray):
    return NotImplemented
  return SymBool('and', (a, b))


def b_or(a, b):
  if is_b(a):
    return True if a else b
  if is_b(b):
    return True if b else a
  if isinstance(b, np.ndarray):
    return NotImplemented
  return SymBool('or', (a, b))


def b_not(a):
  if is_b(a):
    return not a
  neg = {'lt': 'le', 'le': 'lt'}
  if a.op in neg:  # not(p<0) = -p<=0
    return SymBool(neg[a.op], P.pscale(a.args, -1))
  if a.op == 'eq':
    return SymBool('ne', a.args)
  if a.op == 'ne':
    return SymBool('eq', a.args)
  if a.op == 'not':
    return a.args[0]
  if a.op == 'and':
    return SymBool('or', tuple(b_not(x) for x in a.args))
  if a.op == 'or':
    return SymBool('and', tuple(b_not(x) for x in a.args))
  raise AssertionError(a.op)


def mk_cmp(p, op):
  """Boolean p op 0 with cheap decisions. p: Poly."""
  if P.is_const(p):
    c = P.const_val(p)
    return {'lt': c < 0, 'le': c <= 0, 'eq': c == 0, 'ne': c != 0}[op]
  s = CUR.syn_sign(p)
  if s is not None:  # s in '+','-','0+','0-'
    if s == '+':
      return op == 'ne'
    if s == '-':
      return op in ('lt', 'le', 'ne')
    if s == '0+' and op == 'lt':
      return False
    if s == '0-' and op == 'le':
      return True
  # normalise scale and positive monomial content
  p = CUR.strip(p)
  q = CUR.delog(p)
  if q is not None:
    return mk_cmp(q, op)
  if op in ('eq', 'ne'):
    m = max(p)
    if p[m] < 0:
      p = P.pscale(p, -1)
  return SymBool(op, p)


# --------------------------------------------------------------------------
# Reals


def is_num(x):
  return isinstance(x, (int, float, Fraction, np.number)) or is_b(x)


def is_inf(x):
  return isinstance(x, (float, np.floating)) and math.isinf(x)


def is_nan(x):
  return isinstance(x, (float, np.floating)) and math.isnan(x)


# floats standing for irrational constants of ideal arithmetic
_ROOTS = {}
for _n in range(2, 101):
  if math.isqrt(_n)**2 != _n:
    _ROOTS[math.sqrt(_n)] = _ROOTS[_n**0.5] = Fraction(_n)
    _ROOTS[_n**-0.5] = _ROOTS[(1 / _n)**0.5] = _ROOTS[1 / math.sqrt(_n)] = Fraction(1, _n)


class SymReal:
  __slots__ = ('num', 'den')

  def __init__(self, num, den=None):
    self.num = num
    self.den = den  # None means 1

  # -- construction helpers
  @staticmethod
  def lift(x):
    if isinstance(x, SymReal):
      return x
    if isinstance(x, SymBool):
      return SymReal(P.pconst(int(bool(x))))
    if isinstance(x, np.ndarray) and x.ndim == 0:
      return SymReal.lift(x.item())
    if isinstance(x, float) and x in _ROOTS and CUR is not None:
      return CUR.sqrt(SymReal(P.pconst(_ROOTS[x])))
    return SymReal(P.pconst(P.to_frac(x)))

  def const(self):
    """Fraction if constant else None."""
    if self.den is None and P.is_const(self.num):
      return P.const_val(self.num)
    return None

  def key(self):
    return (P.pkey(self.num), None if self.den is None else P.pkey(self.den))

  def __hash__(self):
    c = self.const()
    if c is not None:
      return hash(c)
    return hash(self.key())

  def __repr__(self):
    s = '<' + P.pstr(self.num)
    if self.den is not None:
      s += ' / ' + P.pstr(self.den)
    return s + '>'

  def __format__(self, spec):
    return repr(self)

  # -- arithmetic
  def _bin(self, o, f):
    if isinstance(o, np.ndarray):
      if o.ndim == 0:
        return f(self, o.item())
      r = np.empty(o.shape, dtype=object)
      for i in np.ndindex(o.shape):
        r[i] = f(self, o[i])
      return r
    return NotImplemented

  def __add__(self, o):
    if isinstance(o, SymReal):
      return sadd(self, o)
    if isinstance(o, SymBool):
      return sadd(self, SymReal.lift(o))
    if is_num(o):
      if is_inf(o) or is_nan(o):
        return float(o)
      return sadd(self, SymReal.lift(o))
    return self._bin(o, lambda a, b: a + b)

  def __radd__(self, o):
    if is_num(o) or isinstance(o, SymBool):
      return self.__add__(o)
    return self._bin(o, lambda a, b: b + a)

  def __neg__(self):
    return SymReal(P.pscale(self.num, -1), self.den)

  def __pos__(self):
    return self

  def __sub__(self, o):
    if isinstance(o, SymReal):
      return sadd(self, -o)
    if is_num(o):
      if is_inf(o) or is_nan(o):
        return -float(o)
      return sadd(self, SymReal.lift(-P.to_frac(o)))
    return self._bin(o, lambda a, b: a - b)

  def __rsub__(self, o):
    if is_num(o):
      return (-self).__add__(o)
    return self._bin(o, lambda a, b: b - a)

  def __mul__(self, o):
    if isinstance(o, SymReal):
      return smul(self, o)
    if isinstance(o, SymBool):
      return smul(self, SymReal.lift(o))
    if is_num(o):
      if is_nan(o):
        return math.nan
      if is_inf(o):
        if self > 0:
          return float(o)
        if self < 0:
          return -float(o)
        return math.nan
      return smul(self, SymReal.lift(o))
    return self._bin(o, lambda a, b: a * b)

  def __rmul__(self, o):
    if is_num(o) or isinstance(o, SymBool):
      return self.__mul__(o)
    return self._bin(o, lambda a, b: b * a)

  def __truediv__(self, o):
    if isinstance(o, SymReal):
      return sdiv(self, o)
    if is_num(o):
      if is_nan(o):
        return math.nan
      if is_inf(o):
        return SymReal({})
      return sdiv(self, SymReal.lift(o))
    return self._bin(o, lambda a, b: a / b)

  def __rtruediv__(self, o):
    if is_num(o):
      if is_nan(o):
        return math.nan
      if is_inf(o):
        if self > 0:
          return float(o)
        if self < 0:
          return -float(o)
        raise ZeroDivisionError('float division by zero')
      return sdiv(SymReal.lift(o), self)
    return self._bin(o, lambda a, b: b / a)

  def __floordiv__(self, o):
    return CUR.floor(self / o)

  def __rfloordiv__(self, o):
    return CUR.floor(o / self)

  def __mod__(self, o):
    return self - o * CUR.floor(self / o)

  def __rmod__(self, o):
    return o - self * CUR.floor(o / self)

  def __pow__(self, o, mod=None):
    return spow(self, o)

  def __rpow__(self, o):
    return spow(o, self)

  def __abs__(self):
    return self if bool(self >= 0) else -self

  # -- comparisons
  def _cmp(self, o, op):
    if isinstance(o, np.ndarray):
      if o.ndim == 0:
        return self._cmp(o.item(), op)
      r = np.empty(o.shape, dtype=object)
      for i in np.ndindex(o.shape):
        r[i] = self._cmp(o[i], op)
      return r.astype(bool)
    if is_num(o) and (is_inf(o) or is_nan(o)):
      if is_nan(o):
        return op == 'ne'
      if op in ('eq', 'ne'):
        return op == 'ne'
      pos = o > 0
      return pos if op in ('lt', 'le') else not pos
    if isinstance(o, SymBool):
      o = SymReal.lift(o)
    if not isinstance(o, SymReal):
      if not is_num(o):
        if op == 'eq':
          return False
        if op == 'ne':
          return True
        return NotImplemented
      o = SymReal.lift(o)
    d = sadd(self, -o)
    p = d.num
    if d.den is not None and op not in ('eq', 'ne'):
      s = CUR.syn_sign(d.den)
      if s == '+':
        pass
      elif s == '-':
        p = P.pscale(p, -1)
      else:
        ds = CUR.known_sign(d.den)
        if ds == '+':
          pass
        elif ds == '-':
          p = P.pscale(p, -1)
        else:
          p = P.pmul(p, d.den)
    if op == 'gt':
      return mk_cmp(P.pscale(p, -1), 'lt')
    if op == 'ge':
      return mk_cmp(P.pscale(p, -1), 'le')
    return mk_cmp(p, op)

  def __lt__(self, o):
    return self._cmp(o, 'lt')

  def __le__(self, o):
    return self._cmp(o, 'le')

  def __gt__(self, o):
    return self._cmp(o, 'gt')

  def __ge__(self, o):
    return self._cmp(o, 'ge')

  def __eq__(self, o):
    return self._cmp(o, 'eq')

  def __ne__(self, o):
    return self._cmp(o, 'ne')

  def __bool__(self):
    return bool(self != 0)

  # -- conversions
  def __float__(self):
    c = self.const()
    if c is not None:
      return float(c)
    raise Unsupported('float() of a symbolic real: %r' % self)

  def __int__(self):
    return CUR.trunc(self)

  def __trunc__(self):
    return CUR.trunc(self)

  def __index__(self):
    c = self.const()
    if c is not None and c.denominator == 1:
      return int(c)
    raise Unsupported('index of a symbolic real')

  def __floor__(self):
    return CUR.floor(self)

  def __ceil__(self):
    return CUR.ceil(self)

  def __round__(self, n=None):
    if n:
      raise Unsupported('round with digits')
    return CUR.rint(self)

  def is_integer(self):
    return bool(self == CUR.floor(self))

  def bit_length(self):
    x = -self if bool(self < 0) else self
    for n in range(200):
      if bool(x < 2**n):
        return n
    raise Inconclusive('bit length range')

  # -- numpy object-ufunc methods
  def exp(self):
    return CUR.exp(self)

  def expm1(self):
    return CUR.exp(self) - 1

  def log(self):
    return CUR.nplog(self)

  def log1p(self):
    return CUR.nplog(self + 1)

  def log2(self):
    return CUR.nplog(self) / CUR.nplog(SymReal.lift(2))

  def log10(self):
    return CUR.nplog(self) / CUR.nplog(SymReal.lift(10))

  def sqrt(self):
    return CUR.sqrt(self)

  def square(self):
    return self * self

  def floor(self):
    return CUR.floor(self)

  def ceil(self):
    return CUR.ceil(self)

  def rint(self):
    return CUR.rint(self)

  def conjugate(self):
    return self

  def item(self):
    return self

  def tolist(self):
    return self

  @property
  def real(self):
    return self

  @property
  def imag(self):
    return 0

  @property
  def shape(self):
    return ()

  @property
  def ndim(self):
    return 0

  @property
  def size(self):
    return 1

  @property
  def dtype(self):
    return np.dtype(float)

  def astype(self, t):
    return self

  def __copy__(self):
    return self

  def __deepcopy__(self, memo):
    return self


numbers.Real.register(SymReal)


def sadd(a, b):
  if a.den is None and b.den is None:
    return SymReal(P.padd(a.num, b.num))
  if not a.num:
    return b
  if not b.num:
    return a
  if a.den is not None and b.den is not None and a.den == b.den:
    return mk_frac(P.padd(a.num, b.num), a.den)
  ad = a.den if a.den is not None else {P.ONE: Fraction(1)}
  bd = b.den if b.den is not None else {P.ONE: Fraction(1)}
  return mk_frac(
      P.padd(P.pmul(a.num, bd), P.pmul(b.num, ad)), P.pmul(ad, bd))


def smul(a, b):
  if a.den is None and b.den is None:
    return SymReal(CUR.fold(P.pmul(a.num, b.num)))
  an, ad, bn, bd = a.num, a.den, b.num, b.den
  if ad is not None and ad == bn:
    return SymReal(an, bd) if bd is not None else SymReal(an)
  if bd is not None and bd == an:
    return SymReal(bn, ad) if ad is not None else SymReal(bn)
  one = {P.ONE: Fraction(1)}
  return mk_frac(CUR.fold(P.pmul(an, bn)),
                 CUR.fold(P.pmul(ad or one, bd or one)))


def mk_frac(num, den):
  """Normalised num/den (den nonzero)."""
  if not num:
    return SymReal({})
  if P.is_const(den):
    return SymReal(P.pscale(num, 1 / P.const_val(den)))
  if len(den) == 1:
    (m, c), = den.items()
    pos = tuple((v, e) for v, e in m if CUR.is_pos(v))
    rest = tuple((v, e) for v, e in m if not CUR.is_pos(v))
    num = P.pmul(num, {P.mono_pow(pos, -1): 1 / c})
    if not rest:
      return SymReal(CUR.fold(num))
    # cancel common powers of the remaining variables
    newrest = []
    for v, e in rest:
      k = min([e] + [dict(mm).get(v, 0) for mm in num])
      if k > 0:
        num = {P.mono_mul(mm, ((v, -k),)): cc for mm, cc in num.items()}
      if e - k:
        newrest.append((v, e - k))
    if not newrest:
      return SymReal(num)
    return SymReal(num, {tuple(newrest): Fraction(1)})
  # proportional?
  if len(num) == len(den):
    q = P_ratio(num, den)
    if q is not None:
      return SymReal({q[0]: q[1]} if not isinstance(q, Fraction) else
                     P.pconst(q))
  # strip positive content of den into num
  cont = CUR.content(den)
  if cont:
    inv = {P.mono_pow(cont, -1): Fraction(1)}
    num = P.pmul(num, inv)
    den = P.pmul(den, inv)
  return SymReal(CUR.fold(num), den)


def P_ratio(num, den):
  """num == (c*m) * den with m a monomial in positive vars?"""
  a = sorted(num)
  b = sorted(den)
  for db in b[:1]:
    for na in a:
      m = P.mono_mul(na, P.mono_pow(db, -1))
      if any(e < 0 and not CUR.is_pos(v) for v, e in m):
        continue
      c = num[na] / den[db]
      if P.pmul(den, {m: c}) == num:
        return (m, c)
  return None


def sdiv(a, b):
  if P.is_const(b.num):
    c = P.const_val(b.num)
    if c == 0:
      raise ZeroDivisionError('float division by zero')
  elif CUR.syn_sign(b.num) not in ('+', '-'):
    if bool(mk_cmp(b.num, 'eq')):
      raise ZeroDivisionError('float division by zero')
  if b.den is None:
    if a.den is None:
      return mk_frac(a.num, b.num)
    return mk_frac(a.num, CUR.fold(P.pmul(a.den, b.num)))
  if a.den is not None and a.den == b.den:
    return mk_frac(a.num, b.num)
  num = CUR.fold(P.pmul(a.num, b.den))
  den = b.num if a.den is None else CUR.fold(P.pmul(a.den, b.num))
  return mk_frac(num, den)


def spow(a, b):
  if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
    aa, bb = np.broadcast_arrays(np.asarray(a, dtype=object),
                                 np.asarray(b, dtype=object))
    r = np.empty(aa.shape, dtype=object)
    for i in np.ndindex(aa.shape):
      r[i] = aa[i]**bb[i]
    return r
  if not isinstance(b, SymReal):
    if is_inf(b):
      aa = abs(a)
      if aa < 1:
        return 0.0 if b > 0 else INF
      if aa == 1:
        return 1.0
      return INF if b > 0 else 0.0
    if is_nan(b):
      return math.nan
    k = P.to_frac(b)
  else:
    k = b.const()
  if isinstance(a, (float, np.floating)) and (is_inf(a) or is_nan(a)):
    if is_nan(a):
      return a
    if b > 0:
      return INF
    return 0.0 if b < 0 else 1.0
  a = SymReal.lift(a)
  if k is not None:
    if k.denominator == 1:
      n = int(k)
      if n == 0:
        return SymReal(P.pconst(1))
      if n < 0:
        return 1 / spow(a, -n)
      if n > 4096:
        raise Unsupported('huge power')
      if a.den is None and len(a.num) == 1:
        (m, c), = a.num.items()
        return SymReal(CUR.fold({P.mono_pow(m, n): c**n}))
      r = None
      base = a
      while n:
        if n & 1:
          r = base if r is None else r * base
        n >>= 1
        if n:
          base = base * base
      return r
    c = a.const()
    if c is not None and c == 0:
      if k > 0:
        return SymReal({})
      raise ZeroDivisionError('0.0 cannot be raised to a negative power')
    if k.denominator == 2 and k > 0:
      return CUR.sqrt(a)**int(k * 2)
  # general: exp(b*log a)
  if bool(a > 0):
    return CUR.exp(CUR.log(a) * b)
  if bool(a == 0):
    if bool(SymReal.lift(b) > 0):
      return SymReal({})
    if bool(SymReal.lift(b) == 0):
      return SymReal(P.pconst(1))
    raise ZeroDivisionError('0.0 cannot be raised to a negative power')
  raise Unsupported('negative base with fractional exponent')


def sym(x):
  return isinstance(x, (SymReal, SymBool))


def anysym(*xs):
  for x in xs:
    if isinstance(x, (SymReal, SymBool)):
      return True
    if isinstance(x, np.ndarray):
      if x.dtype == object:
        return True
    elif isinstance(x, (list, tuple)):
      if anysym(*x):
        return True
  return False


class Proxy:
  """Object with some attributes replaced."""

  def __init__(self, real, **over):
    self.__dict__['_real'] = real
    self.__dict__.update(over)

  def __getattr__(self, k):
    return getattr(self._real, k)
