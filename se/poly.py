"""Laurent-Puiseux polynomials over named variables with rational coefficients.

A monomial is a sorted tuple ((var, exp), ...).  Variables whose VarInfo says
`pos` are strictly positive and may carry negative / fractional exponents.
"""
from fractions import Fraction
import math

ONE = ()


def to_frac(x):
  """Ideal-real reading of a concrete number."""
  if isinstance(x, Fraction):
    return x
  if isinstance(x, bool):
    return Fraction(int(x))
  if isinstance(x, int):
    return Fraction(x)
  try:
    import numpy as np
    if isinstance(x, np.integer):
      return Fraction(int(x))
    if isinstance(x, np.bool_):
      return Fraction(int(x))
  except ImportError:  # pragma: no cover
    pass
  x = float(x)
  if x != x or x in (math.inf, -math.inf):
    raise ValueError('not finite')
  if x == int(x) and abs(x) < 1e15:
    return Fraction(int(x))
  f = Fraction(x).limit_denominator(100000)
  if float(f) == x:
    return f
  f = Fraction(x).limit_denominator(1000)
  d = f.denominator
  if d & (d - 1) and abs(float(f) - x) <= 2 * math.ulp(x):
    return f  # rounded result of exact arithmetic on small fractions
  return Fraction(repr(x))


def mono_mul(a, b):
  if not a:
    return b
  if not b:
    return a
  d = dict(a)
  for v, e in b:
    n = d.get(v, 0) + e
    if n == 0:
      d.pop(v, None)
    else:
      d[v] = n
  return tuple(sorted(d.items()))


def mono_pow(a, k):
  if k == 0:
    return ()
  return tuple((v, norm(e * k)) for v, e in a)


def norm(e):
  if isinstance(e, Fraction) and e.denominator == 1:
    return e.numerator
  return e


def padd(a, b, k=1):
  if not a and k == 1:
    return b
  r = dict(a)
  for m, c in b.items():
    n = r.get(m, 0) + k * c
    if n == 0:
      r.pop(m, None)
    else:
      r[m] = n
  return r


def pscale(a, k):
  if k == 0:
    return {}
  if k == 1:
    return a
  return {m: c * k for m, c in a.items()}


def pmul(a, b):
  if len(a) == 1 and ONE in a:
    return pscale(b, a[ONE])
  if len(b) == 1 and ONE in b:
    return pscale(a, b[ONE])
  r = {}
  for m1, c1 in a.items():
    for m2, c2 in b.items():
      m = mono_mul(m1, m2)
      n = r.get(m, 0) + c1 * c2
      if n == 0:
        r.pop(m, None)
      else:
        r[m] = n
  return r


def pconst(c):
  c = Fraction(c)
  return {ONE: c} if c else {}


def pvars(a):
  s = set()
  for m in a:
    for v, _ in m:
      s.add(v)
  return s


def is_const(a):
  return not a or (len(a) == 1 and ONE in a)


def const_val(a):
  return a.get(ONE, Fraction(0))


def pkey(a):
  return tuple(sorted(a.items()))


def pstr(a):
  if not a:
    return '0'
  out = []
  for m, c in sorted(a.items()):
    s = str(c)
    for v, e in m:
      s += '*' + v + ('' if e == 1 else '^(%s)' % e)
    out.append(s)
  return ' + '.join(out)
