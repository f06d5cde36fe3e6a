"""Bit-exact execution of translated Go code: 64-bit integers and doubles as z3 terms.

run(f, inputs) explores every path of f by scripts of branch decisions; each obligation f states is
decided by z3 for all inputs.
"""
import math
import time

import z3

from se import core
from se.golang import SIZES

F64 = z3.Float64()
RNE, RTZ, RNA = z3.RNE(), z3.RTZ(), z3.RNA()
NOW = [None]


class Ex:
  """One path."""

  def __init__(self, script, todo, assume, ms):
    self.script, self.todo, self.pos = script, todo, 0
    self.pc = list(assume)
    self.ms = ms
    self.obl = []
    self.queries = 0

  def sat(self, *c):
    s = z3.Solver()
    s.set('timeout', self.ms)
    s.add(*self.pc)
    s.add(*c)
    self.queries += 1
    r = s.check()
    if r == z3.unknown:
      raise core.Inconclusive('solver gave up on a bit-exact query')
    return s.model() if r == z3.sat else None

  def fork(self, c):
    c = z3.simplify(c)
    if z3.is_true(c):
      return True
    if z3.is_false(c):
      return False
    if self.pos < len(self.script):
      b = self.script[self.pos]
    else:
      t, f = self.sat(c), self.sat(z3.Not(c))
      if t is None and f is None:
        raise core.PathEnd()
      b = t is not None
      if b and f is not None:
        self.todo.append(self.script + [False])
      self.script = self.script + [b]
    self.pos += 1
    self.pc.append(c if b else z3.Not(c))
    return b

  def must(self, c, label):
    self.obl.append((c, label))


def run(f, terms, assume=(), ms=60000, stats=None, limit=500):
  """None, or (label, {input: value}) of an obligation that fails."""
  todo, n = [[]], 0
  t0 = time.time()
  while todo:
    ex = Ex(todo.pop(), todo, assume, ms)
    NOW[0] = ex
    try:
      f(ex)
    except core.PathEnd:
      continue
    finally:
      NOW[0] = None
    n += 1
    for c, label in ex.obl:
      if isinstance(c, bool):
        c = z3.BoolVal(c)
      m = ex.sat(z3.Not(c))
      if stats is not None:
        stats.obl += 1
        stats.obl_smt += 1
      if m is not None:
        return label, {k: m.eval(t, model_completion=True).as_long() for k, t in terms.items()}
    if stats is not None:
      stats.queries += ex.queries
      stats.solver_s += time.time() - t0
      t0 = time.time()
    if n > limit:
      raise core.Inconclusive('too many paths')
  return None


def const(v, k):
  return z3.BitVecVal(int(v), SIZES[k])


class V:
  """A machine integer (bit vector) of Go kind k."""

  def __init__(self, t, k):
    self.t, self.k = t, k

  def other(self, o):
    return o.t if isinstance(o, V) else z3.BitVecVal(int(o), self.t.size())

  def signed(self):
    return not self.k.startswith('u')

  def __add__(self, o):
    return V(self.t + self.other(o), self.k)
  __radd__ = __add__

  def __sub__(self, o):
    return V(self.t - self.other(o), self.k)

  def __rsub__(self, o):
    return V(self.other(o) - self.t, self.k)

  def __mul__(self, o):
    return V(self.t * self.other(o), self.k)
  __rmul__ = __mul__

  def __neg__(self):
    return V(-self.t, self.k)

  def go_wrap(self, k):
    return self.go_conv(self.k, k)

  def go_op(self, op, a, b, k):
    s = self.signed()
    x, y = (a.t if isinstance(a, V) else self.other(a)), None
    if op == '~':
      return V(~x, k)
    y = b.t if isinstance(b, V) else self.other(b)
    if y.size() != x.size():
      y = z3.ZeroExt(x.size() - y.size(), y) if y.size() < x.size() else z3.Extract(
          x.size() - 1, 0, y)
    r = {'&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y, '&^': lambda: x & ~y,
         '<<': lambda: x << y, '>>': lambda: (x >> y) if s else z3.LShR(x, y),
         '/': lambda: (x / y) if s else z3.UDiv(x, y),
         '%': lambda: z3.SRem(x, y) if s else z3.URem(x, y),
         '+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y}[op]()
    return V(r, k)

  def go_cmp(self, a, op, b):
    x, y = (a.t if isinstance(a, V) else self.other(a)), (b.t if isinstance(b, V) else self.other(b))
    s = self.signed()
    c = {'==': lambda: x == y, '!=': lambda: x != y,
         '<': lambda: x < y if s else z3.ULT(x, y), '<=': lambda: x <= y if s else z3.ULE(x, y),
         '>': lambda: x > y if s else z3.UGT(x, y),
         '>=': lambda: x >= y if s else z3.UGE(x, y)}[op]()
    return NOW[0].fork(c)

  def go_conv(self, a, b):
    if b == 'float64':
      return D(z3.fpSignedToFP(RNE, self.t, F64) if self.signed() else
               z3.fpUnsignedToFP(RNE, self.t, F64))
    if b not in SIZES or b == self.k:
      return self
    n, m = self.t.size(), SIZES[b]
    if m == n:
      return V(self.t, b)
    if m < n:
      return V(z3.Extract(m - 1, 0, self.t), b)
    return V(z3.SignExt(m - n, self.t) if self.signed() else z3.ZeroExt(m - n, self.t), b)

  def go_frombits(self):
    return D(z3.fpBVToFP(self.t, F64))

  def go_clz8(self):
    r = z3.BitVecVal(8, 64)
    for i in range(8):
      r = z3.If(z3.Extract(i, i, self.t) == 1, z3.BitVecVal(7 - i, 64), r)
    return V(r, 'int')


class D:
  """A double."""

  def __init__(self, t, bits=None):
    self.t, self.b = t, bits

  def other(self, o):
    return o.t if isinstance(o, D) else z3.FPVal(float(o), F64)

  def __add__(self, o):
    return D(z3.fpAdd(RNE, self.t, self.other(o)))
  __radd__ = __add__

  def __sub__(self, o):
    return D(z3.fpSub(RNE, self.t, self.other(o)))

  def __rsub__(self, o):
    return D(z3.fpSub(RNE, self.other(o), self.t))

  def __mul__(self, o):
    return D(z3.fpMul(RNE, self.t, self.other(o)))
  __rmul__ = __mul__

  def __truediv__(self, o):
    return D(z3.fpDiv(RNE, self.t, self.other(o)))

  def __rtruediv__(self, o):
    return D(z3.fpDiv(RNE, self.other(o), self.t))

  def __neg__(self):
    return D(z3.fpNeg(self.t))

  def go_wrap(self, k):
    return self

  def go_op(self, *a):
    raise core.Unsupported('integer operation on a double')

  def go_cmp(self, a, op, b):
    x, y = (a.t if isinstance(a, D) else self.other(a)), (b.t if isinstance(b, D) else self.other(b))
    c = {'==': z3.fpEQ, '!=': z3.fpNEQ, '<': z3.fpLT, '<=': z3.fpLEQ, '>': z3.fpGT,
         '>=': z3.fpGEQ}[op](x, y)
    return NOW[0].fork(c)

  def go_conv(self, a, b):
    if b in ('int64', 'int'):
      lo, hi = z3.FPVal(-2.0**63, F64), z3.FPVal(2.0**63, F64)
      ok = z3.And(z3.fpGEQ(self.t, lo), z3.fpLT(self.t, hi))
      return V(z3.If(ok, z3.fpToSBV(RTZ, self.t, z3.BitVecSort(64)),
                     z3.BitVecVal(-2**63, 64)), b)
    if b in SIZES:
      raise core.Unsupported('conversion of a double to ' + b)
    return self

  def go_isnan(self):
    return NOW[0].fork(z3.fpIsNaN(self.t))

  def go_isinf(self, s):
    c = z3.fpIsInf(self.t)
    if s > 0:
      c = z3.And(c, z3.Not(z3.fpIsNegative(self.t)))
    elif s < 0:
      c = z3.And(c, z3.fpIsNegative(self.t))
    return NOW[0].fork(c)

  def bits(self):
    if self.b is None:
      self.b = z3.fpToIEEEBV(self.t)
    return self.b

  def go_bits(self):
    return V(self.bits(), 'uint64')

  def go_nextafter(self, o):
    if not isinstance(o, float) or not math.isinf(o):
      raise core.Unsupported('Nextafter with a finite target')
    b = self.bits()
    zero = z3.fpIsZero(self.t)
    neg = z3.Extract(63, 63, b) == 1
    tiny = z3.BitVecVal(1 if o > 0 else 2**63 + 1, 64)
    away = z3.Not(neg) if o > 0 else neg
    r = z3.If(zero, tiny, z3.If(away, b + 1, b - 1))
    stuck = z3.Or(z3.fpIsNaN(self.t), z3.fpEQ(self.t, z3.FPVal(o, F64)))
    r = z3.If(stuck, b, r)
    return D(z3.fpBVToFP(r, F64), r)

  def go_round(self, how):
    m = {'Round': RNA, 'Floor': z3.RTN(), 'Ceil': z3.RTP(), 'Trunc': RTZ}[how]
    return D(z3.fpRoundToIntegral(m, self.t))

  def go_abs(self):
    return D(z3.fpAbs(self.t))


class Z:
  """An int64/uint64 as an exact z3 integer (for arithmetic by constants)."""

  def __init__(self, t, k):
    self.t, self.k = t, k

  @staticmethod
  def of(o):
    return o.t if isinstance(o, Z) else z3.IntVal(int(o))

  def __add__(self, o):
    return Z(self.t + self.of(o), self.k)
  __radd__ = __add__

  def __sub__(self, o):
    return Z(self.t - self.of(o), self.k)

  def __rsub__(self, o):
    return Z(self.of(o) - self.t, self.k)

  def __mul__(self, o):
    return Z(self.t * self.of(o), self.k)
  __rmul__ = __mul__

  def __neg__(self):
    return Z(-self.t, self.k)

  def go_wrap(self, k):
    n = SIZES[k]
    if k[0] == 'u':
      ok = z3.And(self.t >= 0, self.t < 2**n)
      if NOW[0].fork(ok):
        return Z(self.t, k)
      return Z(self.t % 2**n, k)
    ok = z3.And(self.t >= -2**(n - 1), self.t < 2**(n - 1))
    if NOW[0].fork(ok):
      return Z(self.t, k)
    return Z((self.t + 2**(n - 1)) % 2**n - 2**(n - 1), k)

  def go_op(self, op, a, b, k):
    x, y = self.of(a), self.of(b)
    if op in '/%':
      q = z3.If(x >= 0, z3.If(y > 0, x / y, -(x / -y)), z3.If(y > 0, -((-x) / y), (-x) / -y))
      return Z(q if op == '/' else x - y * q, k)
    if op == '&' and isinstance(b, int) and (b + 1) & b == 0 and b > 0:
      return Z(x % (b + 1), k)
    if op == '>>' and isinstance(b, int):
      return Z(x / 2**b, k)
    if op == '<<' and isinstance(b, int):
      return Z(x * 2**b, k).go_wrap(k)
    raise core.Unsupported('bit operation %s on an exact integer' % op)

  def go_cmp(self, a, op, b):
    x, y = self.of(a), self.of(b)
    return NOW[0].fork({'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y,
                        '>=': x >= y}[op])

  def go_conv(self, a, b):
    if b in SIZES:
      return Z(self.t, b).go_wrap(b)
    raise core.Unsupported('conversion of an exact integer to ' + b)


def double(name):
  b = z3.BitVec(name, 64)
  return b, D(z3.fpBVToFP(b, F64), b)
