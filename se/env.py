"""Harness-facing environment: one harness, two interpretations.

SymEnv runs a harness symbolically; ConcEnv replays it on the unpatched code
with the inputs of a solver model.
"""
import itertools
import math
import types
from fractions import Fraction

import numpy as np

from se import core
from se import loader as loader_mod
from se import poly as P
from se.core import INF, PathEnd, SymBool, SymReal, b_and, b_not, b_or


class Violation(core.Stop):
  def __init__(self, label, detail):
    self.label = label
    self.detail = detail
    super().__init__(label)


class Base:
  symbolic = False

  def mod(self, name):
    return self.ld.load(name)

  def event(self):
    return self.mod('dp_accounting.dp_event')

  def raises(self, f, *excs):
    """Runs f(); returns the exception if one of excs was raised else None."""
    try:
      f()
    except (excs or (Exception,)) as e:
      return e
    return None

  def call(self, f):
    """(value, None) or (None, exception)."""
    try:
      return f(), None
    except Exception as e:  # pylint: disable=broad-except
      return None, e

  def reach(self, tag):
    self.reached.add(tag)

  def int(self, name, lo, hi):
    return self.choice(name, list(range(lo, hi + 1)))

  def bool(self, name):
    return self.choice(name, [False, True])

  def probs(self, name, n, positive=False, total=None):
    """n nonnegative reals summing to total (default 1); last is determined."""
    total = 1 if total is None else total
    xs = [self.real('%s%d' % (name, i), lo=0, lo_open=positive)
          for i in range(n - 1)]
    last = total
    for x in xs:
      last = last - x
    if n == 1 and not self.symbolic:
      last = float(total) if not core.sym(total) else total
    self.assume(last > 0 if positive else last >= 0)
    return xs + [last]


class SymEnv(Base):
  symbolic = True

  def __init__(self, eng, ld, rt):
    self.e = eng
    self.ld = ld
    self.rt = rt          # runtime collecting obligations
    self.reached = set()
    self.np = ld.over['numpy']
    self.math = ld.over['math']

  # inputs
  def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
    pos = lo is not None and (lo > 0 if not core.sym(lo) else False) or (
        lo is not None and not core.sym(lo) and lo == 0 and lo_open)
    v = self.e.newvar(name, pos=bool(pos), kind='input')
    self.e.inputs[name] = name
    if lo is not None and not (pos and lo == 0):
      self.e.assume(v > lo if lo_open else v >= lo)
    if hi is not None:
      self.e.assume(v < hi if hi_open else v <= hi)
    return v

  def pos(self, name, hi=None):
    return self.real(name, lo=0, lo_open=True, hi=hi)

  def nat(self, name, lo, hi=None):
    """Integer input, generalised to a real (an int when replayed)."""
    return self.real(name, lo, hi)

  def prob(self, name, lo_open=False, hi_open=False):
    return self.real(name, 0, 1, lo_open, hi_open)

  def choice(self, name, opts):
    i = self.e.choose(len(opts)) if len(opts) > 1 else 0
    self.e.inputs[name] = ('choice', i)
    return opts[i]

  def func(self, name, kind=None, lo=None, hi=None, pos=False):
    """Uninterpreted function R->R; kind inc/dec/winc/wdec/None."""
    self.e.inputs['@' + name] = ('func', name, kind)
    e = self.e

    def f(x):
      if isinstance(x, np.ndarray):
        x = x.item() if x.ndim == 0 else x
      return e.apply_uf(name, x, kind, lo, hi, pos)
    return f

  # math
  def exp(self, x):
    if core.is_inf(x):
      return math.exp(x)
    return self.e.exp(SymReal.lift(x))

  def log(self, x):
    return self.math.log(x)

  def sqrt(self, x):
    return self.math.sqrt(x)

  def Phi(self, x):
    return self.e.phi(x)

  def num(self, x):
    """Exact constant."""
    return SymReal.lift(x)

  def frac(self, a, b=1):
    return SymReal.lift(Fraction(a, b))

  def assume(self, c):
    if isinstance(c, (SymBool,)) or core.is_b(c):
      self.e.assume(c)
    else:
      raise TypeError('assume')

  def fork(self, c):
    return bool(c)

  # checks
  def check(self, c, label):
    self.rt.obligation(self, c, label, [])

  def _weird(self, x):
    return x is None or not (core.sym(x) or core.is_num(x)) or core.is_nan(x)

  def check_eq(self, a, b, label, tol=None):
    a, b = scal(a), scal(b)
    if self._weird(a) or self._weird(b):
      return self.check(a is b or (core.is_nan(a) and core.is_nan(b)), label + ' (got %r, %r)' % (a, b))
    if core.is_inf(a) or core.is_inf(b):
      return self.check(a == b if not core.sym(a) else b == a, label)
    d = SymReal.lift(a) - SymReal.lift(b)
    self.rt.obligation(self, d == 0, label, [(d, 1), (d, -1)])

  def check_le(self, a, b, label):
    a, b = scal(a), scal(b)
    if self._weird(a) or self._weird(b):
      return self.check(False, label + ' (got %r, %r)' % (a, b))
    if core.is_inf(a) or core.is_inf(b):
      return self.check(bool(a <= b), label)
    d = SymReal.lift(a) - SymReal.lift(b)
    self.rt.obligation(self, d <= 0, label, [(d, 1)])

  def check_lt(self, a, b, label):
    a, b = scal(a), scal(b)
    if self._weird(a) or self._weird(b):
      return self.check(False, label)
    if core.is_inf(a) or core.is_inf(b):
      return self.check(bool(a < b), label)
    d = SymReal.lift(a) - SymReal.lift(b)
    self.rt.obligation(self, d < 0, label, [(d, 1)])

  def fail(self, label):
    self.check(False, label)


def scal(x):
  if isinstance(x, np.ndarray) and x.size == 1:
    x = x.ravel()[0]
  if isinstance(x, np.generic):
    return x.item()
  return x


class ConcEnv(Base):

  def nat(self, name, lo, hi=None):
    return int(math.floor(self.real(name, lo, hi)))

  """Replay on the real code."""
  RTOL = 1e-6
  ATOL = 1e-9

  def __init__(self, inputs, constants=None):
    self.inputs = inputs
    self.ld = loader_mod.Loader(False, constants)
    self.reached = set()
    self.np = np
    self.math = math
    self.failures = []
    self.used = {}

  def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
    x = self.inputs['reals'].get(name)
    if x is None:
      x = _default(lo, hi, lo_open, hi_open)
    x = float(Fraction(x)) if isinstance(x, str) else float(x)
    if lo is not None and (x <= lo if lo_open else x < lo):
      x = math.nextafter(float(lo), math.inf) if lo_open else float(lo)
    if hi is not None and (x >= hi if hi_open else x > hi):
      x = math.nextafter(float(hi), -math.inf) if hi_open else float(hi)
    self.used[name] = x
    return x

  def pos(self, name, hi=None):
    return self.real(name, lo=0, lo_open=True, hi=hi)

  def prob(self, name, lo_open=False, hi_open=False):
    return self.real(name, 0, 1, lo_open, hi_open)

  def choice(self, name, opts):
    i = self.inputs['choices'].get(name, 0)
    i = min(i, len(opts) - 1)
    self.used[name] = repr(opts[i])
    return opts[i]

  def func(self, name, kind=None, lo=None, hi=None, pos=False):
    pts = self.inputs['funcs'].get(name, [])
    pts = sorted({float(Fraction(a)): float(Fraction(b)) for a, b in pts}.items())

    def f(x):
      x = float(x)
      if not pts:
        base = {'inc': 1, 'dec': -1, 'winc': 1, 'wdec': -1}.get(kind, 0)
        v = base * math.tanh(x) / 4 + .5
      else:
        v = interp(pts, x, kind, lo, hi, pos)
      return v
    return f

  def exp(self, x):
    try:
      return math.exp(x)
    except OverflowError:
      return INF

  def log(self, x):
    return math.log(x) if x > 0 else (-INF if x == 0 else math.nan)

  def sqrt(self, x):
    return math.sqrt(max(x, 0.0))

  def Phi(self, x):
    from scipy.stats import norm
    return float(norm.cdf(x))

  def num(self, x):
    return float(x) if not isinstance(x, int) else x

  def frac(self, a, b=1):
    return a / b

  def assume(self, c):
    if not bool(c):
      raise PathEnd()

  def fork(self, c):
    return bool(c)

  def _fail(self, label, detail):
    self.failures.append((label, detail))

  def check(self, c, label):
    if not bool(c):
      self._fail(label, 'false')

  def _tol(self, a, b):
    return self.ATOL + self.RTOL * max(abs(a), abs(b))

  def check_eq(self, a, b, label, tol=None):
    a, b = scal(a), scal(b)
    try:
      a, b = float(a), float(b)
    except (TypeError, ValueError):
      if a is not b:
        self._fail(label, '%r vs %r' % (a, b))
      return
    if math.isnan(a) or math.isnan(b):
      if not (math.isnan(a) and math.isnan(b)):
        self._fail(label, '%r != %r' % (a, b))
      return
    if math.isinf(a) or math.isinf(b):
      if a != b:
        self._fail(label, '%r != %r' % (a, b))
      return
    if abs(a - b) > (self._tol(a, b) if tol is None else tol):
      self._fail(label, '%r != %r' % (a, b))

  def check_le(self, a, b, label):
    a, b = scal(a), scal(b)
    try:
      a, b = float(a), float(b)
    except (TypeError, ValueError):
      return self._fail(label, '%r vs %r' % (a, b))
    if math.isnan(a) or math.isnan(b):
      return self._fail(label, '%r > %r' % (a, b))
    if a <= b:
      return
    if math.isinf(a) or math.isinf(b) or a - b > self._tol(a, b):
      self._fail(label, '%r > %r' % (a, b))

  strict = False   # replaying a counterexample: equality refutes a < b

  def check_lt(self, a, b, label):
    if self.strict and scal(a) == scal(b):
      return self._fail(label, '%r >= %r' % (a, b))
    self.check_le(a, b, label)

  def fail(self, label):
    self._fail(label, 'reached')


def _default(lo, hi, lo_open, hi_open):
  if lo is None and hi is None:
    return 0.0
  if lo is None:
    return float(hi) - 1
  if hi is None:
    return float(lo) + 1
  return (float(lo) + float(hi)) / 2


def interp(pts, x, kind, lo, hi, pos=False):
  xs = [p[0] for p in pts]
  if x <= xs[0]:
    d = xs[0] - x
    v = pts[0][1]
    s = {'inc': -1, 'dec': 1}.get(kind, 0)
    if d == 0 or s == 0:
      return v
    lim = None
    if s < 0:
      lim = lo[0] if lo else (0.0 if pos else None)
    else:
      lim = hi[0] if hi else None
    if lim is not None:
      return v + (lim - v) * (1 - 1 / (1 + d))
    return v + s * d
  if x >= xs[-1]:
    d = x - xs[-1]
    v = pts[-1][1]
    s = {'inc': 1, 'dec': -1}.get(kind, 0)
    if d == 0 or s == 0:
      return v
    if s < 0:
      lim = lo[0] if lo else (0.0 if pos else None)
    else:
      lim = hi[0] if hi else None
    if lim is not None:
      return v + (lim - v) * (1 - 1 / (1 + d))
    return v + s * d
  for (a, fa), (b, fb) in zip(pts, pts[1:]):
    if a <= x <= b:
      if x == a:
        return fa
      if x == b:
        return fb
      return fa + (fb - fa) * (x - a) / (b - a)
