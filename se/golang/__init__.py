"""Go packages translated to Python (emit.go) and run on symbolic or concrete values.

Integers are exact (two's complement when concrete), floats are reals when symbolic and doubles
when concrete.  Everything is regenerated from the Go sources on every run.
"""
import json
import math
import os
import shutil
import subprocess
import tempfile
import types
from fractions import Fraction

from se import core

HERE = os.path.dirname(os.path.abspath(__file__))
PATH = 'github.com/google/differential-privacy/go/v3'
PKGS = ('checks', 'rand', 'noise', 'dpagg')
INF = math.inf
_SRC = None


def repo():
  return os.environ.get('VERIF_REPO', '/repo')


def translate():
  """{package: Python source} for the packages of the Go library as they are now."""
  global _SRC
  if _SRC is not None:
    return _SRC
  go = shutil.which('go') or '/usr/local/bin/go'
  d = tempfile.mkdtemp(prefix='se-go-')
  env = dict(os.environ, GO111MODULE='off', GOFLAGS='', CGO_ENABLED='0', GOTOOLCHAIN='local')
  env.setdefault('GOCACHE', os.path.join(d, 'cache'))
  try:
    cache = os.path.expanduser('~/.cache/go-build')
    os.makedirs(cache, exist_ok=True)
    env['GOCACHE'] = cache
  except OSError:
    pass
  try:
    subprocess.run([go, 'build', '-o', d + '/emit', os.path.join(HERE, 'emit.go')], check=True,
                   env=env, cwd=d, capture_output=True)
    r = subprocess.run([d + '/emit', os.path.join(repo(), 'go'), PATH] + list(PKGS), check=True,
                       env=env, cwd=d, capture_output=True)
    out = json.loads(r.stdout)
  except subprocess.CalledProcessError as e:
    raise RuntimeError('translation of the Go sources failed: %s' % e.stderr.decode()[-2000:])
  finally:
    shutil.rmtree(d, ignore_errors=True)
  _SRC = {}
  for k, v in out.items():
    _SRC[k] = compile(v['source'], 'go/%s (translated)' % k, 'exec'), v['source'], v['errors']
  return _SRC


class GoErr:
  """An error value."""

  def __init__(self, msg):
    self.msg = msg

  def Error(self):
    return self.msg

  def __repr__(self):
    return 'GoErr(%s)' % self.msg


class GoPanic(Exception):
  pass


class Box:
  """Pointer to a number."""
  __slots__ = ('v',)

  def __init__(self, v):
    self.v = v


class Struct:
  _fields = ()
  _name = ''

  def __init__(self, **kw):
    for n, z in self._fields:
      setattr(self, n, kw.pop(n) if n in kw else z())
    if kw:
      raise TypeError('unknown field %s of %s' % (sorted(kw), self._name))

  def __repr__(self):
    return '%s{%s}' % (self._name, ', '.join('%s: %r' % (n, getattr(self, n))
                                             for n, _ in self._fields))


def struct(name, fields):
  return type(name, (Struct,), {'_fields': tuple(fields), '_name': name})


def cp(x):
  if isinstance(x, Struct) and x is not None:
    r = type(x).__new__(type(x))
    for n, _ in x._fields:
      setattr(r, n, cp_field(getattr(x, n), n, type(x)))
    return r
  return x


def cp_field(v, n, t):
  z = dict(t._fields)[n]
  if isinstance(v, Struct) and isinstance(z(), Struct):
    return cp(v)
  return v


def assign(p, v):
  for n, _ in v._fields:
    setattr(p, n, getattr(v, n))


def eq(a, b):
  if a is None or b is None:
    return a is b
  if isinstance(a, Struct) and isinstance(b, Struct):
    if type(a) is not type(b):
      return False
    for n, _ in a._fields:
      if not eq(getattr(a, n), getattr(b, n)):
        return False
    return True
  if isinstance(a, (Struct, GoErr, Box)) or isinstance(b, (Struct, GoErr, Box)):
    return a is b
  r = a == b
  return r if isinstance(r, bool) else bool(r)


SIZES = {'int64': 64, 'int': 64, 'int32': 32, 'int16': 16, 'int8': 8,
         'uint64': 64, 'uint': 64, 'uint32': 32, 'uint16': 16, 'uint8': 8, 'uintptr': 64}


def isS(x):
  return isinstance(x, core.SymReal)


def has_ops(x):
  return hasattr(x, 'go_op')


def wrap(x, k):
  if type(x) is int:
    n = SIZES[k]
    x &= (1 << n) - 1
    if k[0] != 'u' and x >> (n - 1):
      x -= 1 << n
  return x


class Runtime:
  """Namespace shared by the translated packages of one run."""

  def __init__(self, env, over=None, text=None):
    self.env = env
    self.ints = set()
    self.mods = {}
    self.logged = []
    self.fresh = 0
    self.nears = {}
    self.overflow = False
    self.over = over or {}
    math_ = types.SimpleNamespace(**{k[2:]: getattr(self, k) for k in dir(self)
                                     if k.startswith('m_')})
    math_.MaxInt64 = 2**63 - 1
    math_.MaxFloat64 = 1.7976931348623157e308
    log = types.SimpleNamespace(**{k: (lambda *a, **kw: self.logged.append(a)) for k in (
        'Warningf', 'Infof', 'Warning', 'Info', 'Errorf', 'Error', 'V')})
    log.Fatalf = log.Exitf = self.panic
    fmt = types.SimpleNamespace(Errorf=lambda f, *a: GoErr(f), Sprintf=lambda f, *a: f,
                                Sprint=lambda *a: repr(a))
    ext = {'math': math_, 'fmt': fmt, 'log': log, 'bits': types.SimpleNamespace(
        LeadingZeros8=self.clz8), 'distuv': types.SimpleNamespace(
            Normal=lambda **k: Normal(self, **k), UnitNormal=Normal(self, Mu=0.0, Sigma=1.0)),
           'gob': Gob(), 'bytes': types.SimpleNamespace(Buffer=Buffer, NewReader=lambda d: d),
           'errors': types.SimpleNamespace(New=GoErr),
           'sort': types.SimpleNamespace(Float64s=lambda l: l.sort(), Ints=lambda l: l.sort())}
    dummy = Dummy()
    for k in ('cryptorand', 'mathrand', 'io', 'os', 'strconv', 'strings'):
      ext[k] = dummy
    self.word = lambda b: self.unsupported('binary.Uint64')
    word = types.SimpleNamespace(Uint64=lambda b: self.word(b))
    ext['binary'] = types.SimpleNamespace(LittleEndian=word, BigEndian=word)
    ext['bufio'] = types.SimpleNamespace(NewReaderSize=lambda *a: dummy, NewReader=lambda *a: dummy)
    ext['sync'] = types.SimpleNamespace(Mutex=Mutex, RWMutex=Mutex, Once=Once)
    base = {'_struct': struct, '_cp': cp, '_assign': assign, '_eq': eq, '_wrap': self.wrap,
            '_box': Box, '_deref': self.deref, '_unsupported': self.unsupported,
            '_fadd': lambda a, b: a + b, '_fsub': lambda a, b: a - b, '_fmul': self.fmul,
            '_fdiv': self.fdiv, '_idiv': self.idiv, '_imod': self.imod, '_bit': self.bit,
            '_conv': self.conv, '_cmp': self.cmp, '_len': lambda x: 0 if x is None else len(x),
            '_append': lambda a, *b: (list(a) if a is not None else []) + list(b),
            '_panic': self.panic, '_at': lambda a, i: a[i], '_slice': self.slice,
            '_mget': lambda m, k, z: m[k] if m and k in m else z(),
            '_mget2': lambda m, k, z: (m[k], True) if m and k in m else (z(), False),
            '_delete': lambda m, k: m.pop(k, None), '_enum': lambda x: list(enumerate(x or [])),
            '_items': lambda x: list((x or {}).items()),
            '_upto': lambda n: [(i, None) for i in range(n)],
            '_min': lambda *a: self.pick(a, False), '_max': lambda *a: self.pick(a, True)}
    src = translate()
    for p in PKGS:
      m = types.ModuleType('go.' + p)
      m.__dict__.update(base)
      for k, v in ext.items():
        m.__dict__['_pkg_' + k] = v
      self.mods[p] = m
    for p in PKGS:
      for q in PKGS:
        if q != p:
          self.mods[p].__dict__['_pkg_' + q] = self.mods[q]
    for p in PKGS:
      code, s, _ = src[p]
      if text and p in text:
        code = text[p](s)
      exec(code, self.mods[p].__dict__)
    self.checks, self.rand, self.noise, self.dpagg = (self.mods[p] for p in PKGS)

  # ---- helpers
  def wrap(self, x, k):
    if has_ops(x):
      return x.go_wrap(k)
    if isS(x) and self.overflow and k == 'int64':
      top = 2**63
      if bool(x >= top) or bool(x < -top):
        self.fresh += 1
        n = self.integer(self.env.e.newvar('$turns%d' % self.fresh, pos=False, kind='aux'))
        self.env.e.assume(x - n * 2**64 < top)
        self.env.e.assume(x - n * 2**64 >= -top)
        return x - n * 2**64
      return x
    return wrap(x, k)

  def unsupported(self, what):
    raise core.Unsupported('Go construct: ' + what)

  def panic(self, *a):
    raise GoPanic(str(a[0]) if a else '')

  def deref(self, p):
    if p is None:
      raise GoPanic('nil pointer dereference')
    return p

  def slice(self, a, lo, hi):
    return a if lo is None and hi is None else a[lo:hi]

  def pick(self, a, big):
    r = a[0]
    for x in a[1:]:
      if bool(self.cmp(x, '>', r)) == big:
        r = x
    return r

  def integer(self, x):
    """Marks a symbolic number as integer valued."""
    if isS(x):
      for m in x.num:
        for v, _ in m:
          self.ints.add(v)
    return x

  def is_int(self, x):
    if not isS(x):
      return float(x).is_integer() if isinstance(x, float) else isinstance(x, int)
    if x.den is not None:
      return False
    for m, c in x.num.items():
      if Fraction(c).denominator != 1:
        return False
      for v, k in m:
        if v not in self.ints or k < 0 or Fraction(k).denominator != 1:
          return False
    return True

  def near(self, x, lo, hi, lo_open=False, hi_open=False):
    """A fresh integer n with lo <= n - x <= hi (integrality is not used)."""
    k = (x.key(), lo, hi, lo_open, hi_open)
    if k in self.nears:
      return self.nears[k]
    self.fresh += 1
    n = self.env.e.newvar('$int%d' % self.fresh, pos=False, kind='aux')
    self.integer(n)
    d = n - x
    self.env.e.assume(d > lo if lo_open else d >= lo)
    self.env.e.assume(d < hi if hi_open else d <= hi)
    self.nears[k] = n
    return n

  # ---- operators
  def cmp(self, a, op, b):
    if has_ops(a) or has_ops(b):
      return (a if has_ops(a) else b).go_cmp(a, op, b)
    if op == '==':
      return a == b
    if op == '!=':
      return not (a == b)
    if op == '<':
      return a < b
    if op == '<=':
      return a <= b
    if op == '>':
      return a > b
    return a >= b

  def fmul(self, a, b):
    return a * b

  def fdiv(self, a, b):
    if has_ops(a) or has_ops(b):
      return a / b
    if not isS(b):
      if isS(a):
        if b == 0:
          if bool(a == 0):
            return math.nan
          return math.copysign(INF, b) if bool(a > 0) else -math.copysign(INF, b)
        return a / b
      if b == 0:
        if a == 0 or a != a or b != b:
          return math.nan
        return math.copysign(INF, a) * math.copysign(1.0, b)
      return a / b
    if bool(b == 0):
      if not isS(a) and a == 0 or isS(a) and bool(a == 0) or a != a:
        return math.nan
      return INF if bool(a > 0) else -INF
    return a / b

  def idiv(self, a, b, k):
    if has_ops(a) or has_ops(b):
      return (a if has_ops(a) else b).go_op('/', a, b, k)
    if not isS(a) and not isS(b):
      if b == 0:
        raise GoPanic('integer divide by zero')
      q = abs(a) // abs(b)
      return wrap(q if (a < 0) == (b < 0) else -q, k)
    if isS(b) and bool(b == 0):
      raise GoPanic('integer divide by zero')
    q = a / b
    if self.is_int(q):
      return q
    return self.trunc(q)

  def imod(self, a, b, k):
    if has_ops(a) or has_ops(b):
      return (a if has_ops(a) else b).go_op('%', a, b, k)
    if not isS(a) and not isS(b):
      return wrap(a - b * self.idiv(a, b, k), k)
    return a - b * self.idiv(a, b, k)

  def bit(self, op, a, b, k):
    if has_ops(a) or has_ops(b):
      return (a if has_ops(a) else b).go_op(op, a, b, k)
    if isS(a) or isS(b):
      raise core.Unsupported('bit operation on a symbolic integer')
    r = {'&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '<<': lambda: a << b,
         '>>': lambda: a >> b, '&^': lambda: a & ~b, '~': lambda: ~a}[op]()
    return wrap(r, k)

  def trunc(self, x):
    if bool(x >= 0):
      return self.near(x, -1, 0, lo_open=True)
    return self.near(x, 0, 1, hi_open=True)

  def conv(self, x, a, b):
    if has_ops(x):
      return x.go_conv(a, b)
    if a == b or b in ('string', 'bool'):
      return x
    if b == 'float64':
      return float(x) if isinstance(x, int) else x
    if b in SIZES:
      if isS(x):
        if a in SIZES or self.is_int(x):
          return x
        return self.trunc(x)
      if isinstance(x, float):
        if x != x or abs(x) >= 2.0**63:
          return -2**63
        return wrap(int(x), b)
      return wrap(x, b)
    return x

  def clz8(self, x):
    if has_ops(x):
      return x.go_clz8()
    return 8 - int(x).bit_length()

  # ---- package math
  def m_Inf(self, s):
    return INF if s >= 0 else -INF

  def m_NaN(self):
    return math.nan

  def m_IsNaN(self, x):
    return x.go_isnan() if has_ops(x) else (not isS(x) and x != x)

  def m_IsInf(self, x, s):
    if has_ops(x):
      return x.go_isinf(s)
    return not isS(x) and (x == INF and s >= 0 or x == -INF and s <= 0)

  def m_Abs(self, x):
    if hasattr(x, 'go_abs'):
      return x.go_abs()
    return abs(x) if not isS(x) else (x if bool(x >= 0) else -x)

  def m_Exp(self, x):
    if isS(x):
      return self.env.exp(x)
    try:
      return math.exp(x)
    except OverflowError:
      return INF

  def m_Exp2(self, x):
    return self.m_Pow(2.0, x)

  def m_Expm1(self, x):
    if isS(x):
      return self.env.exp(x) - 1
    try:
      return math.expm1(x)
    except OverflowError:
      return INF

  def m_Log(self, x):
    if isS(x):
      if bool(x < 0):
        return math.nan
      if bool(x == 0):
        return -INF
      return self.env.e.log(x)
    if self.env.symbolic and x in (0.5, 2.0):
      return self.env.e.log(core.SymReal.lift(x))
    if x != x or x < 0:
      return math.nan
    return -INF if x == 0 else math.log(x)

  def m_Log1p(self, x):
    if isS(x):
      return self.m_Log(1 + x)
    return math.nan if x < -1 or x != x else (-INF if x == -1 else math.log1p(x))

  def m_Sqrt(self, x):
    if isS(x):
      if bool(x < 0):
        return math.nan
      return self.env.sqrt(x)
    if x != x or x < 0:
      return math.nan
    if self.env.symbolic and x not in (INF,) and math.sqrt(x) != int(math.sqrt(x)):
      return self.env.sqrt(core.SymReal.lift(x))
    return math.sqrt(x)

  def m_Pow(self, x, y):
    if not isS(x) and not isS(y):
      if self.env.symbolic and not float(y).is_integer() and 0 < x < INF and abs(y) < INF:
        return core.SymReal.lift(x)**core.P.to_frac(y)
      try:
        return math.pow(x, y)
      except OverflowError:
        return INF
      except ValueError:
        return INF if x == 0 else math.nan
    if not isS(y):
      if float(y).is_integer():
        return x**int(y)
      if bool(x < 0):
        return math.nan
      if bool(x == 0):
        return 0.0 if y > 0 else INF
      return x**core.P.to_frac(y)
    return self.env.exp(y * self.m_Log(x))

  def m_Floor(self, x):
    if hasattr(x, 'go_round'):
      return x.go_round('Floor')
    if isS(x):
      return x if self.is_int(x) else self.near(x, -1, 0, lo_open=True)
    return x if x in (INF, -INF) or x != x else float(math.floor(x))

  def m_Ceil(self, x):
    if hasattr(x, 'go_round'):
      return x.go_round('Ceil')
    if isS(x):
      return x if self.is_int(x) else self.near(x, 0, 1, hi_open=True)
    return x if x in (INF, -INF) or x != x else float(math.ceil(x))

  def m_Round(self, x):
    """Half away from zero."""
    if hasattr(x, 'go_round'):
      return x.go_round('Round')
    if isS(x):
      h = Fraction(1, 2)
      return x if self.is_int(x) else self.near(x, -h, h)
    if x in (INF, -INF) or x != x:
      return x
    r = float(math.floor(abs(x)))
    if abs(x) - r >= 0.5:
      r += 1.0
    return math.copysign(r, x)

  def m_Trunc(self, x):
    if hasattr(x, 'go_round'):
      return x.go_round('Trunc')
    if isS(x):
      return x if self.is_int(x) else self.trunc(x)
    return x if x in (INF, -INF) or x != x else float(math.trunc(x))

  def m_Min(self, a, b):
    if not isS(a) and a != a or not isS(b) and b != b:
      return math.nan
    return a if bool(a <= b) else b

  def m_Max(self, a, b):
    if not isS(a) and a != a or not isS(b) and b != b:
      return math.nan
    return a if bool(a >= b) else b

  def m_Mod(self, a, b):
    if isS(a) or isS(b):
      raise core.Unsupported('math.Mod')
    return math.fmod(a, b)

  def m_Nextafter(self, a, b):
    if has_ops(a):
      return a.go_nextafter(b)
    return math.nextafter(a, b)

  def m_Float64bits(self, x):
    if has_ops(x):
      return x.go_bits()
    if isS(x):
      raise core.Unsupported('bits of a symbolic real')
    import struct as st
    return st.unpack('<Q', st.pack('<d', x))[0]

  def m_Float64frombits(self, x):
    if has_ops(x):
      return x.go_frombits()
    import struct as st
    return st.unpack('<d', st.pack('<Q', x))[0]

  def m_Erfcinv(self, p):
    """erfc(z) = p, i.e. z = -quantile(p / 2) / sqrt(2)."""
    q = Normal(self, Mu=0.0, Sigma=1.0).Quantile(p / 2)
    return -q / self.m_Sqrt(2.0)

  def m_Erf(self, x):
    return 2 * self.env.Phi(x * self.m_Sqrt(2.0)) - 1

  def m_Erfc(self, x):
    return 2 * self.env.Phi(-x * self.m_Sqrt(2.0))

  def m_Signbit(self, x):
    return bool(x < 0)

  def m_Copysign(self, x, s):
    a = self.m_Abs(x)
    return a if bool(s >= 0) else -a


class Dummy:
  def __getattr__(self, k):
    return Dummy()

  def __call__(self, *a, **k):
    raise core.Unsupported('system call of the Go library')


class Mutex:
  def Lock(self):
    pass

  Unlock = RLock = RUnlock = Lock


class Once:
  done = False

  def Do(self, f):
    if not self.done:
      self.done = True
      f()


class Normal:
  """gonum's normal distribution."""

  def __init__(self, rt, Mu=0.0, Sigma=1.0):
    self.rt, self.Mu, self.Sigma = rt, Mu, Sigma

  def CDF(self, x):
    z = (x - self.Mu) / self.Sigma
    if not isS(z) and z in (INF, -INF):
      return 1.0 if z > 0 else 0.0
    return self.rt.env.Phi(z)

  def Quantile(self, p):
    env = self.rt.env
    if not isS(p):
      if p != p or p < 0 or p > 1:
        raise GoPanic('percentile out of bounds')
      if p in (0, 1):
        return -INF if p == 0 else INF
      if not env.symbolic:
        from scipy.stats import norm
        return self.Mu + self.Sigma * float(norm.ppf(p))
      p = core.SymReal.lift(p)
    if bool(p <= 0) or bool(p >= 1):
      if bool(p == 0) or bool(p == 1):
        return -INF if bool(p == 0) else INF
      raise GoPanic('percentile out of bounds')
    cache = self.rt.__dict__.setdefault('quantiles', {})
    z = cache.get(p.key())
    if z is None:
      self.rt.fresh += 1
      z = env.e.newvar('$quantile%d' % self.rt.fresh, pos=False, kind='aux')
      env.e.assume(env.Phi(z) == p)
      h = core.SymReal.lift(Fraction(1, 2))
      if bool(p < h):
        env.e.assume(z < 0)
      elif bool(p > h):
        env.e.assume(z > 0)
      else:
        env.e.assume(z == 0)
      cache[p.key()] = z
    return self.Mu + self.Sigma * z


class Buffer:
  def __init__(self):
    self.v = None

  def Bytes(self):
    return self.v


class Gob:
  """encoding/gob: exported fields travel by name, zero values are not sent."""

  def NewEncoder(self, b):
    def enc(v):
      b.v = gob_out(v)
      return None
    return types.SimpleNamespace(Encode=enc)

  def NewDecoder(self, data):
    def dec(p):
      return gob_in(p, data)
    return types.SimpleNamespace(Decode=dec)


def gob_out(v):
  if isinstance(v, Struct):
    if hasattr(v, 'GobEncode'):
      data, err = v.GobEncode()
      return ('gob', type(v), data, err)
    return ('struct', {n: gob_out(getattr(v, n)) for n, _ in v._fields if n[0].isupper()})
  if isinstance(v, dict):
    return ('map', {k: gob_out(x) for k, x in v.items()})
  if isinstance(v, list):
    return ('list', [gob_out(x) for x in v])
  return ('v', v)


def gob_val(d):
  if d[0] == 'v':
    return d[1]
  if d[0] == 'map':
    return {k: gob_val(x) for k, x in d[1].items()}
  if d[0] == 'list':
    return [gob_val(x) for x in d[1]]
  if d[0] == 'gob':
    o = d[1]()
    o.GobDecode(d[2])
    return o
  raise core.Unsupported('gob')


def gob_in(p, data):
  if not isinstance(data, tuple) or data[0] != 'struct':
    return GoErr('gob: bad data')
  for n, _ in p._fields:
    if n in data[1]:
      setattr(p, n, gob_val(data[1][n]))
  return None


def load(env, text=None):
  """Fresh copies of the translated packages for this run."""
  return Runtime(env, text=text)
