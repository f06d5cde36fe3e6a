"""Path engine: forking, exp/log algebra, solver queries."""
import math
import time
from fractions import Fraction
from math import gcd

import mpmath
import z3

from se import core
from se import poly as P
from se.core import (INF, Inconclusive, PathEnd, SymBool, SymReal, Unsupported,
                     b_and, b_not, b_or, mk_cmp)

mpmath.mp.dps = 40
ONEP = {P.ONE: Fraction(1)}
_PRIMES = [p for p in range(2, 1000) if all(p % d for d in range(2, int(p**.5) + 1))]


def lcm(a, b):
  return a * b // gcd(a, b)


class VarInfo:
  __slots__ = ('pos', 'defn', 'lo', 'hi', 'kind', 'log', 'val')

  def __init__(self, pos, kind, defn=None, lo=None, hi=None, val=None):
    self.pos = pos
    self.kind = kind  # input, exp, log, def, const, uf, quot
    self.defn = defn  # Poly equal to the var (or (num, den) for quot)
    self.lo = lo      # Fraction enclosure
    self.hi = hi
    self.log = None   # SymReal logarithm when known
    self.val = val    # mpf numeric constant


class Stats:
  def __init__(self):
    self.queries = 0
    self.solver_s = 0.0
    self.sat = self.unsat = self.unknown = 0
    self.obl = self.obl_nf = self.obl_smt = 0
    self.paths = 0
    self.branches = 0
    self.infeasible = 0

  def add(self, o):
    for k, v in o.__dict__.items():
      setattr(self, k, getattr(self, k) + v)


class Engine:
  """One path execution."""

  FEAS_MS = 4000
  OBL_MS = 30000

  def __init__(self, prefix, model, stats, opts=None):
    self.prefix = prefix
    self.pos = 0
    self.decisions = []
    self.alts = []      # (prefix, model) to explore
    self.pc = []        # SymBool
    self.forced = []    # consequences of pc decided at branches
    self.facts = {}
    self.vars = {}
    self.expvar = {}    # monomial -> pos var name
    self.uf = {}        # name -> dict(kind, apps=[(arg,val)])
    self.model = model  # name -> Fraction
    self.stats = stats
    self.inputs = {}    # name -> ('real', varname) | ('const', value)
    self.ufdecl = {}
    self.deadline = None
    self.opts = opts or {}
    if 'feas_ms' in self.opts:
      self.FEAS_MS = self.opts['feas_ms']
    if 'obl_ms' in self.opts:
      self.OBL_MS = self.opts['obl_ms']
    self.maxdec = self.opts.get('max_decisions', 4000)
    self._fv = {}

  # ---------------------------------------------------------------- variables
  def newvar(self, name, **kw):
    if name not in self.vars:
      self.vars[name] = VarInfo(**kw)
    return SymReal({((name, 1),): Fraction(1)})

  def is_pos(self, v):
    return self.vars[v].pos

  def syn_sign(self, p):
    """'+','-' strict; '0+','0-' weak; None unknown."""
    sgn = None
    strict = False
    for m, c in p.items():
      s = 1 if c > 0 else -1
      st = True
      for v, e in m:
        if not self.vars[v].pos:
          if e % 2 == 0:
            st = False
          else:
            return None
      if sgn is None:
        sgn = s
      elif sgn != s:
        return None
      strict = strict or st
    if sgn is None:
      return None
    return ('+' if sgn > 0 else '-') if strict else ('0+' if sgn > 0 else '0-')

  def known_sign(self, p):
    s = self.syn_sign(p)
    if s in ('+', '-'):
      return s
    q = self.strip(p)
    k1 = SymBool('lt', q).key()
    if self.facts.get(k1) is True:
      return '-'
    k2 = SymBool('lt', P.pscale(q, -1)).key()
    if self.facts.get(k2) is True:
      return '+'
    return None

  def content(self, p):
    """Monomial of pos vars dividing p (min exponents), as monomial."""
    mins = None
    for m in p:
      d = {v: e for v, e in m if self.vars[v].pos}
      if mins is None:
        mins = d
      else:
        for v in set(mins) | set(d):
          e = min(mins.get(v, 0), d.get(v, 0))
          if e:
            mins[v] = e
          else:
            mins.pop(v, None)
    return tuple(sorted((v, e) for v, e in (mins or {}).items() if e))

  def strip(self, p):
    """Divide by positive content and normalise positive scale."""
    cont = self.content(p)
    if cont:
      inv = P.mono_pow(cont, -1)
      p = {P.mono_mul(m, inv): c for m, c in p.items()}
    lead = p[max(p)]
    return P.pscale(p, 1 / abs(lead))

  def delog(self, p):
    """c*log(v) + sum d_k*log(K_k) as the equivalent comparison of v and a constant."""
    if len(p) > 4:
      return None
    var, vc, ks = None, None, []
    for m, c in p.items():
      if len(m) != 1 or m[0][1] != 1:
        return None
      x = self.expvar.get(m)
      if x is None:
        return None
      vi = self.vars[m[0][0]]
      if vi.kind == 'log':
        if var is not None:
          return None
        var, vc = x, c
      elif vi.kind == 'num' and self.vars[x].kind == 'const':
        ks.append((self.vars[x].defn, c))
      else:
        return None
    if var is None:
      return None
    k = Fraction(1)
    for b, c in ks:
      r = -Fraction(c) / vc
      if r.denominator != 1 or abs(r) > 400:
        return None
      k *= Fraction(b)**int(r)
    vi = self.vars[var]
    lhs = vi.defn if vi.kind == 'def' else {((var, 1),): Fraction(1)}
    q = P.padd(lhs, P.pconst(k), -1)
    return q if vc > 0 else P.pscale(q, -1)

  def fold(self, p):
    """Expand integer powers of defined variables."""
    todo = False
    for m in p:
      for v, e in m:
        k = self.vars[v].kind
        if k == 'const' and (e >= 1 or e < 0) or k == 'def' and e >= 1:
          todo = True
          break
      if todo:
        break
    if not todo:
      return p
    out = {}
    for m, c in p.items():
      term = {P.ONE: c}
      rest = []
      for v, e in m:
        vi = self.vars[v]
        if vi.kind == 'const':
          n = math.floor(e)
          if n:
            term = P.pscale(term, vi.defn**n)
          if e - n:
            rest.append((v, P.norm(e - n)))
        elif vi.kind == 'def' and e >= 1:
          n = int(math.floor(e))
          for _ in range(n):
            term = P.pmul(term, vi.defn)
          if e - n:
            rest.append((v, P.norm(e - n)))
        else:
          rest.append((v, e))
      out = P.padd(out, P.pmul(term, {tuple(rest): Fraction(1)}))
    return self.fold(out)

  # ---------------------------------------------------------------- exp / log
  def exp(self, x):
    if not isinstance(x, SymReal):
      if core.is_inf(x):
        return INF if x > 0 else 0.0
      if core.is_nan(x):
        return x
      x = SymReal.lift(x)
    parts = []
    if x.den is None:
      parts = [(m, c, None) for m, c in sorted(x.num.items())]
    else:
      parts = [(m, c, x.den) for m, c in sorted(x.num.items())]
    res = SymReal(ONEP)
    for m, c, den in parts:
      res = res * self._exp_term(m, c, den)
    return res

  def _exp_term(self, m, c, den):
    if den is not None:
      q = SymReal({m: Fraction(1)}, den)
      name = 'quot[%r]' % q
      if name not in self.vars:
        self.vars[name] = VarInfo(False, 'quot', ({m: Fraction(1)}, den))
      m = ((name, 1),)
    if m == P.ONE:
      return self._exp_const(c)
    if m not in self.expvar:
      name = 'exp(%s)' % P.pstr({m: Fraction(1)})
      if c.denominator > 16:
        name = 'exp(%s)' % P.pstr({m: c})
        key = ('scaled', m, c)
        if key not in self.expvar:
          self.vars[name] = VarInfo(True, 'exp')
          self.vars[name].log = SymReal({m: c})
          self.expvar[key] = name
        return SymReal({((name, 1),): Fraction(1)})
      self.vars[name] = VarInfo(True, 'exp')
      self.vars[name].log = SymReal({m: Fraction(1)})
      self.expvar[m] = name
    v = self.expvar[m]
    vi = self.vars[v]
    c = P.norm(c)
    if vi.kind == 'def' and c < 0 and isinstance(c, int) and c >= -40:
      d = {P.ONE: Fraction(1)}
      for _ in range(-c):
        d = P.pmul(d, vi.defn)
      return core.mk_frac(ONEP, d)
    return SymReal(self.fold({((v, c),): Fraction(1)}))

  def _exp_const(self, c):
    c = P.norm(c)
    if c == 0:
      return SymReal(ONEP)
    if 'e' not in self.vars:
      v = mpmath.e
      self.vars['e'] = VarInfo(True, 'num', lo=Fraction('2.718281828459045'),
                               hi=Fraction('2.718281828459046'), val=v)
      self.vars['e'].log = SymReal(ONEP)
    if (isinstance(c, int) and abs(c) <= 6) or (
        isinstance(c, Fraction) and c.denominator <= 8 and abs(c) <= 6):
      return SymReal({(('e', c),): Fraction(1)})
    name = 'exp(%s)' % c
    if abs(c) > 20000:
      raise Inconclusive('exponential of a huge constant')
    if name not in self.vars:
      v = mpmath.exp(mpmath.mpf(c.numerator) / c.denominator)
      lo, hi = enclose(v)
      self.vars[name] = VarInfo(True, 'num', lo=lo, hi=hi, val=v)
      self.vars[name].log = SymReal({P.ONE: Fraction(c)})
    return SymReal({((name, 1),): Fraction(1)})

  def log(self, x):
    """x > 0 must hold (branch done by the caller when unknown)."""
    if not isinstance(x, SymReal):
      if core.is_inf(x):
        return INF
      x = SymReal.lift(x)
    num, den = x.num, x.den
    if den is not None:
      ds = self.known_sign(den)
      if ds is None:
        ds = '+' if bool(mk_cmp(P.pscale(den, -1), 'lt')) else '-'
      if ds == '-':
        num, den = P.pscale(num, -1), P.pscale(den, -1)
      return self._logp(num) - self._logp(den)
    return self._logp(num)

  def _logp(self, p):
    if len(p) > 1 or any(not self.vars[v].pos for m in p for v, _ in m):
      cont = self.content(p)
      inv = P.mono_pow(cont, -1)
      q = {P.mono_mul(m, inv): c for m, c in p.items()}
      lead = abs(q[max(q)])
      q = P.pscale(q, 1 / lead)
      res = self._logmono(cont, lead)
      if len(q) == 1 and all(self.vars[v].pos for m in q for v, _ in m):
        (m, c), = q.items()
        return res + self._logmono(m, c)
      name = 'def[%s]' % P.pstr(q)
      if name not in self.vars:
        self.vars[name] = VarInfo(True, 'def', q)
      return res + self._logvar(name)
    if not p:
      raise Unsupported('log of zero')
    (m, c), = p.items()
    return self._logmono(m, c)

  def _logmono(self, m, c):
    res = self._logconst(c)
    for v, e in m:
      res = res + self._logvar(v) * SymReal({P.ONE: Fraction(e)})
    return res

  def _logvar(self, v):
    vi = self.vars[v]
    if vi.log is None:
      name = 'log(%s)' % v
      self.vars[name] = VarInfo(False, 'log')
      self.expvar[((name, 1),)] = v
      vi.log = SymReal({((name, 1),): Fraction(1)})
    return vi.log

  def _logconst(self, c):
    if c <= 0:
      raise Unsupported('log of non-positive constant')
    if c == 1:
      return SymReal({})
    res = SymReal({})
    for part, sg in ((c.numerator, 1), (c.denominator, -1)):
      for pr in _PRIMES:
        k = 0
        while part % pr == 0:
          part //= pr
          k += 1
        if k:
          res = res + self._logk(pr) * (sg * k)
        if part == 1:
          break
      if part != 1:
        res = res + self._logk(part) * sg
    return res

  def _logk(self, n):
    kv = 'K%d' % n
    if kv not in self.vars:
      self.vars[kv] = VarInfo(True, 'const', defn=Fraction(n))
    vi = self.vars[kv]
    if vi.log is None:
      name = 'log(%s)' % kv
      val = mpmath.log(n)
      lo, hi = enclose(val)
      self.vars[name] = VarInfo(True, 'num', lo=lo, hi=hi, val=val)
      self.expvar[((name, 1),)] = kv
      vi.log = SymReal({((name, 1),): Fraction(1)})
    return vi.log

  def nplog(self, x):
    """numpy semantics."""
    x = SymReal.lift(x) if not core.is_inf(x) else x
    if not isinstance(x, SymReal):
      return INF if x > 0 else math.nan
    if bool(x > 0):
      return self.log(x)
    if bool(x == 0):
      return -INF
    return math.nan

  def mathlog(self, x):
    if not isinstance(x, SymReal):
      if core.is_inf(x) or core.is_nan(x):
        return math.log(x)
      x = SymReal.lift(x)
    if bool(x > 0):
      return self.log(x)
    raise ValueError('math domain error')

  def sqrt(self, x):
    if not isinstance(x, SymReal):
      if core.is_inf(x) or core.is_nan(x):
        return x
      x = SymReal.lift(x)
    c = x.const()
    if c is not None and c < 0:
      raise ValueError('math domain error')
    if not x.num:
      return x
    if bool(x < 0):
      raise ValueError('math domain error')
    if x.den is None and len(x.num) == 1 and self.syn_sign(x.num) == '+':
      return self._sqrtp(x.num)
    if self.syn_sign(x.num) != '+' and bool(x == 0):
      return SymReal({})
    if x.den is not None:
      ds = self.known_sign(x.den)
      n, d = x.num, x.den
      if ds != '+':
        if ds == '-' or not bool(mk_cmp(P.pscale(d, -1), 'lt')):
          n, d = P.pscale(n, -1), P.pscale(d, -1)
      return self._sqrtp(n) / self._sqrtp(d)
    return self._sqrtp(x.num)

  def _sqrtp(self, p):
    half = Fraction(1, 2)
    if len(p) == 1:
      (m, c), = p.items()
      if all(self.vars[v].pos for v, _ in m):
        return self._sqrtc(c) * SymReal(self.fold({P.mono_pow(m, half): Fraction(1)}))
      # even powers of real vars
      if all(self.vars[v].pos or (e % 2 == 0) for v, e in m):
        r = self._sqrtc(c)
        for v, e in m:
          if self.vars[v].pos:
            r = r * SymReal({((v, P.norm(e * half)),): Fraction(1)})
          else:
            b = SymReal({((v, 1),): Fraction(1)})
            r = r * abs(b)**int(e // 2)
        return r
    cont = self.content(p)
    inv = P.mono_pow(cont, -1)
    q = {P.mono_mul(m, inv): c for m, c in p.items()}
    lead = abs(q[max(q)])
    q = P.pscale(q, 1 / lead)
    name = 'def[%s]' % P.pstr(q)
    if name not in self.vars:
      self.vars[name] = VarInfo(True, 'def', q)
    return self._sqrtc(lead) * SymReal(self.fold(
        {P.mono_mul(P.mono_pow(cont, half), ((name, half),)): Fraction(1)}))

  def _sqrtc(self, c):
    c = Fraction(c)
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
      return SymReal({P.ONE: Fraction(n, d)})
    # sqrt(n/d) = sqrt(n*d)/d, square-free part by trial division
    nd = c.numerator * c.denominator
    out = Fraction(1, c.denominator)
    sf = 1
    for pr in _PRIMES:
      k = 0
      while nd % pr == 0:
        nd //= pr
        k += 1
      out *= pr**(k // 2)
      if k % 2:
        sf *= pr
      if nd == 1:
        break
    r = math.isqrt(nd)
    if r * r == nd:
      out *= r
    else:
      sf *= nd
    kv = 'K%d' % sf
    if kv not in self.vars:
      self.vars[kv] = VarInfo(True, 'const', defn=Fraction(sf))
    return SymReal({((kv, Fraction(1, 2)),): out})

  # ---------------------------------------------------------------- functions
  def apply_uf(self, name, x, kind=None, lo=None, hi=None, pos=False):
    """Uninterpreted unary function; kind 'inc','dec' (strict), 'winc','wdec'."""
    u = self.uf.setdefault(name, dict(kind=kind, apps=[], keys={}))
    x = SymReal.lift(x)
    k = x.key()
    if k in u['keys']:
      return u['keys'][k]
    vn = '%s(%r)' % (name, x)
    v = self.newvar(vn, pos=pos, kind='uf')
    u['apps'].append((x, v))
    u['keys'][k] = v
    if lo is not None:
      self.assume_raw(v > lo[0] if lo[1] else v >= lo[0])
    if hi is not None:
      self.assume_raw(v < hi[0] if hi[1] else v <= hi[0])
    return v

  def phi(self, x):
    """Standard normal cdf as a strictly increasing symmetric function."""
    if not isinstance(x, SymReal):
      if core.is_inf(x):
        return 1.0 if x > 0 else 0.0
      x = SymReal.lift(x)
    c = x.const()
    if c == 0:
      return SymReal({P.ONE: Fraction(1, 2)})
    u = self.uf.setdefault('Phi', dict(kind='inc', apps=[], keys={}))
    if not u['apps']:
      u['apps'].append((SymReal({}), SymReal({P.ONE: Fraction(1, 2)})))
    k = x.key()
    if k in u['keys']:
      return u['keys'][k]
    neg = x.num[max(x.num)] < 0
    y = -x if neg else x
    name = 'Phi(%r)' % y
    v = self.newvar(name, pos=True, kind='uf')
    self.vars[name].log = None
    self.assume_raw(v < 1)
    comp = 1 - v
    u['apps'].append((y, v))
    u['apps'].append((-y, comp))
    u['keys'][y.key()] = v
    u['keys'][(-y).key()] = comp
    return u['keys'][k]

  def phi_inv(self, p):
    if not isinstance(p, SymReal):
      if p in (0, 1):
        return -INF if p == 0 else INF
      p = SymReal.lift(p)
    if p.const() is not None:
      c = p.const()
      if c == 0:
        return -INF
      if c == 1:
        return INF
      if not 0 < c < 1:
        return math.nan
      if c == Fraction(1, 2):
        return SymReal({})
    else:
      if not bool(p > 0):
        return -INF if bool(p == 0) else math.nan
      if not bool(p < 1):
        return INF if bool(p == 1) else math.nan
    u = self.uf.setdefault('Phi', dict(kind='inc', apps=[], keys={}))
    if not u['apps']:
      u['apps'].append((SymReal({}), SymReal({P.ONE: Fraction(1, 2)})))
    for x, v in u['apps']:
      if v.key() == p.key():
        return x
    y = self.newvar('PhiInv(%r)' % p, pos=False, kind='uf')
    u['apps'].append((y, p))
    u['apps'].append((-y, 1 - p))
    u['keys'][y.key()] = p
    u['keys'][(-y).key()] = 1 - p
    return y

  # ---------------------------------------------------------------- integers
  def floor(self, x):
    if not isinstance(x, SymReal):
      return math.floor(x)
    c = x.const()
    if c is not None:
      return math.floor(c)
    lo, hi = -INF, INF
    for _ in range(200):
      n = min(max(self.guess(x), lo), hi)
      if bool(x < n):
        hi = n - 1
        continue
      if bool(x < n + 1):
        return n
      lo = n + 1
    raise Inconclusive('floor range')

  def ceil(self, x):
    if not isinstance(x, SymReal):
      return math.ceil(x)
    c = x.const()
    if c is not None:
      return math.ceil(c)
    lo, hi = -INF, INF
    for _ in range(200):
      n = min(max(self.guess(x, ceil=True), lo), hi)
      if bool(x > n):
        lo = n + 1
        continue
      if bool(x > n - 1):
        return n
      hi = n - 1
    raise Inconclusive('ceil range')

  def trunc(self, x):
    if bool(x >= 0):
      return self.floor(x)
    return self.ceil(x)

  def rint(self, x):
    if not isinstance(x, SymReal):
      return round(x)
    f = self.floor(x)
    d = x - f
    if bool(d < Fraction(1, 2)):
      return f
    if bool(d > Fraction(1, 2)):
      return f + 1
    return f if f % 2 == 0 else f + 1

  def guess(self, x, ceil=False):
    """A concrete integer near x under some model; recorded as a decision."""
    if self.pos < len(self.prefix):
      d = self.prefix[self.pos]
      self.pos += 1
      if d[0] != 'g':
        raise Inconclusive('non-deterministic re-execution')
      self.decisions.append(d)
      return d[1]
    v = self.feval(x)
    if v is None:
      self.refresh_model()
      v = self.feval(x)
    if v is None:
      v = 0.0
    n = math.ceil(v - 1e-12) if ceil else math.floor(v + 1e-12)
    self.decisions.append(('g', n))
    self.pos += 1
    return n

  def choose(self, n):
    """n-way nondeterministic choice (all alternatives are explored)."""
    if self.pos < len(self.prefix):
      d = self.prefix[self.pos]
      self.pos += 1
      if d[0] != 'c':
        raise Inconclusive('non-deterministic re-execution')
      self.decisions.append(d)
      return d[1]
    for i in range(n - 1, 0, -1):
      self.alts.append((self.decisions + [('c', i)], self.model))
    self.decisions.append(('c', 0))
    self.pos += 1
    return 0

  # ---------------------------------------------------------------- branching
  def set_fact(self, b, val):
    self.facts[b.key()] = val
    self.facts[b_not(b).key()] = not val
    if val and b.op == 'and':
      for a in b.args:
        if isinstance(a, SymBool):
          self.set_fact(a, True)
    if not val and b.op == 'or':
      for a in b.args:
        if isinstance(a, SymBool):
          self.set_fact(a, False)
    if b.op == 'lt' and val or (b.op == 'le' and not val):
      # strict order also decides the weak one and equality
      p = b.args if val else P.pscale(b.args, -1)
      self.facts[SymBool('le', p).key()] = True
      self.facts[SymBool('lt', P.pscale(p, -1)).key()] = False
      q = p
      if q[max(q)] < 0:
        q = P.pscale(q, -1)
      self.facts[SymBool('eq', q).key()] = False
      self.facts[SymBool('ne', q).key()] = True
    if (b.op == 'eq' and val) or (b.op == 'ne' and not val):
      p = b.args
      for q in (p, P.pscale(p, -1)):
        self.facts[SymBool('le', q).key()] = True
        self.facts[SymBool('lt', q).key()] = False

  def branch(self, b):
    self.stats.branches += 1
    k = b.key()
    f = self.facts.get(k)
    if f is not None:
      return f
    if b.op in ('and', 'or') and all(
        isinstance(a, SymBool) and a.op in ('lt', 'le', 'eq', 'ne', 'and', 'or')
        for a in b.args):
      # short-circuit decomposition keeps path conditions conjunctive
      if b.op == 'and':
        for a in b.args:
          if not self.branch(a):
            return False
        return True
      for a in b.args:
        if self.branch(a):
          return True
      return False
    if self.pos < len(self.prefix):
      d = self.prefix[self.pos]
      self.pos += 1
      if d[0] != 'b':
        raise Inconclusive('non-deterministic re-execution')
      self.decisions.append(d)
      side = d[1]
      self.set_fact(b, side)
      if not d[2]:
        self.pc.append(b if side else b_not(b))
      else:
        self.forced.append(b if side else b_not(b))
      return side
    if len(self.decisions) > self.maxdec:
      raise Inconclusive('too many decisions on one path')
    if self.deadline and time.time() > self.deadline:
      raise Inconclusive('case time limit')
    nb = b_not(b)
    val = None if self.opts.get('blind') else self.beval(b)
    if self.opts.get('blind'):
      # both sides explored without asking whether they are feasible
      side, forced = True, False
      self.model = None
      self.alts.append((self.decisions + [('b', False, False)], None))
    elif val is None:
      r, m = self.query(b, self.FEAS_MS)
      if r == 'unsat':
        side, forced = False, True
      else:
        r2, m2 = self.query(nb, self.FEAS_MS)
        if r2 == 'unsat':
          side, forced = True, True
          if m is not None:
            self.model = m
        else:
          side, forced = True, False
          if m is not None:
            self.model = m
          self.alts.append((self.decisions + [('b', False, False)],
                            m2 if m2 is not None else None))
          if r == 'unknown':
            self.model = None
    else:
      side = val
      other = nb if val else b
      r, m = self.query(other, self.FEAS_MS)
      if r == 'unsat':
        forced = True
      else:
        forced = False
        self.alts.append((self.decisions + [('b', not side, False)], m))
    self.decisions.append(('b', side, forced))
    self.pos += 1
    self.set_fact(b, side)
    if not forced:
      self.pc.append(b if side else nb)
    else:
      self.forced.append(b if side else nb)
    return side

  def assume(self, b):
    if core.is_b(b):
      if not b:
        raise PathEnd()
      return
    f = self.facts.get(b.key())
    if f is True:
      return
    if f is False:
      raise PathEnd()
    self.pc.append(b)
    self.set_fact(b, True)
    if self.pos < len(self.prefix):
      return
    if self.opts.get('blind'):
      return
    v = self.beval(b)
    if v is True:
      return
    self.refresh_model()

  def assume_raw(self, b):
    """Definitional fact: added without feasibility query."""
    if core.is_b(b):
      return
    if self.facts.get(b.key()) is True:
      return
    self.pc.append(b)
    self.set_fact(b, True)
    if self.model is not None and self.beval(b) is False:
      self.model = None

  def refresh_model(self):
    r, m = self.query(None, self.OBL_MS)
    if r == 'unsat':
      raise PathEnd()
    self.model = m

  # ---------------------------------------------------------------- evaluation
  def fval(self, v):
    """float value of variable v under the current model or None."""
    m = self.model
    if m is None:
      return None
    vi = self.vars[v]
    if vi.kind == 'num':
      return float(vi.val)
    if vi.kind == 'const':
      return float(vi.defn)
    if v in m:
      return float(m[v])
    if vi.kind == 'def':
      return self._pval(vi.defn)
    if vi.kind == 'quot':
      a, b = self._pval(vi.defn[0]), self._pval(vi.defn[1])
      return None if a is None or b in (None, 0.0) else a / b
    if vi.kind == 'exp' and vi.log is not None:
      x = self.feval(vi.log)
      try:
        return None if x is None else math.exp(x)
      except OverflowError:
        return None
    if vi.kind == 'log':
      w = self.expvar[((v, 1),)]
      x = self.fval(w)
      return math.log(x) if x is not None and x > 0 else None
    return None

  def _pval(self, p, mag=False):
    s = 0.0
    a = 0.0
    try:
      for m, c in p.items():
        t = float(c)
        for v, e in m:
          x = self.fval(v)
          if x is None:
            return None
          t *= x**float(e) if not isinstance(e, int) else x**e
        s += t
        a += abs(t)
    except (OverflowError, ZeroDivisionError, ValueError):
      return None
    if isinstance(s, complex) or s != s:
      return None
    return (s, a) if mag else s

  def feval(self, x):
    if not isinstance(x, SymReal):
      return float(x)
    n = self._pval(x.num)
    if n is None:
      return None
    if x.den is None:
      return n
    d = self._pval(x.den)
    if not d:
      return None
    return n / d

  def beval(self, b):
    if core.is_b(b):
      return bool(b)
    if self.model is None:
      return None
    if b.op in ('lt', 'le', 'eq', 'ne'):
      r = self._pval(b.args, mag=True)
      if r is None:
        return None
      s, a = r
      if abs(s) <= 1e-9 * a:
        if s == 0 and self._exactzero(b.args):
          return b.op in ('le', 'eq')
        return None
      return {'lt': s < 0, 'le': s < 0, 'eq': False, 'ne': True}[b.op]
    vs = [self.beval(a) for a in b.args]
    if b.op == 'and':
      if False in vs:
        return False
      return None if None in vs else True
    if b.op == 'or':
      if True in vs:
        return True
      return None if None in vs else False
    return None if vs[0] is None else not vs[0]

  def _exactzero(self, p):
    m = self.model
    s = Fraction(0)
    for mo, c in p.items():
      t = c
      for v, e in mo:
        if v not in m or not isinstance(e, int):
          return False
        t *= m[v]**e
      s += t
    return s == 0

  # ---------------------------------------------------------------- solver
  def _bvars(self, b, acc=None):
    acc = set() if acc is None else acc
    if b.op in ('lt', 'le', 'eq', 'ne'):
      k = b.key()
      s = self._fv.get(k)
      if s is None:
        s = P.pvars(b.args)
        self._fv[k] = s
      acc |= s
    else:
      for a in b.args:
        if isinstance(a, SymBool):
          self._bvars(a, acc)
    return acc

  def _expand_vars(self, vs):
    """Close a set of vars under definitional dependencies."""
    todo = list(vs)
    out = set(vs)
    while todo:
      v = todo.pop()
      vi = self.vars[v]
      new = set()
      if vi.kind == 'def':
        new = P.pvars(vi.defn)
      elif vi.kind == 'quot':
        new = P.pvars(vi.defn[0]) | P.pvars(vi.defn[1])
      elif vi.kind == 'uf':
        for u in self.uf.values():
          for x, val in u['apps']:
            vv = P.pvars(val.num) | P.pvars(x.num)
            if v in P.pvars(val.num) or (v.startswith('PhiInv') and
                                         v in P.pvars(x.num)):
              new |= vv
              if x.den is not None:
                new |= P.pvars(x.den)
      for n in new:
        if n not in out:
          out.add(n)
          todo.append(n)
    return out

  def _linkvars(self, vs):
    """Vars linked through exp/log pairs (both directions) to vs."""
    out = set(vs)
    for m, v in list(self.expvar.items()):
      mv = {x for x, _ in (m[1] if m and m[0] == 'scaled' else m)}
      if v in out:
        out |= mv
      elif mv and mv <= out:
        out.add(v)
    return out

  def slice(self, goal, forced=False):
    pc = self.pc + self.forced if forced else self.pc
    if goal is None:
      return list(pc)
    vs = self._expand_vars(self._linkvars(self._expand_vars(self._bvars(goal))))
    rest = [(b, self._expand_vars(self._linkvars(self._expand_vars(self._bvars(b)))))
            for b in pc]
    out = []
    changed = True
    numk = {v for v, i in self.vars.items() if i.kind in ('num', 'const')}
    while changed and rest:
      changed = False
      nr = []
      for b, s in rest:
        if (s - numk) & vs:
          out.append(b)
          if not s <= vs:
            vs |= s
          changed = True
        else:
          nr.append((b, s))
      rest = nr
    return out

  def atoms(self, b, acc):
    if b.op in ('lt', 'le', 'eq', 'ne'):
      acc[P.pkey(b.args)] = b.args
    else:
      for a in b.args:
        if isinstance(a, SymBool):
          self.atoms(a, acc)

  def lemmas(self, cons, tangents):
    """exp/log and uninterpreted-function facts relevant to constraints."""
    out = []
    acc = {}
    vs = set()
    for b in cons:
      self.atoms(b, acc)
      vs |= self._bvars(b)
    vs = self._expand_vars(vs)
    # UF lemmas
    for name, u in self.uf.items():
      apps = []
      for x, v in u['apps']:
        vv = P.pvars(v.num) | P.pvars(x.num)
        if vv <= vs:
          apps.append((x, v))
      kind = u['kind']
      for i in range(len(apps)):
        for j in range(i + 1, len(apps)):
          (x, fx), (y, fy) = apps[i], apps[j]
          self._mono(kind, x, fx, y, fy, out)
      if u.get('extra'):
        out += u['extra'](apps)
    for b in out:
      self.atoms(b, acc)
    # exp lemmas: for linear-able atoms
    if self.expvar:
      done = set()
      work = list(acc.items())
      while work:
        k, p = work.pop()
        if k in done:
          continue
        done.add(k)
        self._explemma(p, out)
      rel = set()
      for b in cons + out:
        rel |= self._bvars(b)
      rel = self._expand_vars(rel)
      for m, v in list(self.expvar.items()):
        if m and m[0] == 'scaled':
          mono, c = m[1], m[2]
        else:
          mono, c = m, Fraction(1)
        if v not in rel or self.vars[v].kind == 'const':
          continue
        lin = SymReal({mono: c})
        E = SymReal({((v, 1),): Fraction(1)})
        if not all(x in rel for x, _ in mono):
          sg = self.known_sign(lin.num)
          if sg:
            out.append(E > 1 if sg == '+' else E < 1)
          continue
        for a, bb in ((lin < 0, E < 1), (lin > 0, E > 1)):
          iff(a, bb, out)
        if tangents:
          _ap(out, E >= 1 + lin)
          _ap(out, E * (1 - lin) <= 1)
    return out

  def _mono(self, kind, x, fx, y, fy, out):
    lt, gt, eq = x < y, x > y, x == y
    if kind == 'inc':
      iff(lt, fx < fy, out)
      iff(gt, fx > fy, out)
    elif kind == 'dec':
      iff(lt, fx > fy, out)
      iff(gt, fx < fy, out)
    elif kind == 'winc':
      imp(x <= y, fx <= fy, out)
      imp(x >= y, fx >= fy, out)
    elif kind == 'wdec':
      imp(x <= y, fx >= fy, out)
      imp(x >= y, fx <= fy, out)
    else:
      imp(eq, fx == fy, out)

  def _divisor(self, p):
    """Positive monomial k such that p/k is a combination of known logarithms."""
    best = None
    for m in p:
      for v, e in m:
        if e == 1 and ((v, 1),) in self.expvar:
          k = tuple((w, f) for w, f in m if w != v)
          if not all(self.vars[w].pos for w, _ in k):
            continue
          inv = P.mono_pow(k, -1)
          n = sum(1 for q in p if P.mono_mul(q, inv) in self.expvar or
                  P.mono_mul(q, inv) == P.ONE)
          if best is None or n > best[0]:
            best = (n, inv)
    return best[1] if best else None

  def _explemma(self, p, out):
    hit = False
    p0 = p
    if len(p) == 2:
      (m1, c1), (m2, c2) = p.items()
      if c1 * c2 < 0 and all(
          self.vars[v].pos and self.vars[v].log is not None and
          self.vars[v].kind in ('exp', 'num', 'const')
          for m in (m1, m2) for v, _ in m) and any(
              self.vars[v].kind == 'exp' for m in (m1, m2) for v, _ in m):
        if c1 < 0:
          m1, c1, m2, c2 = m2, c2, m1, c1
        lin = self._logmono(m1, c1) - self._logmono(m2, -c2)
        iff(lin < 0, SymReal(p0) < 0, out)
        iff(lin > 0, SymReal(p0) > 0, out)
        return
    if not any(m in self.expvar for m in p) or P.ONE in p and len(p) > 1:
      inv = self._divisor(p)
      if inv:
        p = {P.mono_mul(m, inv): c for m, c in p.items()}
    deg = 0
    L = 1
    for m, c in p.items():
      if m in self.expvar:
        hit = True
      for v, e in m:
        if e < 0 and not self.vars[v].pos:
          return
      if m:
        L = lcm(L, c.denominator)
    if not hit:
      return
    for m, c in p.items():
      if m:
        deg += abs(c * L)
    if deg > 24 or L > 10000 or abs(p.get(P.ONE, 0) * L) > 2000:
      # coefficients too large for an exponential of the whole: signs only
      for m in p:
        if m in self.expvar and self.vars[self.expvar[m]].kind != 'const':
          ev = SymReal({((self.expvar[m], 1),): Fraction(1)})
          lm = SymReal({m: Fraction(1)})
          iff(lm < 0, ev < 1, out)
          iff(lm > 0, ev > 1, out)
      unit = {m: Fraction(1 if c > 0 else -1) for m, c in p.items() if m}
      if 1 < len(unit) <= 4:
        self._explemma(unit, out)
      return
    scaled = P.pscale(p, Fraction(L))
    # only create exp vars for monomials that are single inputs or known
    for m in scaled:
      if m and m not in self.expvar and not (len(m) == 1):
        # product monomial without exp variable: still create (atom)
        pass
    e = self.exp(SymReal(scaled))
    lin = SymReal(p0)
    iff(lin < 0, e < 1, out)
    iff(lin > 0, e > 1, out)

  def solve(self, cons, ms, want_model=True, tangents=False):
    L = LemmaList()
    L += self.lemmas(list(cons), tangents)
    allc = list(cons) + list(L)
    # collect vars and exponent denominators
    vs = set()
    for b in allc:
      self._bvars(b, vs)
    vs = self._expand_vars(vs)
    polys = {}
    for b in allc:
      self.atoms(b, polys)
    den = {}
    defs = []
    for v in sorted(vs):
      vi = self.vars[v]
      if vi.kind == 'def':
        defs.append(P.padd({((v, 1),): Fraction(1)}, vi.defn, -1))
      elif vi.kind == 'quot':
        n, d = vi.defn
        defs.append(P.padd(P.pmul({((v, 1),): Fraction(1)}, d), n, -1))
      elif vi.kind == 'const':
        defs.append(P.padd({((v, 1),): Fraction(1)}, P.pconst(vi.defn), -1))
    defs = [self._clear(d) for d in defs]
    for p in list(polys.values()) + defs:
      for m in p:
        for v, e in m:
          if isinstance(e, Fraction):
            den[v] = lcm(den.get(v, 1), e.denominator)
    zv = {}
    nonlin = False
    for v in vs:
      zv[v] = z3.Real(v if den.get(v, 1) == 1 else v + '#%d' % den[v])

    def cv(p):
      terms = []
      for m, c in p.items():
        fs = []
        for v, e in m:
          k = e * den.get(v, 1)
          k = int(k)
          if k < 0:
            raise Unsupported('negative exponent reached the solver')
          if k == 1:
            fs.append(zv[v])
          else:
            fs += [zv[v]] * k
        if c != 1 or not fs:
          fs.insert(0, z3.RealVal(str(c)))
        t = fs[0]
        if len(fs) > 1:
          t = z3.Product(*fs)
        terms.append(t)
      return z3.Sum(*terms) if len(terms) > 1 else terms[0]

    def cb(b):
      if core.is_b(b):
        return z3.BoolVal(bool(b))
      if b.op in ('lt', 'le', 'eq', 'ne'):
        e = cv(self._clear(b.args))
        return {'lt': e < 0, 'le': e <= 0, 'eq': e == 0, 'ne': e != 0}[b.op]
      xs = [cb(a) for a in b.args]
      return {'and': z3.And, 'or': z3.Or}.get(b.op, lambda *a: z3.Not(a[0]))(*xs)

    fs = []
    for v in sorted(vs):
      vi = self.vars[v]
      d = den.get(v, 1)
      if vi.pos:
        fs.append(zv[v] > 0)
      if vi.lo is not None:
        fs.append(zv[v]**d > z3.RealVal(str(vi.lo)) if d > 1 else
                  zv[v] > z3.RealVal(str(vi.lo)))
        fs.append(zv[v]**d < z3.RealVal(str(vi.hi)) if d > 1 else
                  zv[v] < z3.RealVal(str(vi.hi)))
    for d in defs:
      fs.append(cv(d) == 0)
    for b in allc:
      fs.append(cb(b))
    t0 = time.time()
    res, mod = run_z3(fs, ms)
    dt = time.time() - t0
    self.stats.queries += 1
    self.stats.solver_s += dt
    self.stats.__dict__[res] += 1
    out = None
    if res == 'sat':
      out = {}
      for v in vs:
        x = mod.eval(zv[v], model_completion=True)
        try:
          if z3.is_algebraic_value(x):
            x = x.approx(30)
          x = Fraction(x.numerator_as_long(), x.denominator_as_long())
        except Exception:  # pylint: disable=broad-except
          continue
        out[v] = x**den.get(v, 1)
    return res, out

  def _clear(self, p):
    """Multiply by positive monomials so that no pos var has negative exponent."""
    need = {}
    for m in p:
      for v, e in m:
        if e < 0:
          if not self.vars[v].pos:
            raise Unsupported('negative power of unsigned variable')
          need[v] = min(need.get(v, 0), e)
    if not need:
      return p
    k = tuple(sorted((v, P.norm(-e)) for v, e in need.items()))
    return {P.mono_mul(m, k): c for m, c in p.items()}

  def query(self, goal, ms, tangents=False):
    """Satisfiability of pc and goal; returns (res, full model or None)."""
    if goal is not None and core.is_b(goal):
      if not goal:
        return 'unsat', None
      goal = None
    cons = self.slice(goal, tangents)
    if goal is not None:
      cons = cons + [goal]
    if not cons:
      m = dict(self.model or {})
      return 'sat', m
    res, m = self.solve(cons, ms, tangents=tangents)
    if res == 'sat' and m is not None:
      full = {}
      if self.model is not None:
        # keep values of variables outside the slice
        full.update({k: v for k, v in self.model.items()})
      elif goal is not None:
        r2, m2 = self.solve(list(self.pc), ms) if self.pc else ('sat', {})
        if m2:
          full.update(m2)
      full.update(m)
      m = full
    return res, m


  def linear_unsat(self, goal, ms=3000):
    """Refutes pc and goal with every monomial abstracted to a real number."""
    cons = self.slice(goal, True) + [goal]
    mv = {}

    def mon(m):
      z = mv.get(m)
      if z is None:
        z = mv[m] = z3.Real('m%d' % len(mv))
      return z

    def cb(b):
      if core.is_b(b):
        return z3.BoolVal(bool(b))
      if b.op in ('lt', 'le', 'eq', 'ne'):
        ts = [z3.RealVal(str(c)) * mon(m) if m else z3.RealVal(str(c))
              for m, c in b.args.items()]
        e = z3.Sum(*ts) if ts else z3.RealVal(0)
        return {'lt': e < 0, 'le': e <= 0, 'eq': e == 0, 'ne': e != 0}[b.op]
      xs = [cb(a) for a in b.args]
      return {'and': z3.And, 'or': z3.Or}.get(b.op, lambda *a: z3.Not(a[0]))(*xs)

    s = z3.SolverFor('QF_LRA')
    s.set('timeout', int(ms))
    for b in cons:
      s.add(cb(b))
    if len(cons) <= 60:
      # the same atoms scaled by positive monomials seen in other atoms
      cnt = {}
      for b in cons:
        if b.op in ('lt', 'le', 'eq'):
          for m in b.args:
            k = tuple((v, x) for v, x in m if self.is_pos(v) and
                      self.vars[v].kind not in ('uf', 'exp'))
            if k and len(k) <= 2:
              cnt[k] = cnt.get(k, 0) + 1
      for k in sorted(cnt, key=lambda k: (-cnt[k], k))[:4]:
        for b in cons:
          if b.op in ('lt', 'le', 'eq') and len(b.args) <= 20:
            s.add(cb(SymBool(b.op, {P.mono_mul(m, k): c for m, c in b.args.items()})))
    for m, z in mv.items():
      if all(self.is_pos(v) for v, _ in m) or all(
          isinstance(x, int) and x % 2 == 0 or self.is_pos(v) for v, x in m):
        s.add(z > 0 if all(self.is_pos(v) for v, _ in m) else z >= 0)
    t0 = time.time()
    r = s.check()
    self.stats.solver_s += time.time() - t0
    self.stats.queries += 1
    if r == z3.unsat:
      self.stats.unsat += 1
      return True
    return False


class LemmaList(list):
  pass


def iff(a, b, out):
  imp(a, b, out)
  imp(b, a, out)


def imp(a, b, out):
  x = b_or(b_not(a), b)
  if not core.is_b(x):
    out.append(x)
  elif not x:
    raise PathEnd()


def enclose(v):
  s = mpmath.nstr(v, 25)
  f = Fraction(s)
  eps = abs(f) / 10**20 + Fraction(1, 10**30)
  return f - eps, f + eps


def run_z3(fs, ms):
  s = z3.SolverFor('QF_NRA')
  s.set('timeout', int(ms))
  s.add(*fs)
  r = s.check()
  if r == z3.unknown:
    s = z3.Solver()
    s.set('timeout', int(ms))
    s.add(*fs)
    r = s.check()
  if r == z3.sat:
    return 'sat', s.model()
  if r == z3.unsat:
    return 'unsat', None
  return 'unknown', None


def _ap(out, b):
  if not core.is_b(b):
    out.append(b)
