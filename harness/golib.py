"""The Go library, translated from its sources (se/golang), for the C40 and C45-C48 checks."""
from se import core
from se import golang

golang.translate()


def load(env, text=None):
  return golang.load(env, text=text)


class Reject(Exception):
  """This script of draws leads to another round."""


class Dice:
  """A script of random choices and its probability."""

  def __init__(self, script, todo):
    self.script, self.todo, self.pos, self.weight = script, todo, 0, 1

  def pick(self, opts):
    """opts: [(probability, value)]; every one is visited by some script."""
    if self.pos == len(self.script):
      for j in range(1, len(opts)):
        self.todo.append(self.script + [j])
      self.script = self.script + [0]
    w, v = opts[self.script[self.pos]]
    self.pos += 1
    self.weight = self.weight * w
    return v


class Uniform:
  """A number drawn uniformly from the unit interval; it may be compared once."""

  def __init__(self, dice):
    self.dice = dice
    self.used = False

  def go_op(self, *a):
    raise core.Unsupported('arithmetic on a uniform draw')

  def go_cmp(self, a, op, b):
    if self.used:
      raise core.Inconclusive('a uniform draw is compared twice')
    self.used = True
    if a is self:
      p, below = b, op in ('<', '<=')
    else:
      p, below = a, op in ('>', '>=')
    if op in ('==', '!='):
      return op == '!='
    r = self.dice.pick([(p, True), (1 - p, False)])   # r: the draw is below p
    return r if below else not r


def law(run, limit=20000):
  """[(probability, outcome)] over all scripts; outcome None when another round starts."""
  todo, out = [[]], []
  while todo:
    d = Dice(todo.pop(), todo)
    try:
      v = run(d)
    except Reject:
      v = None
    out.append((d.weight, v))
    if len(out) > limit:
      raise core.Inconclusive('too many scripts of draws')
  return out


def error(env, r, label):
  """r = (value, err): the value of a call that must succeed."""
  v, e = r
  if e is not None:
    env.fail('%s: error %s' % (label, getattr(e, 'msg', e)))
  return v


class proxy:
  """A stand-in for a package with some functions replaced."""

  def __init__(self, base, **kw):
    self.__dict__.update(kw)
    self.__dict__['_base'] = base

  def __getattr__(self, k):
    return getattr(self._base, k)


def rounding(mod, total, c, f, rt=None):
  """Rounding of total + q, and of its negative, for total = c + f with a whole number c.

  f is known to lie within [-1, 1]; q is any rational number.
  """
  old = mod._pkg_math

  def parts(x):
    x = core.SymReal.lift(x)
    for s in (1, -1):
      q = x - total * s
      if not q.num:
        return s, 0
      if q.den is None and list(q.num) == [()]:
        return s, q.num[()]
    return None

  def floor_(s, q):
    v = f * s + q
    lo = -1 + int(q // 1) - 1
    for n in range(lo, lo + 5):
      if bool(v < n + 1):
        return c * s + n
    raise core.Inconclusive('rounding')

  def op(name):
    base = getattr(old, name)

    def fn(x):
      p = parts(x) if isinstance(x, core.SymReal) else None
      if p is None:
        return base(x)
      s, q = p
      if name == 'Floor':
        return floor_(s, q)
      if name == 'Ceil':
        return -floor_(-s, -q)
      h = core.Fraction(1, 2)
      return floor_(s, q + h) if bool(x >= 0) else -floor_(-s, -q + h)
    return fn
  if rt is not None:             # conversion to an integer
    trunc = rt.trunc

    def to_int(x):
      p = parts(x) if isinstance(x, core.SymReal) else None
      if p is None:
        return trunc(x)
      return floor_(*p) if bool(x >= 0) else -floor_(-p[0], -p[1])
    rt.trunc = to_int
  mod._pkg_math = proxy(old, Floor=op('Floor'), Ceil=op('Ceil'), Round=op('Round'))
