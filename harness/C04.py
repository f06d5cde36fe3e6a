"""C04: events survive the named-tuple round trip."""
import attr
import math
from se import core
from se.runner import Case
from harness import acclib as A
from harness import rdplib as R

FUNCTIONS = ['DpEvent.to_named_tuple', 'DpEvent.from_named_tuple', '_check_attrs_cls_for_known_errors',
             'RdpAccountant.supports / compose', 'PLDAccountant.supports']
BOUNDS = ['every event class defined in dp_event (found by introspection), fields filled by their '
          'declared type: numbers symbolic, sequences as list and tuple, lengths 0 to 3, nested '
          'events to depth 2 (quick) / 3; plus user-defined events with text, bytes, mapping and '
          'sequence-of-event fields']


def classes(ev):
  out = []
  for k in sorted(vars(ev)):
    c = vars(ev)[k]
    if isinstance(c, type) and issubclass(c, ev.DpEvent):
      out.append(c)
  return out


class Gen:
  def __init__(self, env):
    self.env = env
    self.n = 0

  def num(self):
    self.n += 1
    return self.env.real('x%d' % self.n)

  def value(self, t, depth, seq):
    env, ev = self.env, self.env.event()
    s = str(t)
    if s.startswith('typing.Union'):
      return self.value('int' if seq == 1 else 'typing.List[int]', depth, seq)
    if 'List' in s or 'Sequence' in s:
      mk = list if 'List' in s or seq % 2 else tuple
      n = seq if seq < 4 else 2
      if 'DpEvent' in s:
        return mk([self.event(depth - 1, seq + i) for i in range(n)])
      return mk([self.num() for _ in range(n)])
    if 'DpEvent' in s:
      return self.event(depth - 1, seq)
    return self.num()

  def event(self, depth, seq=0):
    ev = self.env.event()
    if depth <= 0:
      return [ev.GaussianDpEvent(self.num()), ev.NoOpDpEvent(), ev.LaplaceDpEvent(self.num()),
              ev.NonPrivateDpEvent()][seq % 4]
    cs = [c for c in classes(ev) if attr.fields(c)]
    return self.make(cs[seq * 7 % len(cs)], depth, seq)

  def make(self, cls, depth, seq):
    return cls(*[self.value(f.type, depth, seq) for f in attr.fields(cls)])


def plain(env, v, label):
  """No event object is left inside the portable form."""
  if attr.has(type(v)):
    env.fail(label)
  elif isinstance(v, dict):
    for x in v.values():
      plain(env, x, label)
  elif isinstance(v, (tuple, list)):
    for x in v:
      plain(env, x, label)


def trip(env, e):
  ev = env.event()
  t = e.to_named_tuple()
  env.check(isinstance(t, tuple), 'the portable form is a tuple')
  env.check(t.class_name == type(e).__name__ and t.module_name == type(e).__module__,
            'class recorded')
  names = [f for f in t._fields if f not in ('module_name', 'class_name')]
  env.check(names == A.fields(e), 'field order kept')
  plain(env, t, 'no event left inside the portable form')
  back = ev.DpEvent.from_named_tuple(t)
  A.same(env, e, back, 'reconstruction equals the original')
  env.check(bool(e == back), 'reconstruction compares equal')
  t2 = back.to_named_tuple()
  env.check(t2._fields == t._fields and t2.class_name == t.class_name, 'second conversion agrees')
  return back


def shape(env, cls, depth, seq):
  ev = env.event()
  e = Gen(env).make(getattr(ev, cls), depth, seq)
  trip(env, e)
  env.reach('done')


def bytes_names(env):
  """Names decoded from bytes (after serialization) reconstruct too."""
  ev = env.event()
  s = env.real('s')
  e = ev.ComposedDpEvent([ev.GaussianDpEvent(s), ev.SelfComposedDpEvent(ev.LaplaceDpEvent(s), 3)])
  t = e.to_named_tuple()
  t = t._replace(module_name=t.module_name.encode(), class_name=t.class_name.encode())
  A.same(env, e, ev.DpEvent.from_named_tuple(t), 'reconstruction from byte names')


def custom(env):
  """User-defined events: text, bytes, mappings and sequences of events."""
  ev = env.event()
  x = env.real('x')
  g = ev.GaussianDpEvent(x)

  @attr.s(frozen=True, auto_attribs=True)
  class Custom(ev.DpEvent):
    text: str
    raw: bytes
    table: dict
    many: tuple
    inner: ev.DpEvent
    flag: bool
  Custom.__module__ = ev.__name__
  setattr(ev, 'Custom', Custom)
  e = Custom('words', b'ab', {'k': g, 'v': x}, (g, ev.NoOpDpEvent(), x), ev.ComposedDpEvent([g]), True)
  trip(env, e)

  @attr.s(frozen=True, auto_attribs=True)
  class Private(ev.DpEvent):
    _hidden: float
  env.check(env.raises(lambda: Private(x).to_named_tuple(), ValueError) is not None,
            'events with private fields refused')

  @attr.s(frozen=True)
  class Unset(ev.DpEvent):
    y = attr.ib(init=False, default=1)
  env.check(env.raises(lambda: Unset().to_named_tuple(), ValueError) is not None,
            'events with unset fields refused')


def accountants(env, kinds, which, relation):
  ev = env.event()
  P = A.Params(env)
  e = A.leaf(env, env.choice('kind', kinds), P)
  wrap = env.choice('wrap', ['none', 'self', 'comp'])
  if wrap == 'self':
    e = ev.SelfComposedDpEvent(e, 2)
  elif wrap == 'comp':
    e = ev.ComposedDpEvent([ev.GaussianDpEvent(P.sigma(1)), e])
  back = trip(env, e)
  a, b = A.make(env, which, relation), A.make(env, which, relation)
  env.check(a.supports(e) == b.supports(back), 'supported exactly when the original is')
  if a.supports(e):
    a.compose(e)
    b.compose(back)
    A.check_same(env, A.state(env, a, which), A.state(env, b, which), 'same loss reported')


def cases(tier):
  q = tier == 'quick'
  from se import loader
  ev = loader.Loader(False).load('dp_accounting.dp_event')
  out = []
  for c in classes(ev):
    for d in ((1, 2) if q else (1, 2, 3)):
      for s in ((0, 1, 2, 3) if q else range(12)):
        if not attr.fields(c) and (d, s) != (1, 0):
          continue
        out.append(Case('%s-%d-%d' % (c.__name__, d, s), shape,
                        kw=dict(cls=c.__name__, depth=d, seq=s), must_reach=('done',)))
  out += [Case('bytes', bytes_names), Case('custom', custom)]
  for w in ('rdp', 'pld'):
    for rel in A.RELATIONS:
      out.append(Case('acc-%s-%s' % (w, rel), accountants,
                      kw=dict(kinds=[k for k in A.KINDS if k != 'mog1'], which=w, relation=rel)))
  return out
