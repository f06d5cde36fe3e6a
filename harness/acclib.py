"""Events, support oracle and abstract loss distributions for the accountant harnesses."""
import inspect
import math

from se import core
from harness import rdplib as R

PLDA = 'dp_accounting.pld.pld_privacy_accountant'
PLD = 'dp_accounting.pld.privacy_loss_distribution'
ADD, ONE, SPECIAL = 'ADD_OR_REMOVE_ONE', 'REPLACE_ONE', 'REPLACE_SPECIAL'
RELATIONS = (ADD, ONE, SPECIAL)


class Tok:
  """A loss distribution as the multiset of mechanisms composed into it.

  Epsilon and delta are arbitrary increasing functions of a sum of positive
  costs, one cost per mechanism (inverse variance for the plain Gaussian).
  """

  def __init__(self, env, terms=(), interval=None):
    self.env = env
    self.intervals = () if interval is None else (interval,)
    self.terms = tuple(terms)

  def compose(self, other, *a, **k):
    t = Tok(self.env, self.terms + other.terms)
    t.intervals = self.intervals + other.intervals
    return t

  def self_compose(self, n, *a, **k):
    if n < 1:
      raise ValueError('num_times must be positive')
    t = Tok(self.env, [(key, c, n * m) for key, c, m in self.terms])
    t.intervals = self.intervals
    return t

  def total(self):
    t = self.env.num(0)
    for _, c, n in self.terms:
      t = t + c * n
    return t

  def get_epsilon_for_delta(self, delta):
    return self.env.e.apply_uf('EPS[%r]' % (delta,), self.total(), 'inc')

  def get_delta_for_epsilon(self, eps):
    return self.env.e.apply_uf('DEL[%r]' % (eps,), self.total(), 'inc', (0, False), (1, False))


def tokens(env):
  """Replaces the distribution constructors by abstract distributions."""
  m = env.mod(PLD)
  if getattr(m, 'se_tokens', None) is env:
    return
  m.se_tokens = env
  costs = {}

  def cost(key):
    k = repr(key)
    if k not in costs:
      costs[k] = env.e.newvar('cost%d' % len(costs), pos=True, kind='uf')
    return costs[k]

  def bind(f, a, k):
    """Arguments by name with defaults filled in; the interval apart."""
    b = inspect.signature(f).bind(*a, **k)
    b.apply_defaults()
    d = dict(b.arguments)
    interval = d.pop('value_discretization_interval', None)
    return d, interval

  def key_of(name, d):
    return (name,) + tuple(
        (x, tuple(v) if isinstance(v, (list, tuple)) else v if core.sym(v) or core.is_num(v) else str(v))
        for x, v in sorted(d.items()))

  def one(q):
    return bool(q == 1)

  def gen(name, d, interval):
    if name in ('gauss', 'laplace'):
      scale = {'gauss': 'standard_deviation', 'laplace': 'parameter'}[name]
      d[scale] = d[scale] / d.pop('sensitivity')
      if not one(d['sampling_prob']):
        name = 'sub-' + name
      else:
        d.pop('sampling_prob')
        if name == 'gauss':
          return Tok(env, [(key_of(name, d), 1 / d.pop(scale)**2, 1)], interval)
    k = key_of(name, d)
    return Tok(env, [(k, cost(k), 1)], interval)

  def spy(name, real):
    def f(*a, **k):
      d, interval = bind(real, a, k)
      return gen(name, d, interval)
    return f

  for attr, name in (('from_gaussian_mechanism', 'gauss'), ('from_laplace_mechanism', 'laplace'),
                     ('from_randomized_response', 'rr'),
                     ('from_mixture_gaussian_mechanism', 'mog')):
    setattr(m, attr, spy(name, getattr(m, attr)))
  m.identity = lambda *a, **k: Tok(env)


def rdp(env, relation, orders=(2,)):
  R.summarize(env)
  return R.accountant(env, orders, relation)


def pld(env, relation, interval=0.02):
  if env.symbolic:
    tokens(env)
  return env.mod(PLDA).PLDAccountant(R.rel(env, relation), interval)


def make(env, which, relation, orders=(2,)):
  return rdp(env, relation, orders) if which == 'rdp' else pld(env, relation)


class Params:
  """Symbolic mechanism parameters, shared or fresh."""

  def __init__(self, env):
    self.env = env
    self.n = 0
    self.pool = {}

  def sigma(self, i=0):
    k = 's%d' % i
    if k not in self.pool:
      self.pool[k] = self.env.real(k, lo=0.5, hi=8)
    return self.pool[k]

  def prob(self, i=0):
    k = 'q%d' % i
    if k not in self.pool:
      self.pool[k] = self.env.real(k, lo=0.125, hi=0.875)
    return self.pool[k]


KINDS = ('noop', 'nonprivate', 'unsupported', 'base', 'rr', 'gauss', 'laplace', 'poisson-g',
         'poisson-l', 'poisson-cg', 'poisson-cl', 'wor-g', 'wor-l', 'wr', 'tree', 'mog', 'zero',
         'mog1')


def leaf(env, kind, P, i=0):
  ev = env.event()
  s, q = P.sigma, P.prob
  return {
      'noop': lambda: ev.NoOpDpEvent(),
      'nonprivate': lambda: ev.NonPrivateDpEvent(),
      'unsupported': lambda: ev.UnsupportedDpEvent(),
      'base': lambda: ev.DpEvent(),
      'rr': lambda: ev.RandomizedResponseDpEvent(q(i), 3),
      'gauss': lambda: ev.GaussianDpEvent(s(i)),
      'laplace': lambda: ev.LaplaceDpEvent(s(i)),
      'zero': lambda: ev.GaussianDpEvent(0.0),
      'zero-l': lambda: ev.LaplaceDpEvent(0.0),
      'poisson-0': lambda: ev.PoissonSampledDpEvent(q(i), ev.GaussianDpEvent(0.0)),
      'poisson-0l': lambda: ev.PoissonSampledDpEvent(q(i), ev.LaplaceDpEvent(0.0)),
      'poisson-g': lambda: ev.PoissonSampledDpEvent(q(i), ev.GaussianDpEvent(s(i))),
      'poisson-l': lambda: ev.PoissonSampledDpEvent(q(i), ev.LaplaceDpEvent(s(i))),
      'poisson-cg': lambda: ev.PoissonSampledDpEvent(q(i), ev.ComposedDpEvent(
          [ev.GaussianDpEvent(s(i)), ev.SelfComposedDpEvent(ev.GaussianDpEvent(s(i)), 3)])),
      'poisson-cl': lambda: ev.PoissonSampledDpEvent(q(i), ev.ComposedDpEvent(
          [ev.GaussianDpEvent(s(i)), ev.LaplaceDpEvent(s(i))])),
      'wor-g': lambda: ev.SampledWithoutReplacementDpEvent(env.num(8), env.num(2), ev.GaussianDpEvent(s(i))),
      'wor-l': lambda: ev.SampledWithoutReplacementDpEvent(8, 2, ev.LaplaceDpEvent(s(i))),
      'wr': lambda: ev.SampledWithReplacementDpEvent(8, 2, ev.GaussianDpEvent(s(i))),
      'tree': lambda: ev.SingleEpochTreeAggregationDpEvent(s(i), [3, 5]),
      'tree-1': lambda: ev.SingleEpochTreeAggregationDpEvent(s(i), 5),
      'mog': lambda: ev.MixtureOfGaussiansDpEvent(s(i), [0.0, 1.0], [0.25, 0.75]),
      'mog1': lambda: ev.MixtureOfGaussiansDpEvent(s(i), [0.0], [1.0]),
      'mog0': lambda: ev.MixtureOfGaussiansDpEvent(0.0, [0.0, 1.0], [0.25, 0.75]),
      'rr0': lambda: ev.RandomizedResponseDpEvent(0.0, 3),
      'rr1': lambda: ev.RandomizedResponseDpEvent(1.0, 3),
      'rr-1': lambda: ev.RandomizedResponseDpEvent(q(i), 1),
  }[kind]()


def gaussians(ev, e):
  """A Gaussian or a nested composition of Gaussians."""
  if isinstance(e, ev.GaussianDpEvent):
    return True
  if isinstance(e, ev.SelfComposedDpEvent):
    return e.count >= 1 and gaussians(ev, e.event)
  if isinstance(e, ev.ComposedDpEvent):
    return all(gaussians(ev, x) for x in e.events)
  return False


def supported(ev, e, which, relation):
  """The documented support table."""
  rec = lambda x: supported(ev, x, which, relation)
  if isinstance(e, (ev.NoOpDpEvent, ev.NonPrivateDpEvent, ev.GaussianDpEvent, ev.LaplaceDpEvent)):
    return True
  if isinstance(e, ev.SelfComposedDpEvent):
    return e.count >= 1 and rec(e.event)
  if isinstance(e, ev.ComposedDpEvent):
    return all(rec(x) for x in e.events)
  if isinstance(e, ev.RandomizedResponseDpEvent):
    return relation in (ONE, SPECIAL)
  if isinstance(e, ev.PoissonSampledDpEvent):
    if relation not in (ADD, SPECIAL):
      return False
    if which == 'pld':
      return isinstance(e.event, (ev.GaussianDpEvent, ev.LaplaceDpEvent))
    return gaussians(ev, e.event)
  if which == 'pld':
    return isinstance(e, ev.MixtureOfGaussiansDpEvent)
  if isinstance(e, ev.SampledWithoutReplacementDpEvent):
    return relation == ONE and gaussians(ev, e.event)
  if isinstance(e, ev.SingleEpochTreeAggregationDpEvent):
    return relation == SPECIAL
  if isinstance(e, ev.RepeatAndSelectDpEvent):
    return rec(e.event)
  return False


def flatten(ev, e, n=1):
  """Run-length list of the leaf events of a composition, no-ops dropped."""
  if isinstance(e, ev.NoOpDpEvent):
    return []
  if isinstance(e, ev.SelfComposedDpEvent):
    one = flatten(ev, e.event, 1)
    return one * (e.count * n)
  if isinstance(e, ev.ComposedDpEvent):
    out = []
    for x in e.events:
      out += flatten(ev, x, 1)
    return out * n
  return [e] * n


def fields(e):
  import attr
  return [f.name for f in attr.fields(type(e))]


def same(env, a, b, label):
  """Asserts that two events are equal, field by field."""
  if type(a) is not type(b):
    env.fail(label + ' (type)')
    return
  for f in fields(a):
    x, y = getattr(a, f), getattr(b, f)
    same_value(env, x, y, label + ' (%s)' % f)


def same_value(env, x, y, label):
  if core.sym(x) or core.sym(y) or core.is_num(x) and core.is_num(y):
    env.check_eq(x, y, label)
  elif isinstance(x, (list, tuple)):
    if type(x) is not type(y) or len(x) != len(y):
      env.fail(label + ' (sequence)')
      return
    for u, v in zip(x, y):
      same_value(env, u, v, label)
  elif isinstance(x, dict):
    if type(x) is not type(y) or list(x) != list(y):
      env.fail(label + ' (mapping)')
      return
    for k in x:
      same_value(env, x[k], y[k], label)
  elif hasattr(type(x), '__attrs_attrs__'):
    same(env, x, y, label)
  else:
    env.check(type(x) is type(y) and x == y, label)


def state(env, acc, which):
  """What an accountant reports, as comparable values."""
  if which == 'rdp':
    return list(R.curve(acc))
  if env.symbolic:
    e = acc.get_epsilon(0.01)
    d = acc.get_delta(0.5)
    return [e, d]
  return [acc.get_epsilon(0.01), acc.get_epsilon(1e-4), acc.get_delta(0.5), acc.get_delta(2.0)]


def check_same(env, a, b, label, tol=None):
  env.check(len(a) == len(b), label + ' (length)')
  for x, y in zip(a, b):
    env.check_eq(x, y, label, tol)
