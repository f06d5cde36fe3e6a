"""C41: the loss-distribution accountant charges each event its own mechanism."""
import math
from se import core
from se.runner import Case
from harness import acclib as A
from harness import rdplib as R

FUNCTIONS = ['PLDAccountant._maybe_compose', 'PLDAccountant.get_epsilon / get_delta']
BOUNDS = ['every supported event kind under every relation, counts 1 to 3, alone or after another '
          'event; pairs of events sharing a noise multiplier; symbolic noise multipliers (zero, finite, infinite), sampling probabilities '
          '(zero, inner, one), mixtures, bucket counts 1 to 4, symbolic discretization interval; '
          'loss distributions abstracted to the mechanism they were built from']


def params(env):
  s = env.choice('sigma', ['zero', 'finite', 'inf'])
  q = env.choice('q', ['zero', 'inner', 'one'])
  return ({'zero': 0.0, 'inf': math.inf}.get(s) if s != 'finite' else env.real('s', lo=0.5, hi=8),
          {'zero': 0.0, 'one': 1.0}.get(q) if q != 'inner' else env.real('q', lo=0.125, hi=0.875))


def event(env, kind):
  """(event, cost) with cost 'free', 'non-private' or a constructor call."""
  ev = env.event()
  m = env.mod(A.PLD)
  h = env.se_interval
  if kind == 'rr':
    k = env.choice('buckets', [1, 2, 4])
    p = env.choice('p', ['zero', 'inner', 'one'])
    p = {'zero': 0.0, 'one': 1.0}[p] if p != 'inner' else env.real('q', lo=0.125, hi=0.875)
    e = ev.RandomizedResponseDpEvent(p, k)
    if k == 1 or (not core.sym(p) and p == 1.0):
      return e, 'free'
    if not core.sym(p) and p == 0.0:
      return e, 'non-private'
    return e, lambda rel: m.from_randomized_response(
        p, k, value_discretization_interval=h, neighboring_relation=rel)
  s, q = params(env)
  zero = not core.sym(s) and s == 0.0
  inf = not core.sym(s) and s == math.inf
  if kind == 'mog':
    sens, probs = env.choice('mix', [([0.0, 1.0], [0.25, 0.75]), ([1.0], [1.0]), ([0.0], [1.0]),
                                     ([0.0, 1.0, 2.0], [0.5, 0.25, 0.25])])
    if inf:
      s = env.real('s2', lo=0.5, hi=8)
    e = ev.MixtureOfGaussiansDpEvent(s, sens, probs)
    if sens == [0.0]:
      return e, 'free'
    if zero:
      return e, 'non-private'
    return e, lambda rel: m.from_mixture_gaussian_mechanism(
        s, sens, probs, value_discretization_interval=h)
  make, cls = {'gauss': (m.from_gaussian_mechanism, ev.GaussianDpEvent),
               'laplace': (m.from_laplace_mechanism, ev.LaplaceDpEvent)}[kind.split('-')[-1]]
  e = cls(s)
  if kind.startswith('poisson'):
    e = ev.PoissonSampledDpEvent(q, e)
    if not core.sym(q) and q == 0.0:
      return e, 'free'
  else:
    q = 1.0
  if zero:
    return e, 'non-private'
  if inf:
    return e, 'free'
  return e, lambda rel: make(s, value_discretization_interval=h, sampling_prob=q)


def charge(env, relation, kind, prefix):
  ev = env.event()
  env.se_interval = h = env.real('h', lo=0.01, hi=0.03) if env.symbolic else 0.02
  if env.symbolic:
    A.tokens(env)
  acc = env.mod(A.PLDA).PLDAccountant(R.rel(env, relation), h)
  m = env.mod(A.PLD)
  want = m.identity(value_discretization_interval=h)
  if prefix:
    s1 = env.real('s1', lo=0.5, hi=8)
    acc.compose(ev.LaplaceDpEvent(s1))
    want = want.compose(m.from_laplace_mechanism(s1, value_discretization_interval=h))
  e, cost = event(env, kind)
  n = env.choice('n', [1, 2, 3])
  acc.compose(e, n)
  eps, delta = acc.get_epsilon(0.01), acc.get_delta(0.5)
  if cost == 'non-private':
    env.check_eq(eps, math.inf, 'no noise: infinite epsilon')
    env.check_eq(delta, 1, 'no noise: delta one')
    env.reach('non-private')
    return
  if cost != 'free':
    for _ in range(n):
      want = want.compose(cost(acc.neighboring_relation))
    env.reach('charged')
  if env.symbolic:
    for x in acc._pld.intervals if hasattr(acc, '_pld') else ():
      env.check_eq(x, h, 'the accountant\'s discretization is used')
  tol = 0.05
  env.check_eq(eps, want.get_epsilon_for_delta(0.01), 'epsilon is that of the mechanism', tol)
  env.check_eq(delta, want.get_delta_for_epsilon(0.5), 'delta is that of the mechanism', 0.01)


def pair(env, relation, first, second):
  """Events that share a noise multiplier are still charged each as their own."""
  ev = env.event()
  env.se_interval = h = env.real('h', lo=0.01, hi=0.03) if env.symbolic else 0.02
  if env.symbolic:
    A.tokens(env)
  acc = env.mod(A.PLDA).PLDAccountant(R.rel(env, relation), h)
  m = env.mod(A.PLD)
  s = env.real('s', lo=0.5, hi=8)
  qs = [env.real('q%d' % i, lo=0.125, hi=0.875) for i in range(2)]

  def one(kind, i):
    n = env.choice('n%d' % i, [1, 2])
    if kind == 'mog':
      sens, probs = [0.0, 1.0 + i], [0.75, 0.25]
      return (ev.MixtureOfGaussiansDpEvent(s, sens, probs), n,
              m.from_mixture_gaussian_mechanism(s, sens, probs, value_discretization_interval=h))
    mk, cls = {'gauss': (m.from_gaussian_mechanism, ev.GaussianDpEvent),
               'laplace': (m.from_laplace_mechanism, ev.LaplaceDpEvent)}[kind.split('-')[-1]]
    if kind.startswith('poisson'):
      return (ev.PoissonSampledDpEvent(qs[i], cls(s)), n,
              mk(s, value_discretization_interval=h, sampling_prob=qs[i]))
    return cls(s), n, mk(s, value_discretization_interval=h)

  want = m.identity(value_discretization_interval=h)
  for kind, i in ((first, 0), (second, 1), (first, 0)):
    e, n, cost = one(kind, i)
    acc.compose(e, n)
    for _ in range(n):
      want = want.compose(cost)
  env.check_eq(acc.get_epsilon(0.01), want.get_epsilon_for_delta(0.01),
               'epsilon is that of the composition', 0.05)
  env.check_eq(acc.get_delta(0.5), want.get_delta_for_epsilon(0.5),
               'delta is that of the composition', 0.01)


def cases(tier):
  out = []
  for rel in A.RELATIONS:
    kinds = ['gauss', 'laplace', 'mog']
    if rel != A.ADD:
      kinds.append('rr')
    if rel != A.ONE:
      kinds += ['poisson-gauss', 'poisson-laplace']
    for k in kinds:
      for pre in (False, True):
        out.append(Case('%s-%s%s' % (rel, k, '-after' if pre else ''), charge,
                        kw=dict(relation=rel, kind=k, prefix=pre), must_reach=('charged',)))
    kinds = ['gauss', 'laplace', 'mog']
    if rel != A.ONE:
      kinds += ['poisson-gauss', 'poisson-laplace']
    for a in kinds:
      for b in kinds:
        out.append(Case('pair-%s-%s-%s' % (rel, a, b), pair, kw=dict(
            relation=rel, first=a, second=b)))
  return out
