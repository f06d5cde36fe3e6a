"""C03: privacy loss never decreases as events are composed."""
import math
from se import core
from se.runner import Case
from harness import acclib as A
from harness import rdplib as R

FUNCTIONS = ['RdpAccountant.compose / get_epsilon / get_delta', 'PLDAccountant.compose / get_epsilon / '
             'get_delta', 'rdp.compute_epsilon', 'rdp.compute_delta']
BOUNDS = ['histories of two (all operations) and three (reduced) compose calls, including refused '
          'calls and calls that raise half-way; symbolic parameters; Renyi order 2; loss '
          'distributions abstracted to increasing functions of the composed mechanisms; conversion '
          'to epsilon monotone for two-order curves with symbolic curves at three deltas (conversion '
          'to delta: by its exact formula, C08)']
OPS = ('gauss', 'laplace', 'noop', 'zero', 'zero-l', 'nonprivate', 'unsupported', 'rr', 'poisson-g', 'poisson-0',
       'wor-g', 'tree', 'mog', 'g3', 'self', 'comp', 'comp-bad', 'bad-count', 'bad-self',
       'nested-neg', 'repeat', 'repeat-raise', 'repeat-raise2', 'repeat-bad', 'tree-raise', 'comp-raise', 'comp-np')
FEW = ('gauss', 'nonprivate', 'comp-bad', 'repeat-raise', 'comp-raise', 'nested-neg', 'zero', 'noop')
NONPRIVATE = ('zero', 'zero-l', 'nonprivate', 'poisson-0', 'comp-np')


def call(env, acc, name, i, P):
  ev = env.event()
  g, l = ev.GaussianDpEvent(P.sigma(i)), ev.LaplaceDpEvent(P.sigma(i))
  C, S, U = ev.ComposedDpEvent, ev.SelfComposedDpEvent, ev.UnsupportedDpEvent()
  Rp = ev.RepeatAndSelectDpEvent
  tree = ev.SingleEpochTreeAggregationDpEvent
  special = {
      'g3': lambda: (g, 3),
      'self': lambda: (S(C([g, l]), 2), 1),
      'comp': lambda: (C([g, l]), 2),
      'comp-bad': lambda: (C([g, U]), 1),
      'bad-count': lambda: (g, -1),
      'bad-self': lambda: (C([g, S(l, 0)]), 1),
      'nested-neg': lambda: (S(S(g, -2), 3), 1),
      'repeat': lambda: (Rp(g, 2.0, 1.0), 1),
      'repeat-raise': lambda: (C([g, Rp(g, -1.0, 1.0)]), 1),
      'repeat-raise2': lambda: (Rp(C([g, Rp(g, 2.0, -3.0)]), 2.0, 1.0), 1),
      'repeat-bad': lambda: (Rp(U, 2.0, 1.0), 1),
      'tree-raise': lambda: (C([g, tree(P.sigma(i), [-1])]), 1),
      'comp-raise': lambda: (C([l, S(Rp(g, 0.5, 1.0), 2)]), 1),
      'comp-np': lambda: (C([g, S(ev.NonPrivateDpEvent(), 2)]), 1),
  }
  e, n = special[name]() if name in special else (A.leaf(env, name, P, i), 1)
  return env.raises(lambda: acc.compose(e, n), Exception)


def never_less(env, before, after, label):
  for a, b in zip(before, after):
    env.check_le(a, b, label) if not core.is_inf(a) else env.check_eq(b, a, label)


def history(env, which, relation, first, rest):
  P = A.Params(env)
  acc = A.make(env, which, relation)
  lost = False
  for i, ops in enumerate([[first]] + [list(r) for r in rest]):
    name = ops[0] if len(ops) == 1 else env.choice('op%d' % i, ops)
    before = A.state(env, acc, which)
    exc = call(env, acc, name, i, P)
    after = A.state(env, acc, which)
    never_less(env, before, after, 'loss never decreases: %s' % name)
    if exc is None and name in NONPRIVATE:
      lost = True
    if exc is None and name == 'noop':
      A.check_same(env, before, after, 'a no-op changes nothing')
    if lost:
      env.check_eq(acc.get_epsilon(0.01), math.inf, 'epsilon stays infinite')
      env.check_eq(acc.get_delta(0.5), 1, 'delta stays one')
  env.reach('done')


def monotone(env, orders, arg):
  """A larger curve never converts to a smaller guarantee."""
  m = env.mod(R.RDP)
  n = len(orders)
  lo = [env.real('r%d' % i, lo=0, hi=50) for i in range(n)]
  hi = [r + env.real('d%d' % i, lo=0, hi=50) for i, r in enumerate(lo)]
  if env.bool('inf'):
    hi[0] = math.inf
  orders, lo, hi = env.np.array(orders), env.np.array(lo), env.np.array(hi)
  f = m.compute_epsilon
  never_less(env, [f(orders, lo, arg)[0]], [f(orders, hi, arg)[0]], 'epsilon grows with the curve')
  env.reach('done')


def cases(tier):
  q = tier == 'quick'
  out = []
  for w in ('rdp', 'pld'):
    for rel in A.RELATIONS:
      for f in OPS:
        out.append(Case('%s-%s-%s' % (w, rel, f), history, must_reach=('done',), timeout=300,
                        kw=dict(which=w, relation=rel, first=f, rest=[FEW] if q else [OPS])))
    for f in FEW:
      out.append(Case('3-%s-%s' % (w, f), history, must_reach=('done',), timeout=600,
                      kw=dict(which=w, relation=A.SPECIAL, first=f, rest=[FEW, FEW])))
  for x in (1e-5, 0.01, 0.4):
    for orders in ((2,), (2, 4)) if q else ((2,), (2, 4), (1.5, 3, 8)):
      out.append(Case('convert-%s-%d' % (x, len(orders)), monotone,
                      must_reach=('done',), kw=dict(orders=orders, arg=x)))
  return out
