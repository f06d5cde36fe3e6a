"""C01: the accountant's ledger is faithful and refusals are atomic."""
import math
from se import core
from se.runner import Case
from harness import acclib as A

FUNCTIONS = ['PrivacyAccountant.compose / supports / ledger', 'RdpAccountant._maybe_compose',
             'PLDAccountant._maybe_compose', 'DpEventBuilder']
BOUNDS = ['all call sequences of length 2 (every relation) and 3 (reduced operations, quick) / 3 '
          '(all operations, thorough) over the listed operations; symbolic noise multipliers and '
          'sampling probabilities; counts 1 to 3; Renyi order 2 (orders 2 and 1.5 in C09-C13); '
          'loss distributions abstracted to the multiset of composed mechanisms']
OPS = ('gauss', 'laplace', 'noop', 'nonprivate', 'unsupported', 'rr', 'poisson-g', 'poisson-l',
       'wor-g', 'tree', 'mog', 'g2', 'self-g', 'self-bad', 'comp', 'comp-bad', 'comp-deep-bad',
       'bad-count', 'neg-count', 'bad-self', 'neg-self', 'deep-zero', 'not-event', 'repeat',
       'repeat-bad', 'poisson-bad', 'wor-l', 'wor-bad', 'wr', 'poisson-cl', 'base')
FEW = ('gauss', 'noop', 'nonprivate', 'comp-bad', 'comp-deep-bad', 'bad-count', 'bad-self', 'self-g', 'mog', 'tree', 'repeat-bad', 'deep-zero')
ATTEMPT = ('gauss', 'comp', 'comp-bad', 'comp-deep-bad', 'self-bad', 'repeat-bad', 'bad-count', 'deep-zero')


def build(env, name, i, P):
  """The argument list of one call, or None for the event when not an event."""
  ev = env.event()
  g = ev.GaussianDpEvent(P.sigma(i))
  l = ev.LaplaceDpEvent(P.sigma(i))
  C, S, U = ev.ComposedDpEvent, ev.SelfComposedDpEvent, ev.UnsupportedDpEvent()
  if name in A.KINDS:
    return (A.leaf(env, name, P, i), 1)
  return {
      'g2': lambda: (g, 2),
      'self-g': lambda: (S(g, 2), 2),
      'self-bad': lambda: (S(C([g, U]), 2), 1),
      'comp': lambda: (C([g, S(l, 2), C([g])]), 2),
      'comp-bad': lambda: (C([g, U]), 1),
      'comp-deep-bad': lambda: (C([g, C([S(l, 2), S(C([U, g]), 2)])]), 2),
      'bad-count': lambda: (g, 0),
      'neg-count': lambda: (C([g, l]), -2),
      'bad-self': lambda: (S(g, 0), 1),
      'neg-self': lambda: (S(S(g, -1), -2), 1),
      'deep-zero': lambda: (C([g, S(C([l]), 0)]), 1),
      'not-event': lambda: (3.0, 1),
      'repeat': lambda: (ev.RepeatAndSelectDpEvent(g, 1.0, 1.0), 1),
      'repeat-bad': lambda: (C([l, ev.RepeatAndSelectDpEvent(C([g, U]), 1.0, 1.0)]), 1),
      'wor-bad': lambda: (C([l, ev.SampledWithoutReplacementDpEvent(8, 2, C([g, U]))]), 1),
      'poisson-bad': lambda: (ev.PoissonSampledDpEvent(P.prob(i), C([g, U])), 1),
  }[name]()


def step(env, acc, which, relation, name, i, P, log):
  ev = env.event()
  e, count = build(env, name, i, P)
  before = A.state(env, acc, which)
  ledger = acc.ledger
  valid = isinstance(e, ev.DpEvent)
  ok = valid and A.supported(ev, e, which, relation)
  if valid:
    env.check(bool(acc.supports(e)) == ok, 'supported exactly as documented: %s' % name)
    A.check_same(env, before, A.state(env, acc, which), 'asking for support changes nothing')
  exc = env.raises(lambda: acc.compose(e, count) if count != 1 else acc.compose(e), Exception)
  if ok and count >= 1:
    env.check(exc is None, 'a supported event is accepted: %s' % name)
    log.append((e, count))
    env.reach('accepted')
    return
  env.reach('refused')
  env.check(exc is not None, 'refused with an error: %s' % name)
  A.check_same(env, before, A.state(env, acc, which), 'a refusal leaves the loss unchanged: %s' % name)
  A.same(env, ledger, acc.ledger, 'a refusal leaves the ledger unchanged: %s' % name)


def history(env, which, relation, first, rest):
  ev = env.event()
  P = A.Params(env)
  acc = A.make(env, which, relation)
  log = []
  for i, ops in enumerate([[first]] + [list(r) for r in rest]):
    name = ops[0] if len(ops) == 1 else env.choice('op%d' % i, ops)
    step(env, acc, which, relation, name, i, P, log)
  want = []
  for e, n in log:
    want += A.flatten(ev, e, n)
  got = A.flatten(ev, acc.ledger)
  env.check(len(want) == len(got), 'ledger length')
  for x, y in zip(want, got):
    A.same(env, x, y, 'ledger entry')
  env.reach('done')


def cases(tier):
  q = tier == 'quick'
  out = []
  for w in ('rdp', 'pld'):
    for rel in A.RELATIONS:
      for f in OPS:
        out.append(Case('%s-%s-%s' % (w, rel, f), history, must_reach=('done',), timeout=300,
                        kw=dict(which=w, relation=rel, first=f, rest=[OPS])))
    rel = A.SPECIAL
    for f in (FEW if q else OPS):
      out.append(Case('3-%s-%s' % (w, f), history, must_reach=('done',), timeout=800,
                      kw=dict(which=w, relation=rel, first=f,
                              rest=[ATTEMPT, FEW] if q else [OPS, OPS])))
  return out
