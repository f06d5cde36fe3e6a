"""C14: no guarantee under an unsupported neighbouring relation."""
import attr
from se import core
from se.runner import Case
from harness import acclib as A

FUNCTIONS = ['RdpAccountant._maybe_compose', 'PLDAccountant._maybe_compose',
             'PrivacyAccountant.compose / supports']
BOUNDS = ['three relations x two accountants x every event kind x every placement (alone, '
          'self-composed, in a list, nested lists, under repetition, under sampling), depth up to 3 '
          '(quick) / 4; symbolic mechanism parameters']
WRAPS = ('none', 'self', 'comp', 'self-comp', 'deep', 'poisson', 'wor', 'repeat', 'poisson-comp',
         'wor-self')
ALL = A.KINDS + ('tree-1', 'repeat')


def wrap(env, w, e, P):
  ev = env.event()
  g = ev.GaussianDpEvent(P.sigma(1))
  C, S = ev.ComposedDpEvent, ev.SelfComposedDpEvent
  return {
      'none': lambda x: x,
      'self': lambda x: S(x, 2),
      'comp': lambda x: C([g, x]),
      'self-comp': lambda x: S(C((x, g)), 2),
      'deep': lambda x: C([ev.NoOpDpEvent(), C([S(C([g, x]), 2)]), g]),
      'poisson': lambda x: ev.PoissonSampledDpEvent(P.prob(1), x),
      'poisson-comp': lambda x: ev.PoissonSampledDpEvent(P.prob(1), C([g, x])),
      'wor': lambda x: ev.SampledWithoutReplacementDpEvent(env.num(8), env.num(2), x),
      'wor-self': lambda x: ev.SampledWithoutReplacementDpEvent(env.num(8), env.num(2), S(x, env.num(4))),
      'repeat': lambda x: ev.RepeatAndSelectDpEvent(x, 1.0, 1.0),
  }[w](e)


def culprit(ev, e, which, relation):
  """Class of the innermost event responsible for a refusal."""
  if isinstance(e, ev.SelfComposedDpEvent):
    return culprit(ev, e.event, which, relation)
  if isinstance(e, ev.ComposedDpEvent):
    for x in e.events:
      if not A.supported(ev, x, which, relation):
        return culprit(ev, x, which, relation)
  if isinstance(e, ev.RepeatAndSelectDpEvent) and which == 'rdp':
    return culprit(ev, e.event, which, relation)
  return type(e).__name__


def gate(env, which, relation, kind, wraps):
  ev = env.event()
  P = A.Params(env)
  if kind == 'repeat':
    e = ev.RepeatAndSelectDpEvent(ev.GaussianDpEvent(P.sigma(0)), 1.0, 1.0)
  else:
    e = A.leaf(env, kind, P)
  for w in wraps:
    e = wrap(env, env.choice('wrap%d' % wraps.index(w), w), e, P)
  acc = A.make(env, which, relation)
  acc.compose(ev.GaussianDpEvent(P.sigma(2)))
  before = A.state(env, acc, which)
  ok = A.supported(ev, e, which, relation)
  env.check(bool(acc.supports(e)) == ok, 'support table: %s under %s' % (kind, relation))
  exc = env.raises(lambda: acc.compose(e), Exception)
  if ok:
    env.reach('accepted')
    env.check(exc is None, 'supported event accepted: %s' % kind)
    return
  env.reach('refused')
  env.check(exc is not None and type(exc).__name__ == 'UnsupportedEventError',
            'refused as unsupported: %s under %s' % (kind, relation))
  env.check(exc is not None and culprit(ev, e, which, relation) in str(exc),
            'the error names the event: %s' % kind)
  A.check_same(env, before, A.state(env, acc, which), 'a refused event costs nothing: %s' % kind)


def cases(tier):
  q = tier == 'quick'
  out = []
  for w in ('rdp', 'pld'):
    for rel in A.RELATIONS:
      for k in ALL:
        out.append(Case('%s-%s-%s' % (w, rel, k), gate,
                        kw=dict(which=w, relation=rel, kind=k,
                                wraps=[WRAPS] if q else [WRAPS, WRAPS[:9]])))
  return out
