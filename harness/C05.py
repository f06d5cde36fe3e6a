"""C05: the event builder reproduces the composed history."""
from se import core
from se.runner import Case
from harness import acclib as A

FUNCTIONS = ['DpEventBuilder.compose', 'DpEventBuilder.build']
BOUNDS = ['call sequences of length up to 3 (quick) / 4 over: Gaussian events with symbolic '
          'parameters (any equality pattern), no-ops, self-compositions, compositions, invalid '
          'counts, non-events, interleaved builds; counts 1 to 3']
BUILDER = 'dp_accounting.dp_event_builder'
OPS = ('g', 'g-shared', 'g2', 'l', 'noop', 'self', 'selfself', 'self-noop', 'comp', 'comp-empty',
       'bad-count', 'neg-count', 'not-int', 'not-event', 'bad-self', 'neg-self', 'build')


def op(env, b, name, i, P, log):
  """Applies one call; returns the (event, count) runs it adds."""
  ev = env.event()
  g = ev.GaussianDpEvent(P.sigma(i))
  refuse = None
  if name == 'g':
    b.compose(g)
    return [(g, 1)]
  if name == 'g-shared':
    e = ev.GaussianDpEvent(P.sigma(0))
    b.compose(e, 2)
    return [(e, 2)]
  if name == 'g2':
    b.compose(g, 3)
    return [(g, 3)]
  if name == 'l':
    e = ev.LaplaceDpEvent(P.sigma(i))
    b.compose(e)
    return [(e, 1)]
  if name == 'noop':
    b.compose(ev.NoOpDpEvent(), 2)
    return []
  if name == 'self':
    b.compose(ev.SelfComposedDpEvent(g, 2), 3)
    return [(g, 6)]
  if name == 'selfself':
    b.compose(ev.SelfComposedDpEvent(ev.SelfComposedDpEvent(g, 2), 2))
    return [(g, 4)]
  if name == 'self-noop':
    b.compose(ev.SelfComposedDpEvent(ev.NoOpDpEvent(), 2))
    return []
  if name == 'comp':
    e = ev.ComposedDpEvent([g, ev.SelfComposedDpEvent(g, 2)])
    b.compose(e, 2)
    return [(e, 2)]
  if name == 'comp-empty':
    e = ev.ComposedDpEvent([])
    b.compose(e)
    return [(e, 1)]
  if name == 'build':
    b.build()
    return []
  f, exc = {'bad-count': (lambda: b.compose(g, 0), ValueError),
            'neg-count': (lambda: b.compose(g, -2), ValueError),
            'not-int': (lambda: b.compose(g, 1.5), TypeError),
            'not-event': (lambda: b.compose('g'), TypeError),
            'bad-self': (lambda: b.compose(ev.SelfComposedDpEvent(g, 0)), ValueError),
            'neg-self': (lambda: b.compose(ev.SelfComposedDpEvent(
                ev.SelfComposedDpEvent(g, -1), -2)), ValueError)}[name]
  env.check(env.raises(f, exc) is not None, 'invalid call refused (%s)' % name)
  return []


def equal(env, a, b):
  """Equality of two events as a path decision."""
  if type(a) is not type(b):
    return False
  for f in A.fields(a):
    x, y = getattr(a, f), getattr(b, f)
    if isinstance(x, list):
      if len(x) != len(y) or not all(equal(env, u, v) for u, v in zip(x, y)):
        return False
    elif hasattr(type(x), '__attrs_attrs__'):
      if not equal(env, x, y):
        return False
    elif not env.fork(x == y):
      return False
  return True


def check_build(env, got, runs, label):
  ev = env.event()
  merged = []
  for e, n in runs:
    if merged and equal(env, merged[-1][0], e):
      merged[-1][1] += n
    else:
      merged.append([e, n])
  if not merged:
    env.check(isinstance(got, ev.NoOpDpEvent), label + ': nothing composed is a no-op')
    return
  if len(merged) == 1:
    parts = [got]
  else:
    env.check(isinstance(got, ev.ComposedDpEvent), label + ': several runs are a composition')
    parts = list(got.events) if isinstance(got, ev.ComposedDpEvent) else []
  env.check(len(parts) == len(merged), label + ': number of runs')
  for p, (e, n) in zip(parts, merged):
    if n == 1:
      A.same(env, p, e, label + ': event')
    else:
      ok = isinstance(p, ev.SelfComposedDpEvent)
      env.check(ok, label + ': repeated event is a self-composition')
      if ok:
        env.check(p.count == n, label + ': multiplicity')
        A.same(env, p.event, e, label + ': repeated event')


def history(env, first, n, ops):
  b = env.mod(BUILDER).DpEventBuilder()
  P = A.Params(env)
  runs = []
  for i in range(n):
    name = first if i == 0 else env.choice('op%d' % i, ops)
    runs += op(env, b, name, i, P, runs)
  one = b.build()
  check_build(env, one, runs, 'built event')
  check_build(env, b.build(), runs, 'built again')
  e = env.event().GaussianDpEvent(P.sigma(n))
  b.compose(e)
  check_build(env, b.build(), runs + [(e, 1)], 'built after one more event')
  check_build(env, one, runs, 'event built earlier is unchanged')
  env.reach('done')


def cases(tier):
  q = tier == 'quick'
  out = []
  for f in OPS:
    out.append(Case('h2-' + f, history, kw=dict(first=f, n=2, ops=OPS), must_reach=('done',)))
    if q:
      out.append(Case('h3-' + f, history, kw=dict(first=f, n=3, ops=('g', 'g-shared', 'self', 'noop', 'comp')),
                      must_reach=('done',)))
    else:
      out.append(Case('h3-' + f, history, kw=dict(first=f, n=3, ops=OPS), must_reach=('done',)))
      out.append(Case('h4-' + f, history, kw=dict(first=f, n=4, ops=('g', 'g-shared', 'self', 'build')),
                      must_reach=('done',)))
  return out
