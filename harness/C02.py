"""C02: grouping, repetition and order never change the accounted loss."""
import itertools
from se import core
from se.runner import Case
from harness import acclib as A

FUNCTIONS = ['RdpAccountant._maybe_compose', 'PLDAccountant._maybe_compose',
             'PrivacyAccountant.compose', '_effective_gaussian_noise_multiplier']
BOUNDS = ['every supported event kind under every relation; counts 1, 2, 3 and 6; groupings: repeated '
          'calls, count argument, self-composition, flat and nested lists, nested '
          'self-compositions; orders of three different events; symbolic noise and sampling '
          'parameters; Renyi orders 2 and 1.5; loss distributions abstracted to the multiset of '
          'composed mechanisms (Gaussians by inverse variance)']
TOL = 0.05


def groupings(ev, e, n):
  """All ways of saying e applied n times, as lists of compose arguments."""
  C, S = ev.ComposedDpEvent, ev.SelfComposedDpEvent
  N = ev.NoOpDpEvent()
  out = {
      'calls': [(e, 1)] * n,
      'count': [(e, n)],
      'self': [(S(e, n), 1)],
      'flat': [(C([e] * n), 1)],
      'self1': [(S(S(e, 1), n), 1)],
      'self-comp': [(S(C([e]), n), 1)],
      'nested-noop': [(C([N, C([S(e, n), N])]), 1)],
      'tuple': [(C((e,) * n), 1)],
  }
  if n > 1:
    out.update({
        'mixed': [(C([e, S(e, n - 1)]), 1)],
        'split': [(e, n - 1), (e, 1)],
        'split-nested': [(C([C([e])]), n - 1), (S(e, 1), 1)],
        'interrupted': [(e, 1), (N, 2), (S(e, n - 1), 1)],
    })
  if n % 2 == 0:
    out.update({
        'selfself': [(S(S(e, 2), n // 2), 1)],
        'self-count': [(S(e, 2), n // 2)],
        'self-flat': [(S(C([e, e]), n // 2), 1)],
        'self-flat-count': [(C([S(C([e]), 2)]), n // 2)],
        'selfself-r': [(S(S(e, n // 2), 2), 1)],
    })
  return out


def run(env, which, relation, calls, orders):
  acc = A.make(env, which, relation, orders)
  for e, n in calls:
    if n == 1:
      acc.compose(e)
    else:
      acc.compose(e, n)
  return A.state(env, acc, which)


def tol(env, which):
  return TOL if which == 'pld' else None


def grouping(env, which, relation, kind, n, orders):
  ev = env.event()
  P = A.Params(env)
  e = A.leaf(env, kind, P) if isinstance(kind, str) else kind(ev, P)
  g = groupings(ev, e, n)
  ref = run(env, which, relation, g['calls'], orders)
  # one, two, ... calls really accumulate
  if n > 1 and kind in ('gauss', 'laplace', 'rr', 'poisson-g', 'mog', 'wor-g', 'tree'):
    one = run(env, which, relation, g['calls'][:1], orders)
    if which == 'rdp':
      env.check_eq(ref[0], n * one[0], 'n calls cost n times one')
    elif env.symbolic:
      env.check_lt(one[0], ref[0], 'more calls cost more')
  names = [k for k in g if k != 'calls']
  k = env.choice('grouping', names)
  A.check_same(env, ref, run(env, which, relation, g[k], orders),
               '%s as %s' % (kind, k), tol(env, which))
  env.reach('done')


def inner(env, relation, wrap, orders):
  """Groupings under a sampling step or a repetition (Renyi accountant)."""
  ev = env.event()
  P = A.Params(env)
  C = ev.ComposedDpEvent
  S = lambda e, n: ev.SelfComposedDpEvent(e, env.num(n))
  g, h = ev.GaussianDpEvent(P.sigma(0)), ev.GaussianDpEvent(P.sigma(1))
  mk = {'poisson': lambda x: ev.PoissonSampledDpEvent(P.prob(), x),
        'wor': lambda x: ev.SampledWithoutReplacementDpEvent(env.num(8), env.num(2), x),
        'repeat': lambda x: ev.RepeatAndSelectDpEvent(x, 1.0, 1.0)}[wrap]
  forms = [C([g, g, g, h]), C([h, S(g, 3)]), C([S(g, 2), h, g]), C([C([g, h]), S(C([g]), 2)]),
           C((C([g]), S(S(g, 2), 1), h)), S(C([S(g, 3), h]), 1)]
  ref = run(env, 'rdp', relation, [(mk(forms[0]), 1)], orders)
  i = env.choice('form', list(range(1, len(forms))))
  A.check_same(env, ref, run(env, 'rdp', relation, [(mk(forms[i]), 1)], orders),
               'grouping inside %s' % wrap)
  env.reach('done')


def reorder(env, which, relation, kinds, orders):
  ev = env.event()
  P = A.Params(env)
  es = [A.leaf(env, k, P, i) for i, k in enumerate(kinds)]
  counts = [1, 2, 1]
  ref = run(env, which, relation, list(zip(es, counts)), orders)
  perm = env.choice('perm', list(itertools.permutations(range(3))))
  form = env.choice('form', ['calls', 'comp', 'nested'])
  C, S = ev.ComposedDpEvent, ev.SelfComposedDpEvent
  parts = [(es[i], counts[i]) for i in perm]
  if form == 'comp':
    parts = [(C([S(e, n) if n > 1 else e for e, n in parts]), 1)]
  elif form == 'nested':
    (a, m), (b, n), (c, k) = parts
    parts = [(C([S(C([a]), m), C([C([S(b, n)]), S(c, k)])]), 1)]
  A.check_same(env, ref, run(env, which, relation, parts, orders), 'order and grouping',
               tol(env, which))
  env.reach('done')


def kinds_for(which, relation):
  out = ['noop', 'nonprivate', 'gauss', 'laplace', 'zero']
  if relation != A.ADD:
    out.append('rr')
  if relation != A.ONE:
    out.append('poisson-g')
    out.append('poisson-l' if which == 'pld' else 'poisson-cg')
  if which == 'pld':
    out += ['mog', 'mog1']
  else:
    if relation == A.ONE:
      out.append('wor-g')
    if relation == A.SPECIAL:
      out.append('tree')
    out.append('repeat')
  return out


def repeat(ev, P):
  return ev.RepeatAndSelectDpEvent(ev.GaussianDpEvent(P.sigma()), 1.0, 1.0)


def cases(tier):
  q = tier == 'quick'
  out = []
  for w in ('rdp', 'pld'):
    for rel in A.RELATIONS:
      ks = kinds_for(w, rel)
      for k in ks:
        for n in ((1, 2, 3, 6) if q else (1, 2, 3, 4, 6, 12)):
          out.append(Case('%s-%s-%s-%d' % (w, rel, k, n), grouping, must_reach=('done',),
                          kw=dict(which=w, relation=rel, kind=repeat if k == 'repeat' else k, n=n,
                                  orders=(2,) if q else (2, 4))))
      heavy = [k for k in ks if k not in ('noop', 'zero', 'mog1', 'repeat')]
      trios = [t for t in itertools.combinations(heavy, 3)]
      for t in (trios[:6] if q else trios):
        out.append(Case('order-%s-%s-%s' % (w, rel, '-'.join(t)), reorder, must_reach=('done',),
                        kw=dict(which=w, relation=rel, kinds=t, orders=(2,))))
  for rel, wrap in ((A.ADD, 'poisson'), (A.SPECIAL, 'poisson'), (A.ONE, 'wor'), (A.ADD, 'repeat')):
    out.append(Case('inner-%s-%s' % (wrap, rel), inner, must_reach=('done',),
                    kw=dict(relation=rel, wrap=wrap, orders=(2,))))
  return out
