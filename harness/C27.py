"""C27: Gaussian-mixture mechanisms match their defining mixture."""
import math
from se import core
from se.runner import Case
from harness import pldlib as L

FUNCTIONS = ['MixtureGaussianPrivacyLoss.mu_upper_cdf / mu_lower_log_cdf / privacy_loss / '
             'inverse_privacy_loss(es) / get_delta_for_epsilon / privacy_loss_tail / '
             'connect_dots_bounds', 'common.inverse_monotone_function']
BOUNDS = ['mixtures of up to 3 (quick) / 4 (thorough) sensitivities, symbolic probabilities, '
          'noise scale and output; inverse: concrete sensitivity patterns of 1 to 3 (4) values '
          'in units of the noise, losses symbolic over an interval whose inverses span at most '
          '8 (16) times the precision; tail: largest sensitivity at most 4 (16) times the '
          'search precision']
ASSUMPTIONS = ['losses within 1e-6 (relative) of the extreme mixture loss are left out: the code '
               'documents that it reports an infinite output there']


def mech(env, s, p, sigma, adj, **kw):
  M = env.mod(L.MECH)
  return M.MixtureGaussianPrivacyLoss(sigma, list(s), list(p),
                                      adjacency_type=getattr(M.AdjacencyType, adj), **kw)


def setup(env, n, zero):
  s = [0.0] if zero else []
  while len(s) < n:
    s.append(env.pos('s%d' % len(s)))
  p = env.probs('p', n, positive=True, total=1) if n > 1 else [1.0]
  return s, p, env.pos('sigma')


def law(env, n, zero, adj):
  s, p, sig = setup(env, n, zero)
  m = mech(env, s, p, sig, adj)
  x = env.real('x')
  sg = 1 if adj == 'REMOVE' else -1
  u = l = r = 0
  for si, pi in zip(s, p):
    u = u + pi * env.Phi((x + sg * si) / sig)
    # density of the shifted Gaussian over the centred one
    r = r + pi * env.exp(-((x + sg * si) * (x + sg * si) - x * x) / (2 * sig * sig))
  c = env.Phi(x / sig)
  if adj == 'REMOVE':
    env.check_eq(m.mu_upper_cdf(x), u, 'first output distribution')
    env.check_eq(env.exp(m.mu_lower_log_cdf(x)), c, 'second output distribution')
    env.check_eq(env.exp(m.privacy_loss(x)), r, 'loss is the log ratio of the densities')
  else:
    env.check_eq(m.mu_upper_cdf(x), c, 'first output distribution')
    env.check_eq(env.exp(m.mu_lower_log_cdf(x)), u, 'second output distribution')
    env.check_eq(env.exp(-m.privacy_loss(x)), r, 'loss is the log ratio of the densities')
  v = m.mu_upper_cdf(env.np.array([x, x]))
  env.check_eq(v[1], m.mu_upper_cdf(x), 'list query agrees')
  v = m.mu_lower_log_cdf(env.np.array([x, x]))
  env.check_eq(env.exp(v[0]), env.exp(m.mu_lower_log_cdf(x)), 'list query agrees')


def subsampled(env, adj, extra):
  """A mixture on zero and s is the subsampled Gaussian."""
  M = env.mod(L.MECH)
  q = env.real('q', lo=0, hi=1, lo_open=True, hi_open=True)
  s, sig, x = env.pos('s'), env.pos('sigma'), env.real('x')
  a = getattr(M.AdjacencyType, adj)
  ss, ps = [0.0, s], [1 - q, q]
  if extra == 'zero-prob':
    ss, ps = [0.0, 5.0, s], [1 - q, 0.0, q]
  elif extra == 'split':
    ss, ps = [s, 0.0, s], [q / 4, 1 - q, 3 * q / 4]
  mix = mech(env, ss, ps, sig, adj)
  g = M.GaussianPrivacyLoss(sig, s, sampling_prob=q, adjacency_type=a)
  sg = 1 if adj == 'REMOVE' else -1
  env.check_eq(env.exp(sg * mix.privacy_loss(x)), env.exp(sg * g.privacy_loss(x)), 'same loss')
  env.check_eq(mix.mu_upper_cdf(x), g.mu_upper_cdf(x), 'same first distribution')
  env.check_eq(env.exp(mix.mu_lower_log_cdf(x)), env.exp(g.mu_lower_log_cdf(x)),
               'same second distribution')


def level(env, p, q, lo, hi, adj, name):
  """A loss, given by the loss lam of the non-zero part of the mixture."""
  lam = env.real(name, lo=lo, hi=hi)
  if q is None:
    return lam
  if adj == 'REMOVE':
    return env.log((1 - q) + q * env.exp(lam))
  return -env.log((1 - q) + q * env.exp(-lam))


def exact(env, s, p, sig, adj, x):
  sg = 1 if adj == 'REMOVE' else -1
  r = 0
  for si, pi in zip(s, p):
    t = -(sg * 2 * x * si + si * si) / (2 * sig * sig)
    r = r + pi * env.exp(env.frac(t.numerator, t.denominator) if env.symbolic else float(t))
  return r


def inverse(env, s, sig, lo, hi, adj, zero, how, both=False):
  """Within one precision step of an output with that loss."""
  from fractions import Fraction
  n = len(s)
  s = [Fraction(a) for a in s]
  ps = env.probs('p', n, positive=True, total=1) if n > 1 else [1]
  if zero:
    q = env.real('q', lo=Fraction(1, 8), hi=Fraction(7, 8))
    full = [1 - q] + [q * a for a in ps]
    ss = [Fraction(0)] + s
  else:
    q, full, ss = None, list(ps), s
  m = mech(env, [float(a) for a in ss], [a if n > 1 or zero else 1.0 for a in full], float(sig), adj)
  v = level(env, ps, q, lo, hi, adj, 'lam')
  vs = [v]
  if both:
    vs.append(level(env, ps, q, lo, hi, adj, 'lam2'))
    env.assume(v <= vs[1])
  if zero:
    # keep away from the extreme loss
    edge = env.log(1 - q)
    for w in vs:
      env.assume(w + edge < edge / 10**6 if adj == 'ADD' else w - edge > -edge / 10**6)
  if how == 'one':
    rs = [m.inverse_privacy_loss(v, precision=1.0)]
  else:
    rs = list(m.inverse_privacy_losses(env.np.array(vs), precision=1.0))
  for w, r in zip(vs, rs):
    r = Fraction(r) if not env.symbolic else Fraction(float(r))
    tol = Fraction(1, 1000) if not env.symbolic else 0
    up = exact(env, ss, full, Fraction(sig), adj, r + 1 + tol)
    dn = exact(env, ss, full, Fraction(sig), adj, r - 1 - tol)
    if adj == 'REMOVE':
      e = env.exp(w)
      env.check_le(up, e, 'loss one step above the inverse is at most the value')
      env.check_le(e, dn, 'loss one step below the inverse is at least the value')
    else:
      e = env.exp(-w)
      env.check_le(e, up, 'loss one step above the inverse is at most the value')
      env.check_le(dn, e, 'loss one step below the inverse is at least the value')


def order(env, adj):
  m = mech(env, [1.0, 2.0], [0.5, 0.5], env.pos('sigma'), adj)
  a, b = env.real('a'), env.real('b')
  env.assume(a > b)
  env.check(env.raises(lambda: m.inverse_privacy_losses(env.np.array([a, b])), ValueError)
            is not None, 'decreasing losses are refused')
  env.check(env.raises(lambda: m.get_delta_for_epsilon(env.np.array([a, b])), ValueError)
            is not None, 'decreasing epsilons are refused')


def integers(env, adj):
  """The same loss given as an int."""
  p = env.probs('p', 2, positive=True, total=1)
  m = mech(env, [1.0, 3.0], p, 1.0, adj)
  a = m.inverse_privacy_loss(1.0, precision=0.25)
  b = m.inverse_privacy_loss(1, precision=0.25)
  env.check_eq(a, b, 'integer losses give the same inverse')


def far(env, adj):
  """Losses no output has are refused; the extreme one has an infinite output."""
  q = env.real('q', lo=0, hi=1, lo_open=True, hi_open=True)
  s, sig = env.pos('s'), env.pos('sigma')
  m = mech(env, [0.0, s], [1 - q, q], sig, adj)
  edge = -env.log(1 - q)
  d = env.pos('d')
  t = edge + d
  v = t if adj == 'ADD' else -t
  env.check(env.raises(lambda: m.inverse_privacy_loss(v), ValueError) is not None,
            'unattainable losses are refused')


def delta(env, n, zero, adj, vec):
  """delta = U(x) - exp(eps) L(x) at the output the inverse names."""
  s, p, sig = setup(env, n, zero)
  M = env.mod(L.MECH)
  xs = [env.real('x%d' % i) for i in range(2 if vec else 1)]
  asked = []

  class Stub(M.MixtureGaussianPrivacyLoss):
    def inverse_privacy_losses(self, privacy_losses, precision=1e-6):
      asked.append(list(privacy_losses))
      return env.np.array(xs[len(xs) - len(asked[-1]):] if adj == 'REMOVE'
                          else xs[:len(asked[-1])])

    def inverse_privacy_loss(self, privacy_loss, precision=1e-6):
      return self.inverse_privacy_losses(env.np.array([privacy_loss]), precision)[0]

  m = Stub(sig, list(s), list(p), adjacency_type=getattr(M.AdjacencyType, adj))
  eps = [env.real('e0')]
  if vec:
    eps.append(eps[0] + env.real('de', lo=0))
  got = list(m.get_delta_for_epsilon(env.np.array(eps))) if vec else [m.get_delta_for_epsilon(eps[0])]
  sg = 1 if adj == 'REMOVE' else -1
  want = []
  n_in = 0
  for e, x in zip(eps, xs):
    if zero:
      if adj == 'ADD' and not env.fork(env.exp(-e) > p[0]):
        want.append(0)
        continue
      if adj == 'REMOVE' and not env.fork(env.exp(e) > p[0]):
        want.append(1 - env.exp(e))
        continue
    n_in += 1
    c = env.Phi(x / sig)
    t = 0
    for si, pi in zip(s, p):
      t = t + pi * env.Phi((x + sg * si) / sig)
    u, l = (t, c) if adj == 'REMOVE' else (c, t)
    want.append(u - env.exp(e) * l)
  if n_in and not asked:
    raise core.Inconclusive('the inverse was not consulted')
  if n_in:
    env.check(len(asked[0]) == n_in, 'the inverse is asked for the attainable losses')
  clip = []
  for w in want:
    if env.fork(w < 0):
      w = 0
    elif env.fork(w > 1):
      w = 1
    clip.append(w)
  if vec and not env.fork(clip[0] >= clip[1]):
    clip[0] = clip[1]
  for g, w in zip(got, clip):
    env.check_eq(g, w, 'delta is the hockey-stick divergence at the inverse')


def tail(env, n, zero, adj, pess, ratio, dots=False):
  prec = env.frac(1, 10000) if dots else env.pos('prec')
  s = [0.0] if zero else []
  sig = env.pos('sigma')
  while len(s) < n:
    a = env.pos('s%d' % len(s))
    env.assume(a <= ratio * prec)
    s.append(a)
  p = env.probs('p', n, positive=True, total=1) if n > 1 else [1.0]
  bud = env.real('budget', hi=0)
  m = mech(env, s, p, sig, adj, pessimistic_estimate=pess, log_mass_truncation_bound=bud)
  t = m.privacy_loss_tail() if dots else m.privacy_loss_tail(precision=prec)
  lo, hi = t.lower_x_truncation, t.upper_x_truncation

  def U(x):
    if adj == 'ADD':
      return env.Phi(x / sig)
    r = 0
    for si, pi in zip(s, p):
      r = r + pi * env.Phi((x + si) / sig)
    return r

  def ratio_at(x):
    sg = 1 if adj == 'REMOVE' else -1
    r = 0
    for si, pi in zip(s, p):
      r = r + pi * env.exp(-(2 * sg * x * si + si * si) / (2 * sig * sig))
    return r

  B = env.exp(bud)
  left, right = U(lo), 1 - U(hi)
  env.check_le(left, B, 'left tail within the budget')
  env.check_le(right, B, 'right tail within the budget')
  inf = [v for k, v in t.tail_probability_mass_function.items() if k == math.inf]
  fin = [(k, v) for k, v in t.tail_probability_mass_function.items() if k != math.inf]
  env.check(len(inf) == (1 if pess else 0) and len(fin) == 1, 'one charge per tail')
  if pess:
    env.check_eq(inf[0], left, 'left tail charged to infinite loss')
  env.check_eq(fin[0][1], right if pess else left, 'tail mass charged')
  sg = 1 if adj == 'REMOVE' else -1
  env.check_eq(env.exp(sg * fin[0][0]), ratio_at(hi if pess else lo), 'charged the loss at the cut')
  if dots:
    b = m.connect_dots_bounds()
    env.check_eq(env.exp(sg * b.epsilon_upper), ratio_at(lo), 'epsilon range reaches the top cut')
    env.check_eq(env.exp(sg * b.epsilon_lower), ratio_at(hi), 'epsilon range reaches the bottom cut')


def bad(env):
  sig, bud = env.real('sigma'), env.real('budget')
  ok = env.fork(sig > 0) and env.fork(bud <= 0)
  r = env.raises(lambda: mech(env, [0.0, 1.0], [0.5, 0.5], sig, 'ADD',
                              log_mass_truncation_bound=bud), ValueError)
  env.check((r is None) == bool(ok), 'scale and budget validated')
  for s, p, good in (([1.0], [0.5, 0.5], False), ([-1.0, 1.0], [0.5, 0.5], False),
                     ([0.0], [1.0], False), ([0.0, 1.0], [1.0, 0.0], False),
                     ([1.0, 2.0], [0.5, 0.4], False), ([1.0, 2.0], [1.5, -0.5], False),
                     ([-1.0, 1.0], [0.0, 1.0], True)):
    r = env.raises(lambda: mech(env, s, p, 1.0, 'ADD'), ValueError)
    env.check((r is None) == good, 'mixture validated: %s %s' % (s, p))


def cases(tier):
  q = tier == 'quick'
  out = [Case('bad', bad)]
  for adj in ('ADD', 'REMOVE'):
    a = adj.lower()
    for n, z in ((1, False), (2, False), (2, True), (3, False), (3, True)) + (() if q else ((4, True), (4, False))):
      out.append(Case('law-%d%s-%s' % (n, 'z' if z else '', a), law, kw=dict(n=n, zero=z, adj=adj)))
      if n < 3 or not q:
        for vec in (False, True):
          out.append(Case('delta-%d%s%s-%s' % (n, 'z' if z else '', 'v' if vec else '', a), delta,
                          kw=dict(n=n, zero=z, adj=adj, vec=vec)))
      if n < 3:
        for pess in (True, False):
          out.append(Case('tail-%d%s-%s-%s' % (n, 'z' if z else '', a, pess), tail, kw=dict(
              n=n, zero=z, adj=adj, pess=pess, ratio=4 if q else 16),
                           witnesses=[dict(s0=repr(s), sigma=repr(g), budget=repr(b), prec='1.0')
                                      for s, g, b in ((3.0, 3.0, -1.0), (2.0, 0.7, -3.0))]
                           if n == 1 and not z else ()))
    for ex in ('', 'zero-prob', 'split'):
      out.append(Case('subsampled-%s-%s' % (ex, a), subsampled, kw=dict(adj=adj, extra=ex)))
    out.append(Case('dots-%s' % a, tail, kw=dict(n=2, zero=True, adj=adj, pess=True, ratio=2, dots=True)))
    out.append(Case('order-' + a, order, kw=dict(adj=adj)))
    out.append(Case('far-' + a, far, kw=dict(adj=adj)))
    out.append(Case('integers-' + a, integers, kw=dict(adj=adj)))
    # sensitivities, sigma, range of lam: inverses -s/2 - lam sigma^2/s (REMOVE),
    # s/2 - lam sigma^2/s (ADD)
    mid = (0.45, 0.55) if adj == 'REMOVE' else (-0.55, -0.45)
    for nm, s, sig, lo, hi, ts in (
        ('1', [4], 2, 0, 3, 'q'), ('2', [2, 4], 2, -1, 1, 'q'), ('2m', [4, 8], 8) + mid + ('q',),
        ('1e', [4], 2) + ((-13, -11, 'q') if adj == 'REMOVE' else (11, 13, 'q')),
        ('3m', [4, 8, 16], 8) + mid + ('q',), ('2b', [6, 12], 6, 1, 1.5, 't'),
        ('3w', [4, 8, 16], 8, -1, 1, 't'), ('4', [4, 6, 10, 16], 8) + mid + ('t',)):
      if ts == 't' and q:
        continue
      for z in (False, True) if nm != '1e' else (True,):
        for how in ('one', 'list') if len(s) < 3 and ts == 'q' and nm != '1e' else ('one',):
          out.append(Case('inverse-%s%s-%s-%s' % (nm, 'z' if z else '', how, a), inverse, kw=dict(
              s=s, sig=sig, lo=lo, hi=hi, adj=adj, zero=z, how=how, both=how == 'list')))
  return out
