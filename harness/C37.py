"""C37: sparse-vector mechanisms stop answering once their budget is used."""
from fractions import Fraction
from se import core
from se.runner import Case
from harness.rnglib import Draws

SVT = 'dp_auditorium.mechanisms.sparse_vector_technique'
CFG = 'dp_auditorium.configs.mechanism_config'
FUNCTIONS = ['sparse_vector_technique.AbstractSVTMechanism.__call__, SVT1 to SVT6, '
             '_get_sum_query, _get_reveal_records_query']
BOUNDS = ['epsilon, threshold, records, clipping bounds and all noise symbolic; 1 to 2 samples, 2 '
          'to 3 queries, at most 3 answers (thorough: 3 samples, 4 queries)']
ASSUMPTIONS = ['a Laplace draw of scale s is s times an arbitrary number']

# documented scales: (queries, threshold) in units of sensitivity / epsilon
SCALES = {1: lambda c: (4 * c, 2), 2: lambda c: (4 * c, 2 * c), 3: lambda c: (2 * c, 2),
          4: lambda c: (Fraction(4, 3), 4),
          5: lambda c: (None, 2), 6: lambda c: (2, 2)}


def config(env, kind, n, c, lo, hi, thr, eps):
  C = env.mod(CFG)
  return C.SVTMechanismConfig(
      epsilon=eps, max_value=hi, min_value=lo,
      query_type=getattr(C.QueryType, 'QUERY_TYPE_' + kind), num_queries=n,
      threshold=thr, max_answered_queries=c)


def clipped(env, v, lo, hi):
  if env.fork(v < lo):
    return lo
  if env.fork(v > hi):
    return hi
  return v


def svt(env, variant, n, m, c, kind, clip=False):
  S = env.mod(SVT)
  V = env.mod(CFG).DataValues
  lo, width, eps, thr = env.real('lo'), env.pos('width'), env.pos('eps'), env.real('thr')
  hi = lo + width
  d = Draws(env)
  mech = getattr(S, 'SVT%d' % variant)(config(env, kind, n, c, lo, hi, thr, eps), d.generator())
  k = 1 if kind == 'SUM' else 2
  data = [env.real('x%d' % i) for i in range(k)]
  if not clip:
    for v in data:
      env.assume(v >= lo)
      env.assume(v <= hi)
  out = mech(env.np.array(data), m)
  y = [clipped(env, v, lo, hi) for v in data] if clip else data
  q = [y[0]] * n if kind == 'SUM' else [y[1]] * (n - 1) + [y[0]]
  Q, T = SCALES[variant](c)
  # which draws are the thresholds': one per sample, the rest one per query
  calls = {}
  for w in d.log:
    calls.setdefault(w.call, []).append(w)
  sizes = sorted(len(v) for v in calls.values())
  env.check(len(d.log) == m * (1 + (n if Q is not None else 0)),
            'one threshold noise per sample and one noise per query')
  if sizes != sorted([m] + ([m * n] if Q is not None else [])):
    raise core.Inconclusive('noise is not drawn the way the harness knows')
  tn = [v for v in calls.values() if len(v) == m][0]
  env.check(all(w.kind == 'laplace' for w in d.log), 'Laplace noise')
  for w in tn:
    env.check_eq(w.scale, T * width / eps, 'documented scale of the threshold noise')
  qn = None
  if Q is not None:
    qn = [v for v in calls.values() if len(v) == m * n][0]
    for w in qn:
      env.check_eq(w.scale, Q * width / eps, 'documented scale of the query noise')
  env.check(env.np.shape(out) == (m, n), 'one answer per sample and query')
  for s in range(m):
    t = thr + tn[s].scale * tn[s].z
    used = 0
    for i in range(n):
      v = q[i] + (qn[s * n + i].scale * qn[s * n + i].z if qn else 0)
      o = out[s, i]
      if used >= c:
        env.check(o is V.SVT_NO_RESPONSE, 'no answer once the limit is reached')
        continue
      if not env.symbolic and 0 < abs(v - t) < 1e-9 * (abs(v) + abs(t)):
        return        # a tie up to rounding
      if env.fork(v >= t):
        used += 1
        if variant == 3:
          env.check(not isinstance(o, type(V.SVT_NO_RESPONSE)), 'noisy value reported')
          env.check_eq(o, v, 'noisy value reported')
        else:
          env.check(o is V.SVT_ABOVE_THRESHOLD, 'above the threshold exactly when reached')
      else:
        env.check(o is V.SVT_BELOW_THRESHOLD, 'below the threshold otherwise')


def inputs(env):
  """Refused inputs."""
  S = env.mod(SVT)
  C = env.mod(CFG)
  d = Draws(env)
  lo = env.real('lo')
  hi = lo + env.pos('width')
  mk = lambda kind: S.SVT1(config(env, kind, 2, 1, lo, hi, 0.0, 1.0), d.generator())
  x = env.real('x')
  env.check(env.raises(lambda: mk('SUM')(env.np.array([[x, x], [x, x]]), 1), ValueError) is not
            None, 'datasets of more dimensions are refused')
  env.check(env.raises(lambda: mk('REVEAL_RECORDS')(env.np.array([x]), 1), ValueError) is not None,
            'too few records to reveal')
  env.check(env.raises(lambda: mk('UNSPECIFIED'), ValueError) is not None,
            'unknown queries are refused')


def queries(env, m, n):
  """The queries themselves, through a threshold no noise can cross."""
  S = env.mod(SVT)
  lo = env.real('lo')
  width = env.pos('width')
  hi = lo + width
  d = Draws(env)
  d.one_real = d.one

  def still(kind, loc, scale):
    v = d.one_real(kind, loc, scale)
    d.log[-1].value = loc
    return loc
  d.one = still
  data = [env.real('x%d' % i) for i in range(m)]
  # SVT3 reports the value itself
  low = env.real('low')
  env.assume(low < lo * m)
  env.assume(low < lo)
  env.assume(low < 0)
  y = [clipped(env, v, lo, hi) for v in data]
  mech = S.SVT3(config(env, 'SUM', n, n, lo, hi, low, 1.0), d.generator())
  out = mech(env.np.array(data), 1)
  tot = 0
  for v in y:
    tot = tot + v
  for i in range(n):
    env.check_eq(out[0, i], tot, 'sum of the clipped records')
  if m >= 2:
    mech = S.SVT3(config(env, 'REVEAL_RECORDS', n, n, lo, hi, low, 1.0), d.generator())
    out = mech(env.np.array(data), 1)
    for i in range(n):
      env.check_eq(out[0, i], y[-1] if i < n - 1 else y[-2], 'the last records are revealed')


def cases(tier):
  q = tier == 'quick'
  out = [Case('inputs', inputs)]
  for m in (1, 2, 3):
    out.append(Case('queries-%d' % m, queries, kw=dict(m=m, n=2 if m < 3 else 3)))
  for v in range(1, 7):
    for n, m in ((2, 1), (3, 1), (2, 2), (3, 2)) + (() if q else ((4, 1), (2, 3))):
      for c in (range(0, n + 1) if (n, m) != (3, 2) or not q else (1,)):
        out.append(Case('svt%d-%d-%d-%d' % (v, n, m, c), svt, kw=dict(
            variant=v, n=n, m=m, c=c, kind='SUM' if n == 2 else 'REVEAL_RECORDS')))
    out.append(Case('clip-%d' % v, svt, kw=dict(variant=v, n=2, m=1, c=1, kind='SUM', clip=True)))
  return out
