"""C31: convolution helpers preserve probability and index alignment."""
from se.runner import Case
from harness import pldlib as L
from harness.C18 import power

FUNCTIONS = ['common.dictionary_to_list', 'common.list_to_dictionary',
             'common.convolve_dictionary', 'common.self_convolve',
             'common.self_convolve_dictionary', 'common.compute_self_convolve_bounds']
BOUNDS = ['dictionaries of up to 3 keys with gaps, offsets and repetition counts as listed '
          'in the cases; lists of up to 4 (5 thorough) entries; masses and truncation budget '
          'symbolic; FFT encoded as exact cyclic convolution']


def masses(env, name, n):
  return [env.real('%s%d' % (name, i), lo=0) for i in range(n)]


def roundtrip(env, keys):
  c = env.mod(L.COMMON)
  ps = masses(env, 'p', len(keys))
  d = dict(zip(keys, ps))
  off, lst = c.dictionary_to_list(d)
  env.check(off == min(keys), 'offset is the smallest key')
  env.check(len(lst) == max(keys) - min(keys) + 1, 'list spans all keys')
  for i in range(len(lst)):
    env.check_eq(lst[i], d.get(off + i, 0), 'list entry at its index')
  back = c.list_to_dictionary(lst, off)
  L.check_same_masses(env, back, d, 'round trip')
  for k in back:
    env.check(back[k] > 0, 'only positive masses kept')


def truncate(env, n, off):
  c = env.mod(L.COMMON)
  ps = masses(env, 'p', n)
  t = env.real('t', lo=0)
  got = c.list_to_dictionary(list(ps), off, t)
  lost = 0
  state = 0  # 0 lower tail, 1 kept, 2 upper tail
  kept = sorted(got)
  for k in kept:
    env.check(off <= k < off + n, 'no index invented')
    env.check_eq(got[k], ps[k - off], 'kept mass unchanged')
  for i in range(n):
    k = i + off
    if k not in got:
      lost = lost + ps[i]
      if kept and kept[0] < k < kept[-1]:
        env.check_eq(ps[i], 0, 'nothing removed between kept masses')
  env.check_le(lost, t, 'removed mass within the budget')
  low = 0
  for i in range(n):
    if kept and i + off < kept[0]:
      low = low + ps[i]
  env.check_le(low, t / 2, 'at most half the budget from the lower end')


def convolve(env, k1, k2, trunc):
  c = env.mod(L.COMMON)
  ps, qs = masses(env, 'p', len(k1)), masses(env, 'q', len(k2))
  want = L.conv(dict(zip(k1, ps)), dict(zip(k2, qs)))
  if not trunc:
    got = c.convolve_dictionary(dict(zip(k1, ps)), dict(zip(k2, qs)))
    L.check_same_masses(env, got, want, 'convolution')
    return
  t = env.real('t', lo=0)
  got = c.convolve_dictionary(dict(zip(k1, ps)), dict(zip(k2, qs)), t)
  lost = 0
  for k in sorted(want):
    if k in got:
      env.check_eq(got[k], want[k], 'kept mass')
    else:
      lost = lost + want[k]
  env.check(set(got) <= set(want), 'no index invented')
  env.check_le(lost, t, 'removed mass within the budget')


def selfc(env, n, m):
  c = env.mod(L.COMMON)
  ps = masses(env, 'p', m)
  lb, got = c.self_convolve(env.np.array(ps), n)
  want = power(dict(enumerate(ps)), n)
  lb = int(lb)
  env.check(lb == 0, 'no truncation keeps the lower end')
  env.check(len(got) == (m - 1) * n + 1, 'full length')
  for i in range(len(got)):
    env.check_eq(got[i], want.get(i, 0), 'self-convolution [%d]' % i)


def selfd(env, keys, n):
  c = env.mod(L.COMMON)
  ps = masses(env, 'p', len(keys))
  got = c.self_convolve_dictionary(dict(zip(keys, ps)), n)
  want = power(dict(zip(keys, ps)), n)
  L.check_same_masses(env, got, want, 'self-convolution')


def window(env, n, m, lb, ub):
  """With bounds [lb, ub], entries inside equal the convolution plus wrap-around of
  the mass outside, never less."""
  from se import core
  c = env.mod(L.COMMON)
  ps = masses(env, 'p', m)
  seen = []

  def bounds(*a, **k):
    seen.append(1)
    return lb, ub
  c.compute_self_convolve_bounds = bounds
  l, got = c.self_convolve(env.np.array(ps), n, 0.5)
  if not seen:
    raise core.Inconclusive('truncation bounds are computed elsewhere')
  want = power(dict(enumerate(ps)), n)
  env.check(int(l) == lb, 'lower bound returned')
  env.check(len(got) == ub - lb + 1, 'window length')
  out = 0
  for k in sorted(want):
    if not lb <= k <= ub:
      out = out + want[k]
  extra = 0
  for i in range(len(got)):
    env.check_le(want.get(lb + i, 0), got[i], 'window entry at least the convolution')
    extra = extra + got[i] - want.get(lb + i, 0)
  env.check_le(extra, out, 'at most the outside mass wraps around')


def empty(env):
  c = env.mod(L.COMMON)
  env.check(not c.list_to_dictionary([], 3), 'empty list gives empty dictionary')
  off, lst = c.dictionary_to_list({})
  env.check(len(lst) == 0, 'empty dictionary gives empty list')


def cases(tier):
  out = []
  for k in ([0], [-2], [3, 4, 5], [-3, 0, 2], [-4, -1]):
    out.append(Case('round-%s' % '_'.join(map(str, k)), roundtrip, kw=dict(keys=k)))
  for n in (1, 2, 3, 4) + ((5, 6) if tier == 'thorough' else ()):
    out.append(Case('trunc-%d' % n, truncate, kw=dict(n=n, off=-1 if n % 2 else 4)))
  for a, b in (([0], [0]), ([-2, 1], [0, 3]), ([1, 2], [-5, -4, -2]), ([2], [-1, 1])):
    for t in (False, True):
      out.append(Case('conv-%s-%s-%s' % (a, b, t), convolve, kw=dict(k1=a, k2=b, trunc=t)))
  for n, m in ((1, 1), (1, 3), (2, 2), (3, 2), (2, 3), (4, 2), (5, 2), (3, 3)) + (
      ((6, 2), (4, 3), (7, 2)) if tier == 'thorough' else ()):
    out.append(Case('self-%d-%d' % (n, m), selfc, kw=dict(n=n, m=m)))
  for k, n in (([0, 1], 2), ([-1, 1], 3), ([-3, -2], 2), ([2, 5], 2), ([4], 3)):
    out.append(Case('selfd-%s-%d' % (k, n), selfd, kw=dict(keys=k, n=n)))
  for n, m, lb, ub in ((3, 2, 1, 2), (2, 3, 1, 3), (3, 3, 2, 4), (4, 2, 0, 2), (4, 2, 2, 4),
                       (1, 3, 1, 1), (1, 4, 1, 2), (2, 3, 2, 2), (2, 4, 2, 3), (2, 5, 3, 5)):
    out.append(Case('window-%d-%d-%d-%d' % (n, m, lb, ub), window,
                    kw=dict(n=n, m=m, lb=lb, ub=ub)))
  out.append(Case('empty', empty))
  return out
