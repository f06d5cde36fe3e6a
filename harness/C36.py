"""C36: clustering results label by nearest center and report consistent metrics."""
import math
from se import core
from se.runner import Case
from harness import clulib as K

FUNCTIONS = ['clustering_algorithm.ClusteringResult / cross_label_histogram / '
             'get_clustering_metrics', 'clustering_algorithm.ClusteringMetrics']
BOUNDS = ['1 to 3 points and 1 to 3 centers of dimension 1 to 2, symbolic coordinates; '
          'histograms of up to 3 x 3 (thorough 4 x 4) symbolic counts with at least one pair of '
          'either kind; label assignments of 3 '
          '(4) points over 3 clusters and 2 (3) true labels']


def result(env, m, k, dim):
  A, P = env.mod(K.ALG), env.mod(K.PARAMS)
  x, c = K.points(env, m, dim), K.points(env, k, dim, 'c')
  r = A.ClusteringResult(P.Data(x, 1.0), c)
  env.check(len(r.labels) == m, 'one label per point')
  tot = 0
  for i in range(m):
    d = []
    for l in range(k):
      t = 0
      for j in range(dim):
        t = t + (c[l, j] - x[i, j]) * (c[l, j] - x[i, j])
      d.append(t)
    l = int(r.labels[i])
    env.check(0 <= l < k, 'labels are indices of centers')
    for e in d:
      env.check_le(d[l], e, 'nearest center')
    tot = tot + d[l]
  env.check_eq(r.loss, tot, 'loss is the sum of squared distances')


def given(env, dim):
  """Labels and loss that are given are kept if they fit, else refused."""
  A, P, np = env.mod(K.ALG), env.mod(K.PARAMS), env.np
  m = env.int('m', 1, 2)
  x = env.np.array([[0.0, 1.0]] * m)
  k = env.int('k', 1, 2)
  c = env.np.array([[float(j) for j in range(dim)]] * k)
  n = env.int('n', 0, 2)
  labels = [env.int('l%d' % i, -1, 2) for i in range(n)]
  has_l, has_loss = env.bool('hl'), env.bool('hs')
  loss = env.real('loss', lo=0)
  data = P.Data(x, 1.0)
  r, ex = env.call(lambda: A.ClusteringResult(
      data, c, np.array(labels, dtype=int) if has_l else None, loss if has_loss else None))
  if not has_l and not has_loss:
    if dim == 2:
      env.check(ex is None, 'computed if not given')
    return
  good = (has_l and has_loss and n == m and dim == 2 and
          all(0 <= l < k for l in labels))
  if not good:
    env.check(isinstance(ex, ValueError), 'inconsistent results are refused')
    return
  if ex is not None:
    raise ex
  env.check([int(l) for l in r.labels] == labels, 'given labels kept')
  env.check_eq(r.loss, loss, 'given loss kept')


def defined(env, H, M, rows, cols):
  """H: histogram entries; checks the metrics against the pair definitions."""
  tot = 0
  for i in range(rows):
    for j in range(cols):
      tot = tot + H[i][j]
  env.check_eq(M.num_points, tot, 'number of points')
  cells = [(i, j) for i in range(rows) for j in range(cols)]
  same_true = non = false = fmatch = 0
  for a in range(len(cells)):
    i, j = cells[a]
    h = H[i][j]
    same_true = same_true + h * (h - 1) / 2
    for b in range(a):
      k, l = cells[b]
      pr = h * H[k][l]
      if j == l:
        same_true = same_true + pr
        non = non + pr
      else:
        false = false + pr
        if i == k:
          fmatch = fmatch + pr
  env.check_eq(M.true_pairs, same_true, 'pairs with the same true label')
  env.check_eq(M.true_nonmatch_count, non, 'of them in different clusters')
  env.check_eq(M.false_pairs, false, 'pairs with different true labels')
  env.check_eq(M.false_match_count, fmatch, 'of them in the same cluster')
  if env.fork(same_true > 0):
    env.check_eq(M.true_nonmatch_frac * same_true, non, 'fraction of true non-matches')
  if env.fork(false > 0):
    env.check_eq(M.false_match_frac * false, fmatch, 'fraction of false matches')
  best = 0
  for i in range(rows):
    m = H[i][0]
    for j in range(1, cols):
      if env.fork(H[i][j] > m):
        m = H[i][j]
    best = best + m
  env.check_eq(M.dominant_label_correct_count, best, 'points with the dominant label')
  if env.fork(tot > 0):
    env.check_eq(M.dominant_label_accuracy * tot, best, 'dominant label accuracy')


def metrics(env, rows, cols):
  A, np = env.mod(K.ALG), env.np
  H = [[env.real('h%d_%d' % (i, j), lo=0) for j in range(cols)] for i in range(rows)]
  # enough points that both kinds of pair exist
  env.assume(sum((H[i][0] for i in range(1, rows)), H[0][0]) >= 2)
  env.assume(sum((H[i][1] for i in range(1, rows)), H[0][1]) >= 1)
  M = A.ClusteringMetrics(np.array([list(r) for r in H]))
  defined(env, H, M, rows, cols)


def histogram(env, m, kc, kt):
  """From labels: the histogram and the metrics made from it."""
  A, P, np = env.mod(K.ALG), env.mod(K.PARAMS), env.np
  x = K.points(env, m, 1)
  c = K.points(env, kc, 1, 'c')
  lab = [env.int('l%d' % i, 0, kc - 1) for i in range(m)]
  true = [env.int('t%d' % i, 0, kt - 1) for i in range(m)]
  r = A.ClusteringResult(P.Data(x, 1.0, np.array(true)), c, np.array(lab), 1.0)
  h = r.cross_label_histogram()
  n = 0
  for i in range(h.shape[0]):
    for j in range(h.shape[1]):
      w = sum(1 for a, b in zip(lab, true) if (a, b) == (i, j))
      env.check(int(h[i, j]) == w, 'histogram counts the label pairs')
      n += w
  env.check(n == m, 'every point in the histogram')
  if len(set(true)) > 1 and len(set(true)) < m:
    M = r.get_clustering_metrics()
    H = [[int(h[i, j]) for j in range(h.shape[1])] for i in range(h.shape[0])]
    defined(env, H, M, h.shape[0], h.shape[1])


def unlabelled(env):
  A, P, np = env.mod(K.ALG), env.mod(K.PARAMS), env.np
  r = A.ClusteringResult(P.Data(K.points(env, 2, 1), 1.0), K.points(env, 1, 1, 'c'))
  env.check(env.raises(r.cross_label_histogram, ValueError) is not None, 'no histogram without labels')
  env.check(env.raises(r.get_clustering_metrics, ValueError) is not None, 'no metrics without labels')


def cases(tier):
  q = tier == 'quick'
  out = [Case('given-%d' % d, given, kw=dict(dim=d)) for d in (1, 2, 3)] + [Case('unlabelled', unlabelled)]
  for m, k, dim in ((1, 1, 1), (1, 2, 1), (2, 2, 1), (2, 3, 1), (1, 3, 2), (2, 2, 2)) + (
      () if q else ((3, 2, 1), (3, 3, 1), (2, 3, 2))):
    out.append(Case('result-%d-%d-%d' % (m, k, dim), result, kw=dict(m=m, k=k, dim=dim)))
  for a, b in ((1, 2), (2, 2), (3, 2), (2, 3)) + (() if q else ((3, 3), (4, 2))):
    out.append(Case('metrics-%d-%d' % (a, b), metrics, kw=dict(rows=a, cols=b)))
  for m, kc, kt in ((3, 2, 2), (3, 3, 2)) if q else ((3, 3, 3), (4, 2, 3)):
    out.append(Case('histogram-%d-%d-%d' % (m, kc, kt), histogram, kw=dict(m=m, kc=kc, kt=kt)))
  return out
