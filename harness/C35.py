"""C35: private sums and counts are noised exactly as accounted."""
import math
from se import core
from se.runner import Case
from harness import clulib as K
from harness.rnglib import Draws

FUNCTIONS = ['central_privacy_utils.get_private_average / get_private_count / '
             'AveragePrivacyParam / CountPrivacyParam', 'LshTreeNode.get_private_average / '
             'get_private_count / children, LshTree', 'default_clustering_params.default_tree_param']
BOUNDS = ['0 to 3 (quick) / 5 (thorough) points of dimension 1 to 2 (3) with symbolic '
          'coordinates; symbolic noise outcomes, noise parameters and counts; call sequences of '
          'length 4 (6) on a node; trees of up to 2 (3) points and depth 2']


def std(env, zero):
  return 0 if zero else env.pos('std')


def close(env, xs, ys, label):
  env.check(len(xs) == len(ys), label + ' (length)')
  for x, y in zip(xs, ys):
    env.check_eq(x, y, label)


def average(env, m, dim, zero):
  U = env.mod(K.UTILS)
  d = Draws(env)
  x = K.points(env, m, dim)
  keep = [[x[i, j] for j in range(dim)] for i in range(m)]
  s = std(env, zero)
  n = env.real('count')
  p = U.AveragePrivacyParam(s, env.pos('radius'))
  r, ex = env.call(lambda: U.get_private_average(x, n, p, dim))
  if env.fork(n < 1):
    env.check(isinstance(ex, ValueError), 'counts below one are refused')
    env.check(not d.log, 'nothing drawn for a refused average')
    return
  if ex is not None:
    raise ex
  env.check(len(r) == dim, 'one value per coordinate')
  used = [w for w in d.log]
  if not zero:
    env.check(len(used) == dim, 'one draw per coordinate')
    for w in used:
      env.check(w.kind == 'normal', 'Gaussian noise')
  for j in range(dim):
    t = 0
    for i in range(m):
      t = t + keep[i][j]
    if not zero:
      t = t + s * used[j].z
    env.check_eq(r[j] * n, t, 'average is the noised sum over the private count')
  for i in range(m):
    close(env, [x[i, j] for j in range(dim)], keep[i], 'points unchanged')


def count(env, inf):
  U = env.mod(K.UTILS)
  d = Draws(env)
  n = env.nat('n', 0, 1000) if env.symbolic else env.nat('n', 0, 1000)
  a = math.inf if inf else env.pos('a')
  r = U.get_private_count(n, U.CountPrivacyParam(a))
  if inf:
    env.check_eq(r, n, 'exact count without noise')
    return
  env.check(len(d.log) == 1 and d.log[0].kind == 'dlaplace', 'one discrete Laplace draw')
  env.check_eq(d.log[0].scale, a, 'noise of the stated parameter')
  env.check_eq(r, n + d.log[0].z, 'count plus noise')


def params(env):
  U = env.mod(K.UTILS)
  s, c, a = env.real('s'), env.real('c'), env.real('a')
  r = env.raises(lambda: U.AveragePrivacyParam(s, c), ValueError)
  if env.fork(s < 0):
    env.check(r is not None, 'negative deviations are refused')
  elif env.fork(c <= 0):
    env.check(r is not None, 'sensitivities that are not positive are refused')
  else:
    env.check(r is None, 'valid parameters accepted')
  r = env.raises(lambda: U.CountPrivacyParam(a), ValueError)
  env.check((r is not None) == bool(env.fork(a <= 0)), 'count parameters validated')


def node(env, steps, m, dim, given):
  """An arbitrary sequence of queries on a node."""
  T = env.mod(K.TREE)
  S = env.mod(K.LSH)
  d = Draws(env)
  x = K.points(env, m, dim)
  s, a = env.pos('std'), env.pos('a')
  cp = K.coreset(env, K.Pcalc(env, s, env.pos('radius'), a), 3, 1, 2)
  hash_ = S.SimHash(dim, 2, projection_vectors=env.np.ones((2, dim)))
  c0 = env.real('given') if given else None
  nd = T.LshTreeNode('', x, cp, hash_, private_count=c0)
  cnt = avg = None
  for k in range(steps):
    q = env.choice('q%d' % k, ['count', 'average', 'attr'])
    if q == 'average':
      v, ex = env.call(nd.get_private_average)
      n = c0 if given else m + [w for w in d.log if w.kind == 'dlaplace'][0].z
      if env.fork(n < 1):
        env.check(isinstance(ex, ValueError), 'counts below one are refused')
        env.check(avg is None, 'refused from the start')
        continue
      if ex is not None:
        raise ex
      zs = [w for w in d.log if w.kind == 'normal']
      env.check(len(zs) == dim, 'the sum is noised once')
      for j in range(dim):
        t = s * zs[j].z
        for i in range(m):
          t = t + x[i, j]
        env.check_eq(v[j] * n, t, 'average of the points of the node over its own count')
      if avg is not None:
        close(env, list(v), avg, 'the same average each time')
      avg = list(v)
    else:
      v = nd.get_private_count() if q == 'count' else nd.private_count
      if given:
        env.check_eq(v, c0, 'a given count is kept')
      else:
        lap = [w for w in d.log if w.kind == 'dlaplace']
        env.check(len(lap) == 1, 'the count is noised once')
        env.check_eq(lap[0].scale, a, 'noise of the stated parameter')
        env.check_eq(v, m + lap[0].z, 'count plus noise')
  env.check(len([w for w in d.log if w.kind == 'dlaplace']) == (0 if given else 1),
            'one count draw for the node')


def default(env, m, k, inf):
  """The count the default thresholds are based on is the one handed back."""
  D = env.mod(K.DEFAULT)
  P = env.mod(K.PARAMS)
  d = Draws(env)
  data = P.Data(K.points(env, m, 1), env.pos('radius'))
  a = math.inf if inf else env.pos('a')
  ratio = env.choice('ratio', [0, 0.05, 0.3, 2, 7])
  pc = K.Pcalc(env, ratio * data.radius if ratio else 0, data.radius, a)
  real = d.one

  def one(kind, loc, scale):
    if kind != 'dlaplace':
      return real(kind, loc, scale)
    v = env.int('noise', -3, 3) * 4
    from harness.rnglib import Draw
    d.log.append(Draw(kind, loc, scale, v, v, 0))
    return v
  d.one = one
  t, c = D.default_tree_param(k, data, pc, env.int('depth', 1, 2))
  env.check(len(d.log) == (0 if inf else 1), 'one count draw')
  if not inf:
    env.check_eq(d.log[0].scale, a, 'noise of the stated parameter')
  env.check_eq(c, m if inf else m + d.log[0].z, 'the count handed back is the noised one')
  env.check(t.min_num_points_in_node >= 1, 'threshold at least one')
  env.check(t.min_num_points_in_branching_node >= t.min_num_points_in_node, 'thresholds ordered')


def tree(env, m, depth, given, known=None):
  """In a whole tree every node has its own points' count, noised by a draw of its own."""
  T = env.mod(K.TREE)
  S = env.mod(K.LSH)
  d = Draws(env)
  if known:
    real = d.one

    def one(kind, loc, scale):
      v = real(kind, loc, scale)
      env.assume(d.log[-1].z >= 1)  # every node is kept and branches
      return v
    d.one = one
  x = env.np.array(known) if known else K.points(env, m, depth)
  eye = env.np.array([[1.0 if i == j else 0.0 for j in range(depth)] for i in range(depth)])
  h = S.SimHash(depth, depth, projection_vectors=eye)
  a = env.pos('a')
  cp = K.coreset(env, K.Pcalc(env, 0, 1.0, a), 1, 1, depth)
  root = T.LshTreeNode('', x, cp, h, private_count=env.real('root', lo=1) if given else None)
  if not given:
    env.assume(root.private_count >= 1)
  t = T.LshTree(root)
  free = [w for w in d.log if w.kind == 'dlaplace']
  for w in free:
    env.check_eq(w.scale, a, 'noise of the stated parameter')
  for l in sorted(t.tree):
    for n in t.tree[l]:
      if n is root and given:
        continue
      k = len(n.nonprivate_points)
      hit = [w for w in free if K.identical(env, n.private_count, k + w.z)]
      env.check(bool(hit), 'count of the points of the node plus a draw of its own')
      if not hit:
        return
      free.remove(hit[0])


def cases(tier):
  q = tier == 'quick'
  out = [Case('params', params), Case('count', count, kw=dict(inf=False)),
         Case('count-inf', count, kw=dict(inf=True))]
  for m in range(0, 4 if q else 6):
    for dim in (1, 2) if q else (1, 2, 3):
      for zero in (False, True):
        out.append(Case('average-%d-%d-%s' % (m, dim, zero), average, kw=dict(
            m=m, dim=dim, zero=zero)))
  for m in (0, 2):
    for given in (False, True):
      out.append(Case('node-%d-%s' % (m, given), node, kw=dict(
          steps=4 if q else 6, m=m, dim=1 if q else 2, given=given)))
  for i, known in enumerate(([[1.5, -2.0]], [[1.0, 2.0], [3.0, 0.5]], [[1.0, 2.0], [3.0, -0.5]],
                             [[-1.0, 2.0], [3.0, -0.5]])):
    for given in (False, True):
      out.append(Case('tree-known-%d-%s' % (i, given), tree, kw=dict(
          m=len(known), depth=2, given=given, known=known), opts=dict(blind=False)))
  for m, depth in ((1, 1), (2, 1)) + (() if q else ((3, 1), (1, 2), (2, 2))):
    for given in (False, True):
      out.append(Case('tree-%d-%d-%s' % (m, depth, given), tree, kw=dict(
          m=m, depth=depth, given=given)))
  for m in (0, 1, 3):
    for k in (1, 3):
      for inf in (False, True):
        out.append(Case('default-%d-%d-%s' % (m, k, inf), default, kw=dict(m=m, k=k, inf=inf)))
  return out
