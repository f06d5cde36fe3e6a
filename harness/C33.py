"""C33: clipping bounds every point by the radius and keeps inner points."""
import math
from se import core
from se.runner import Case
from harness import clulib as K
from harness.rnglib import Draws

FUNCTIONS = ['clustering_params.Data / Data.clip_by_radius',
             'clustering_algorithm.private_lsh_clustering / get_private_coreset (what is summed)']
BOUNDS = ['1 to 3 points (thorough 4) of dimension 1 to 3, symbolic coordinates and radius; '
          'whole algorithm: 1 to 2 points, dimension 1, tree depth 1 or the default, counts '
          'and hash directions fixed']


def sq(xs):
  t = 0
  for x in xs:
    t = t + x * x
  return t


def clip(env, m, dim, given):
  P = env.mod(K.PARAMS)
  r = env.pos('r')
  if given:
    own = K.points(env, 1, dim, 'y')
    data = P.Data(own, r)
    pts = K.points(env, m, dim)
  else:
    pts = K.points(env, m, dim)
    own = pts
    data = P.Data(pts, r, labels=env.np.array([0] * m))
  keep = [[pts[i, j] for j in range(dim)] for i in range(m)]
  keep_own = [own[0, j] for j in range(dim)]
  out = data.clip_by_radius(pts) if given else data.clip_by_radius()
  env.check(out.shape == (m, dim), 'as many points')
  for i in range(m):
    o = [out[i, j] for j in range(dim)]
    n2 = sq(keep[i])
    if env.fork(n2 <= r * r) if env.symbolic else n2 <= r * r * (1 + 1e-12):
      env.reach('inside')
      for a, b in zip(o, keep[i]):
        env.check_eq(a, b, 'inner points unchanged')
    else:
      env.reach('outside')
      env.check_eq(sq(o), r * r, 'outer points moved to the radius')
      for j in range(dim):
        env.check_le(0, o[j] * keep[i][j], 'on the ray to the origin')
        for l in range(j):
          env.check_eq(o[j] * keep[i][l], o[l] * keep[i][j], 'on the ray to the origin')
    for j in range(dim):
      env.check_eq(pts[i, j], keep[i][j], 'original points not modified')
  for j in range(dim):
    env.check_eq(data.datapoints[0, j], keep_own[j], 'original data not modified')


def shape(env):
  P = env.mod(K.PARAMS)
  m, k = env.int('m', 1, 3), env.int('k', 0, 4)
  x = K.points(env, m, 2)
  r = env.raises(lambda: P.Data(x, 1.0, labels=env.np.array([0] * k)), ValueError)
  env.check((r is None) == (m == k), 'as many labels as points')
  d = P.Data(x, 1.0)
  env.check(d.num_points == m and d.dim == 2, 'dimensions of the data')


def whole(env, m, dim, given_tree):
  """Every sum released is one of clipped points only."""
  d, data, res, sums, ap = K.run(env, m, dim, given_tree, counts=lambda i, n: 0,
                                     sums_noise=False)
  if not sums:
    raise core.Inconclusive('the sums are not taken where the harness looks')
  r = data.radius
  clipped = []
  for i in range(m):
    x = [data.datapoints[i, j] for j in range(dim)]
    n2 = sq(x)
    if env.fork(n2 <= r * r):
      clipped.append(x)
    elif dim == 1:
      clipped.append([r if env.fork(x[0] > 0) else -r])
  for s in sums:
    for p in s:
      hit = False
      for c in clipped:
        if all(env.fork(a == b) if env.symbolic else abs(a - b) <= 1e-9 * (1 + abs(b))
               for a, b in zip(p, c)):
          hit = True
          break
      env.check(hit, 'only clipped points are summed')
  env.check_eq(ap.sensitivity, r, 'the sensitivity of the sums is the radius')


def cases(tier):
  q = tier == 'quick'
  out = [Case('shape', shape)]
  for m, dim in ((1, 1), (2, 1), (1, 2), (2, 2), (1, 3), (3, 1)) + (() if q else ((3, 2), (2, 3), (4, 1))):
    for given in (False, True):
      out.append(Case('clip-%d-%d-%s' % (m, dim, given), clip, kw=dict(m=m, dim=dim, given=given),
                      must_reach=('inside', 'outside')))
  for m in (1, 2):
    for t in (False, True):
      out.append(Case('whole-%d-%s' % (m, t), whole, kw=dict(m=m, dim=1, given_tree=t)))
  return out
