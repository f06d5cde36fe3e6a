"""Shared by the clustering harnesses."""
from se import core
from harness import acclib

CALC = 'clustering.privacy_calculator'
PARAMS = 'clustering.clustering_params'
UTILS = 'clustering.central_privacy_utils'
TREE = 'clustering.lsh_tree'
LSH = 'clustering.lsh'
CORE = 'clustering.coreset_params'
ALG = 'clustering.clustering_algorithm'
DEFAULT = 'clustering.default_clustering_params'


def points(env, m, dim, name='x'):
  return env.np.array([[env.real('%s%d_%d' % (name, i, j)) for j in range(dim)]
                       for i in range(m)]) if m else env.np.zeros((0, dim))


class Pcalc:
  """A budget calculator with given noise parameters."""

  def __init__(self, env, std, radius, lap):
    U = env.mod(UTILS)
    self.average_privacy_param = U.AveragePrivacyParam(std, radius)
    self.count_privacy_param = U.CountPrivacyParam(lap)


def coreset(env, pcalc, branch, node, depth, radius=1.0):
  P = env.mod(PARAMS)
  return env.mod(CORE).CoresetParam(pcalc, P.TreeParam(branch, node, depth), 'd', radius)


def match(env, rows, x, dim):
  """Indices of the points of x the rows are; each point once."""
  left = list(range(len(x)))
  out = []
  for p in rows:
    for i in left:
      if all((p[j] is x[i, j]) if env.symbolic else p[j] == x[i, j] for j in range(dim)):
        out.append(i)
        left.remove(i)
        break
    else:
      env.fail('only points of the data, each once')
  return out


def identical(env, a, b):
  """Whether two values are the same expression (equal up to rounding on a replay)."""
  if env.symbolic:
    d = a - b
    if core.sym(d):
      d = d.const()
    return d is not None and d == 0
  return abs(a - b) <= 1e-9 * (1 + abs(a))


class KMeans:
  """Stands for the (public) clustering of the private coreset."""
  seen = None

  def __init__(self, n_clusters=8, init=None, **kw):
    self.n = n_clusters

  def fit(self, x, y=None, sample_weight=None):
    KMeans.seen = (x, sample_weight)
    self.cluster_centers_ = x[:1]
    return self


def run(env, m, dim, given_tree, depth=1, x=None, thr=None, counts=None, sums_noise=True):
  """Runs the whole algorithm; returns the draws, data, result, point sets summed and the
  noise parameters handed out."""
  from harness.rnglib import Draw, Draws
  A = env.mod(ALG)
  P = env.mod(PARAMS)
  U = env.mod(UTILS)
  C = env.mod(CALC)
  A.sklearn.cluster.KMeans = KMeans
  radius = env.pos('radius')
  data = P.Data(x if x is not None else points(env, m, dim), radius)
  std = env.pos('std') if given_tree else radius / 8
  lap = env.pos('lap')
  made = []

  class Pc:
    def __init__(self, privacy_param, radius, max_depth, multipliers):
      self.average_privacy_param = U.AveragePrivacyParam(std, radius)
      self.count_privacy_param = U.CountPrivacyParam(lap)
      self.args = (privacy_param, radius, max_depth, multipliers)
      self.ok = []
      made.append(self)

    def validate_accounting(self, privacy_param, max_depth):
      self.ok.append((privacy_param, max_depth, len(d.log)))
  C.PrivacyCalculator = Pc
  d = Draws(env)
  L = env.mod(LSH)
  hashing = [0]
  init = L.SimHash.__init__

  def sim_init(self, *a, **k):
    hashing[0] += 1
    try:
      init(self, *a, **k)
    finally:
      hashing[0] -= 1
  L.SimHash.__init__ = sim_init
  sums = []
  run.sum_params = []
  real = U.get_private_average

  def average(nonprivate_points, private_count, average_privacy_param, dim):
    sums.append([[p[j] for j in range(dim)] for p in nonprivate_points])
    run.sum_params.append(average_privacy_param)
    if not sums_noise:
      return env.np.zeros(dim)
    return real(nonprivate_points, private_count, average_privacy_param, dim)
  U.get_private_average = average
  # how often each point is counted
  per = [0] * m
  counting = [0]
  count_fn = U.get_private_count

  def count(nonprivate_count, *a, **k):
    counting.append(nonprivate_count)
    try:
      return count_fn(nonprivate_count, *a, **k)
    finally:
      counting.pop()
  U.get_private_count = count
  T = env.mod(TREE)
  orig = T.LshTreeNode.get_private_count

  def node_count(self):
    n0 = len([w for w in d.log if w.kind == 'dlaplace'])
    v = orig(self)
    n1 = len([w for w in d.log if w.kind == 'dlaplace'])
    if n1 > n0:
      for i in match(env, self.nonprivate_points, run.clipped, dim):
        per[i] += n1 - n0
    return v
  if x is not None:
    T.LshTreeNode.get_private_count = node_count
  D = env.mod(DEFAULT)
  dflt = D.default_tree_param

  def default(*a, **k):
    for i in range(m):
      per[i] += 1
    return dflt(*a, **k)
  D.default_tree_param = default
  run.per_point = per
  clip = P.Data.clip_by_radius

  def clipper(self, *a, **k):
    out = clip(self, *a, **k)
    if run.clipped is None:
      run.clipped = out
    return out
  P.Data.clip_by_radius = clipper
  run.clipped = None
  pp = P.DifferentialPrivacyParam(env.pos('eps'), env.real('delta', lo=0, hi=1, hi_open=True))
  tree = None
  if given_tree:
    t = thr or (1, 1)
    tree = P.TreeParam(t[1], t[0], depth)
  if counts is not None:
    one = d.one

    def fixed(kind, loc, scale):
      if kind == 'dlaplace':
        z = counts(len(d.log), counting[-1])
      elif hashing[0]:
        kind = 'hash'
        z = (1, -1)[len(d.log) % 2]       # projections
      else:
        return one(kind, loc, scale)
      v = loc + z
      d.log.append(Draw(kind, loc, scale, z, v, d.calls))
      return v
    d.one = fixed
  res = A.private_lsh_clustering(1, data, pp, tree_param=tree)
  pc = made[0]
  run.calc = pc
  run.param = pp
  run.std, run.lap = std, lap
  return d, data, res, sums, pc.average_privacy_param
