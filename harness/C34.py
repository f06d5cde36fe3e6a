"""C34: the hash tree partitions the data, one node per level for each point."""
import math
from se import core
from se.runner import Case
from harness import clulib as K
from harness.rnglib import Draws

FUNCTIONS = ['lsh.SimHash.group_by_next_hash', 'lsh_tree.LshTree / LshTreeNode.children / '
             'is_leaf / filter_branching_nodes / get_next_level / root_node']
BOUNDS = ['hashing: up to 3 (quick) / 4 (thorough) points of dimension 1 to 2, symbolic '
          'coordinates and projections; trees: up to 2 points and depth 2 (thorough 3 points or '
          'depth 3) with symbolic hash values, counts and thresholds']


def hashing(env, m, dim, depth):
  S = env.mod(K.LSH)
  x = K.points(env, m, dim)
  v = K.points(env, depth, dim, 'v')
  h = S.SimHash(dim, depth, projection_vectors=v)
  k = env.int('prefix', 0, depth)
  prefix = '01' * depth
  g, ex = env.call(lambda: h.group_by_next_hash(x, prefix[:k]))
  if k == depth:
    env.check(isinstance(ex, ValueError), 'no hash beyond the maximum')
    return
  if ex is not None:
    raise ex
  env.check(sorted(g) == ['0', '1'], 'one group per bit')
  want = {'0': [], '1': []}
  for i in range(m):
    p = 0
    for j in range(dim):
      p = p + x[i, j] * v[k, j]
    want['0' if env.fork(p >= 0) else '1'].append(i)
  for b in '01':
    env.check(sorted(K.match(env, g[b], x, dim)) == want[b], 'each point in the group of its bit')

def default_hash(env):
  S = env.mod(K.LSH)
  d = Draws(env)
  dim, n = env.int('dim', 1, 2), env.int('n', 0, 2)
  h = S.SimHash(dim, n)
  env.check(h.projection_vectors.shape == (n, dim), 'one projection per hash bit')
  env.check(len(d.log) == n * dim, 'independent coordinates')
  for w in d.log:
    env.check(w.kind == 'normal', 'standard normal projections')
    env.check_eq(w.scale, 1, 'standard normal projections')
    env.check_eq(w.loc, 0, 'standard normal projections')


def tree(env, m, depth, mode):
  """Points with arbitrary hash bits (coordinate d is the projection at depth d)."""
  T = env.mod(K.TREE)
  S = env.mod(K.LSH)
  d = Draws(env)
  # one dimension per level; projection d picks coordinate d
  x = K.points(env, m, depth)
  eye = env.np.array([[1.0 if i == j else 0.0 for j in range(depth)] for i in range(depth)])
  h = S.SimHash(depth, depth, projection_vectors=eye)
  node, branch = env.real('node', lo=1), env.real('branch', lo=1)
  env.assume(node <= branch)
  cp = K.coreset(env, K.Pcalc(env, 0, 1.0, env.pos('a')), branch, node, depth)
  created = []
  init = T.LshTreeNode.__post_init__

  def post(self):
    init(self)
    created.append(self)
  T.LshTreeNode.__post_init__ = post
  if mode == 'private':
    root = T.LshTreeNode('', x, cp, h)
  else:
    root = T.LshTreeNode('', x, cp, h, private_count=env.real('root'))
  t, ex = env.call(lambda: T.LshTree(root))
  if env.fork(root.private_count < 1):
    env.check(isinstance(ex, ValueError), 'roots without points are refused')
    return
  if ex is not None:
    raise ex
  levels = sorted(t.tree)
  env.check(levels == list(range(len(levels))) and len(levels) <= depth + 1,
            'depth never above the maximum')
  env.check(len(t.tree[0]) == 1 and t.tree[0][0] is root, 'root on its own level')
  names = [n.hash_prefix for n in created]
  env.check(len(set(names)) == len(names), 'each node is counted once')

  def ids(n):
    out = sorted(K.match(env, n.nonprivate_points, x, depth))
    return out
  byname = {}
  for l in levels:
    got = [n.hash_prefix for n in t.tree[l]]
    env.check(len(set(got)) == len(got), 'distinct prefixes on a level')
    env.check(bool(got), 'no empty level')
    for n in t.tree[l]:
      env.check(len(n.hash_prefix) == l and set(n.hash_prefix) <= set('01'),
                'prefixes as long as the level')
      byname[n.hash_prefix] = n
  for name, n in byname.items():
    if not name:
      continue
    env.check(bool(env.fork(n.private_count >= node)), 'only nodes with enough points appear')
    par = byname.get(name[:-1])
    env.check(par is not None, 'parent in the tree')
    if par is None:
      return
    env.check(bool(env.fork(par.private_count >= branch)), 'only nodes with enough points branch')
    want = [i for i in ids(par) if bool(env.fork(x[i, len(name) - 1] >= 0)) == (name[-1] == '0')]
    env.check(ids(n) == want, 'points of the parent with the next bit')
  # completeness
  have = {n.hash_prefix: n for n in created}
  kids = set()
  for name, n in byname.items():
    if len(name) < depth and env.fork(n.private_count >= branch):
      for b in '01':
        c = have.get(name + b)
        if c is None:
          raise core.Inconclusive('children are made in a way the harness does not know')
        if env.fork(c.private_count >= node):
          env.check(name + b in byname, 'children with enough points appear')
    for b in '01':
      if name + b in byname:
        kids.add(name)
  leaves = [n.hash_prefix for n in t.leaves]
  env.check(sorted(leaves) == sorted(set(byname) - kids), 'leaves are the nodes without children')
  for n in t.leaves:
    env.check(byname[n.hash_prefix] is n, 'leaves are nodes of the tree')


def root(env):
  T = env.mod(K.TREE)
  P = env.mod(K.PARAMS)
  d = Draws(env)
  m, depth = env.int('m', 1, 2), env.int('depth', 1, 3)
  x = K.points(env, m, 2)
  cp = K.coreset(env, K.Pcalc(env, 0, 1.0, env.pos('a')), 1, 1, depth)
  n = T.root_node(P.Data(x, 1.0), cp)
  env.check(n.hash_prefix == '' and len(n.nonprivate_points) == m, 'root holds all points')
  env.check(n.sim_hash.max_hash_len == depth and n.sim_hash.dim == 2, 'hash as long as the tree')
  env.check(len([w for w in d.log if w.kind == 'dlaplace']) == 1, 'root counted once')
  c = env.real('count')
  k = len(d.log)
  n = T.root_node(P.Data(x, 1.0), cp, c)
  env.check_eq(n.private_count, c, 'a given count is kept')
  env.check(all(w.kind == 'normal' for w in d.log[k:]), 'no second count')


def thresholds(env):
  P = env.mod(K.PARAMS)
  a, b = env.real('branch'), env.real('node')
  r = env.raises(lambda: P.TreeParam(a, b, 3), ValueError)
  ok = env.fork(b >= 1) and env.fork(a >= b)
  env.check((r is None) == bool(ok), 'thresholds validated')


def cases(tier):
  q = tier == 'quick'
  out = [Case('default-hash', default_hash), Case('root', root), Case('thresholds', thresholds)]
  for m in range(0, 4 if q else 5):
    for dim in (1, 2):
      out.append(Case('hash-%d-%d' % (m, dim), hashing, kw=dict(m=m, dim=dim, depth=2)))
  for m, depth in ((0, 1), (1, 1), (2, 1), (3, 1), (1, 2), (2, 2)) + (() if q else ((3, 2), (1, 3))):
    for mode in ('private', 'given') if m < 3 and depth < 3 else ('private',):
      out.append(Case('tree-%d-%d-%s' % (m, depth, mode), tree, kw=dict(
          m=m, depth=depth, mode=mode)))
  return out
