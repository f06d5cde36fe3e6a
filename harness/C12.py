"""C12: RDP of single-epoch tree aggregation."""
import math
from se import core
from se.runner import Case
from harness import rdplib as R

FUNCTIONS = ['RdpAccountant.compose (SingleEpochTreeAggregationDpEvent)',
             '_compute_rdp_single_epoch_tree_aggregation']
BOUNDS = ['up to 3 trees (quick) / 4 (thorough), steps per tree symbolic up to 200 (10^6 thorough), '
          'treated as reals (the depth is then the ceiling of the base-2 logarithm, proved for '
          'every value in between), plus every count next to a power of two up to 2^39; noise multiplier symbolic; orders 1.5, 2, 8']
ORD = [1.5, 2, 8]


def tree(env, sigma, steps, orders=ORD, n=1, relation='REPLACE_SPECIAL'):
  acc = R.accountant(env, orders, relation)
  acc.compose(env.event().SingleEpochTreeAggregationDpEvent(sigma, steps), n)
  return R.curve(acc)


def largest(env, steps):
  m = steps[0]
  for s in steps[1:]:
    m = s if env.fork(s > m) else m
  return m


def depth(env, m):
  """Smallest d with m + 1 <= 2**d: the nodes a record contributes to."""
  d = 0
  while not env.fork(m + 1 <= 2**d):
    d += 1
  return d


def value(env, n, top, scalar=False):
  sigma = env.pos('sigma')
  steps = [env.nat('steps%d' % i, 0, top) for i in range(n)]
  k = env.int('count', 1, 2)
  if scalar:
    env.assume(steps[0] >= 1)
  got = tree(env, sigma, steps[0] if scalar else steps, ORD, k)
  d = depth(env, largest(env, steps))
  for a, r in zip(ORD, got):
    env.check_eq(r, k * d * env.num(a) / (2 * sigma**2), 'Gaussian cost times the largest depth')


def grows(env, n, top):
  sigma = env.pos('sigma')
  steps = [env.nat('steps%d' % i, 0, top) for i in range(n)]
  more = env.nat('more', 0, top)
  i = env.int('which', 0, n - 1)
  a = tree(env, sigma, steps, [2])[0]
  bigger = steps[:i] + [steps[i] + more] + steps[i + 1:]
  env.check_le(a, tree(env, sigma, bigger, [2])[0], 'a larger tree is not cheaper')
  env.check_le(a, tree(env, sigma, steps + [more], [2])[0], 'another tree is not cheaper')


def powers(env, ks):
  """Step counts around powers of two, where the depth changes."""
  sigma = env.pos('sigma')
  k = env.choice('k', ks)
  m = max(0, 2**k + env.choice('off', [-2, -1, 0, 1]))
  steps = [[m], [3, m], m][env.choice('form', [0, 1, 2] if m >= 3 else [0])]
  got = tree(env, sigma, steps, [2])
  d = depth(env, m)
  env.check_eq(got[0], d / sigma**2, 'Gaussian cost times the largest depth')


def edges(env):
  kind = env.choice('kind', ['zero-noise', 'inf-noise', 'neg-noise', 'neg-steps', 'neg-scalar', 'empty',
                             'no-steps', 'relation', 'zero-noise-inf'])
  sigma = env.pos('sigma')
  s = env.nat('s', 1, 50)
  if kind == 'zero-noise':
    for r in tree(env, 0.0, [s]):
      env.check_eq(r, math.inf, 'no noise: infinite divergence')
  elif kind == 'zero-noise-inf':
    env.check_eq(tree(env, 0.0, [s], [math.inf])[0], math.inf, 'no noise, infinite order')
  elif kind == 'inf-noise':
    for r in tree(env, math.inf, [s]):
      env.check_eq(r, 0, 'unlimited noise')
  elif kind == 'no-steps':
    for r in tree(env, sigma, [0, 0]):
      env.check_eq(r, 0, 'trees without steps cost nothing')
  elif kind == 'relation':
    e = env.raises(lambda: tree(env, sigma, [s], ORD, 1, env.choice('r', ['ADD_OR_REMOVE_ONE', 'REPLACE_ONE'])),
                   env.mod(R.PACC).UnsupportedEventError)
    env.check(e is not None, 'refused under other relations')
  else:
    neg = -s
    f = {'neg-noise': lambda: tree(env, -sigma, [s]),
         'neg-steps': lambda: tree(env, sigma, [s, neg, 3] if env.bool('mid') else [neg]),
         'neg-scalar': lambda: tree(env, sigma, neg),
         'empty': lambda: tree(env, sigma, [] if env.bool('l') else 0)}[kind]
    env.check(env.raises(f, ValueError) is not None, 'invalid %s refused' % kind)
  env.reach(kind)


def cases(tier):
  q = tier == 'quick'
  top = 200 if q else 10**6
  out = [Case('value-%d' % n, value, kw=dict(n=n, top=top)) for n in ((1, 2, 3) if q else (1, 2, 3, 4))]
  out += [Case('scalar', value, kw=dict(n=1, top=top, scalar=True)), Case('edges', edges)]
  out += [Case('grows-%d' % n, grows, kw=dict(n=n, top=40 if q else 300)) for n in ((1, 2) if q else (1, 2, 3))]
  for i in range(4):
    out.append(Case('powers-%d' % i, powers, kw=dict(ks=list(range(i, 40, 4)))))
  return out
