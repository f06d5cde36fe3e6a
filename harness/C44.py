"""C44: dataset generators hand out neighbouring datasets and report every result."""
from se import core
from se.runner import Case

GEN = 'dp_auditorium.generators.'
CFG = 'dp_auditorium.configs.dataset_generator_config'
FUNCTIONS = ['vizier_dataset_generator.VizierDatasetGenerator / VizierScalarDataAddRemoveGenerator',
             'classification_dataset_generator.ClassificationDatasetGenerator',
             'pipeline_dp_vizier_dataset_generator.PipelineDpDatasetGenerator',
             'constant_dataset_generator.ConstantDatasetGenerator']
BOUNDS = ['up to 3 parameters (2 x 2 for records with features or partitions), histories of up to '
          '3 calls (thorough 4 parameters, 5 calls), estimates and suggested values symbolic, '
          'suggested in any order of the parameters up to 3']
ASSUMPTIONS = ['the optimizer is a stand-in that suggests arbitrary values within its search space']


class Space:
  def __init__(self):
    self.params = {}

  def add_float_param(self, name, min_value, max_value):
    assert name not in self.params, 'a parameter was added twice'
    self.params[name] = ('float', min_value, max_value)

  def add_int_param(self, name, min_value, max_value):
    assert name not in self.params, 'a parameter was added twice'
    self.params[name] = ('int', min_value, max_value)


class Problem:
  def __init__(self):
    self.search_space = type('S', (), {})()
    self.search_space.root = Space()
    self.metric_information = None


class Metric:
  def __init__(self, name, goal):
    self.name, self.goal = name, goal


class Goal:
  MAXIMIZE = 'maximize'
  MINIMIZE = 'minimize'


class StudyConfig:
  @classmethod
  def from_problem(cls, problem):
    c = cls()
    c.problem, c.algorithm = problem, None
    c.metrics = problem.metric_information
    return c


class Measurement:
  def __init__(self, metrics):
    self.metrics = metrics


class Trial:
  def __init__(self, log, n, parameters):
    self.log, self.n, self.parameters = log, n, parameters

  def complete(self, measurement):
    self.log.append(('complete', self.n, dict(measurement.metrics)))


def vizier(env, order=None):
  """Stand-in for the optimizer; must be called before a generator is loaded."""
  log = []

  class Study:
    @classmethod
    def from_study_config(cls, config, owner=None, study_id=None):
      s = cls()
      s.config = config
      log.append(('study', owner, study_id, config))
      return s

    def suggest(self, count=1):
      n = len([l for l in log if l[0] == 'suggest'])
      params = {}
      space = self.config.problem.search_space.root.params
      names = sorted(space)
      if order:
        names = [names[i % len(names)] for i in order] if len(order) == len(names) else names
      for name in names:
        kind, lo, hi = space[name]
        v = (env.real if kind == 'float' else env.int)('t%d_%s' % (n, name), lo, hi)
        params[name] = v
      log.append(('suggest', n, count, params))
      return [Trial(log, n, params)]
  svc = env.mod('vizier.service')
  clients, vz = env.mod('vizier.service.clients'), env.mod('vizier.service.pyvizier')
  clients.Study, clients.Trial = Study, Trial
  vz.ProblemStatement, vz.MetricInformation, vz.ObjectiveMetricGoal = Problem, Metric, Goal
  vz.StudyConfig, vz.Measurement = StudyConfig, Measurement
  vz.Algorithm = str
  svc.clients, svc.pyvizier = clients, vz
  return log


def scalar_config(env, size, kind, lo, hi):
  C = env.mod(CFG)
  return C.VizierDatasetGeneratorConfig(
      study_name='study', study_owner='owner', num_vizier_parameters=size,
      data_type=getattr(C.DataType, 'DATA_TYPE_' + kind), min_value=lo, max_value=hi,
      search_algorithm='search', metric_name='metric')


def history(env, gen, log, calls, view):
  """Calls the generator; every estimate completes the open trial."""
  last = None
  for i in range(calls):
    before = len(log)
    # an estimate, or none, which leaves the trial open; one without a trial is dropped
    est = None
    if (i or calls == 2) and env.bool('known%d' % i):
      est = env.real('estimate%d' % i)
    a, b = gen(est)
    new = log[before:]
    done = [l for l in new if l[0] == 'complete']
    asked = [l for l in new if l[0] == 'suggest']
    if i == 0:
      env.check(not done and len(asked) == 1, 'the first call asks for a trial')
    elif est is None:
      env.check(not done and not asked, 'an open trial stays open without a result')
    else:
      env.check(len(done) == 1 and done[0][1] == last, 'the result completes its trial')
      if len(done) == 1:
        env.check(list(done[0][2]) == ['metric'], 'the configured metric is reported')
        for v in done[0][2].values():
          env.check_eq(v, est, 'the result is reported')
      env.check(len(asked) == 1, 'a new trial is asked for')
      env.check(not (done and asked) or new.index(done[0]) < new.index(asked[0]),
                'the result is reported before the next trial')
    trials = [l for l in log if l[0] == 'suggest']
    last = trials[-1][1]
    env.check(trials[-1][2] == 1, 'one trial at a time')
    view(trials[-1][3], a, b)


def study(env, log):
  st = [l for l in log if l[0] == 'study']
  env.check(len(st) == 1, 'one study')
  _, owner, name, config = st[0]
  env.check(owner == 'owner' and name == 'study', 'the configured study')
  env.check(config.algorithm == 'search', 'the configured search')
  ms = config.metrics
  env.check(ms is not None and len(ms) == 1 and ms[0].name == 'metric' and
            ms[0].goal == Goal.MAXIMIZE, 'maximizes the configured metric')
  return config.problem.search_space.root.params


def same(env, got, want, label):
  got = list(env.np.ravel(got))
  env.check(len(got) == len(want), label)
  for g, w in zip(got, want):
    env.check_eq(g, w, label)


def scalar(env, size, calls, kind, order=None):
  log = vizier(env, order)
  V = env.mod(GEN + 'vizier_dataset_generator')
  if kind == 'FLOAT':
    lo = env.real('lo')
    hi = lo + env.pos('width')
    wlo, whi = lo, hi
  else:
    wlo, whi = env.choice('lo', [0, -1]), 1
    lo, hi = wlo * 1.0, 1.0
  g = V.VizierScalarDataAddRemoveGenerator(scalar_config(env, size, kind, lo, hi))
  params = study(env, log)
  env.check(len(params) == size, 'one parameter per value')
  for p in params.values():
    env.check(p[0] == ('float' if kind == 'FLOAT' else 'int'), 'the configured type')
    env.check_eq(p[1], wlo, 'the configured range')
    env.check_eq(p[2], whi, 'the configured range')

  def view(p, a, b):
    # the value of the parameter with the i-th number
    want = [p[k] for k in sorted(p, key=lambda k: int(k[1:]))]
    same(env, b, want, 'the suggested values')
    same(env, a, want[:-1], 'all but one record')
  history(env, g, log, calls, view)


def classification(env, n, dim, calls, classes):
  log = vizier(env)
  C = env.mod(CFG)
  G = env.mod(GEN + 'classification_dataset_generator')
  lo = env.real('lo')
  hi = lo + env.pos('width')
  g = G.ClassificationDatasetGenerator(C.ClassificationDatasetGeneratorConfig(
      study_name='study', study_owner='owner', min_value=lo, max_value=hi,
      search_algorithm='search', metric_name='metric', sample_dim=dim, num_samples=n,
      num_classes=classes))
  params = study(env, log)
  fl = [p for p in params.values() if p[0] == 'float']
  ints = [p for p in params.values() if p[0] == 'int']
  env.check(len(fl) == n * dim and len(ints) == n, 'one parameter per feature and label')
  for p in fl:
    env.check_eq(p[1], lo, 'the configured range')
    env.check_eq(p[2], hi, 'the configured range')
  for p in ints:
    env.check(p[2] - p[1] + 1 == classes, 'as many labels as classes')

  def view(p, a, b):
    feats = [p['float%d' % i] for i in range(n * dim)]
    labels = [p['int%d' % (n * dim + i)] for i in range(n)]
    if len(a[1]) < len(b[1]):
      a, b = b, a
    env.check(env.np.shape(a[0]) == (n, dim) and env.np.shape(a[1]) == (n,), 'shapes')
    env.check(env.np.shape(b[0]) == (n - 1, dim) and env.np.shape(b[1]) == (n - 1,), 'shapes')
    same(env, a[0], feats, 'the suggested features')
    same(env, a[1], labels, 'the suggested labels')
    same(env, b[0], feats[:-dim], 'all but one record')
    same(env, b[1], labels[:-1], 'all but one record')
  history(env, g, log, calls, view)


def pipeline(env, ids, parts, calls, unit):
  """unit: position of the privacy unit in a record."""
  log = vizier(env)
  P = env.mod(GEN + 'pipeline_dp_vizier_dataset_generator')
  lo = env.real('lo')
  hi = lo + env.pos('width')
  cfg = scalar_config(env, 1, 'FLOAT', lo, hi)
  g = P.PipelineDpDatasetGenerator(cfg, P.PipelineDpDatasetGeneratorConfig(
      max_num_privacy_ids=ids, max_num_partitions=parts))
  params = study(env, log)
  env.check(len(params) == ids * parts, 'one parameter per unit and partition')
  for p in params.values():
    env.check_eq(p[1], lo, 'the configured range')
    env.check_eq(p[2], hi, 'the configured range')

  def view(p, a, b):
    if unit == 1:
      env.check({r[0] for r in b} <= set(range(parts)) and {r[1] for r in b} <= set(range(ids)),
                'records are (partition, privacy unit, value)')
      return
    want = [p[k] for k in sorted(p, key=lambda k: int(k[1:]))]
    pairs = [(r[0], r[1]) for r in b]
    env.check(sorted(pairs) == [(i, j) for i in range(ids) for j in range(parts)] or
              sorted(pairs) == [(j, i) for j in range(parts) for i in range(ids)],
              'every pair once')
    vals = list(want)
    for r in b:
      hit = [v for v in vals if v is r[2]] if env.symbolic else [v for v in vals if v == r[2]]
      env.check(bool(hit), 'the suggested values')
      if hit:
        vals = [v for v in vals if v is not hit[0]]
    gone = [r for r in b if not any(r[0] == s[0] and r[1] == s[1] for s in a)]
    env.check(len(a) == len(b) - len(gone) == (ids - 1) * parts, 'one unit removed')
    env.check(min(len({r[i] for r in gone}) for i in (0, 1)) == 1, 'the records of one unit')
    for s in a:
      r = [r for r in b if (r[0], r[1]) == (s[0], s[1])]
      env.check(len(r) == 1, 'other records are kept')
      env.check_eq(r[0][2], s[2], 'other records are kept')
  history(env, g, log, calls, view)


def constant(env):
  C = env.mod(GEN + 'constant_dataset_generator')
  a, b = object(), object()
  g = C.ConstantDatasetGenerator((a, b))
  for i in range(2):
    r = g(env.real('estimate%d' % i) if env.bool('known%d' % i) else None)
    env.check(r[0] is a and r[1] is b, 'the given pair')


def refused(env):
  log = vizier(env)
  V = env.mod(GEN + 'vizier_dataset_generator')
  env.check(env.raises(lambda: V.VizierScalarDataAddRemoveGenerator(
      scalar_config(env, 2, 'UNSPECIFIED', 0.0, 1.0)), NotImplementedError) is not None,
            'unknown data type')
  g = V.VizierScalarDataAddRemoveGenerator(scalar_config(env, 2, 'FLOAT', 0.0, 1.0))
  study(env, log)
  cl = env.mod('vizier.service.clients').Study
  cl.suggest = lambda self, count=1: [None]
  env.check(env.raises(lambda: g(None), ValueError) is not None, 'no trial to hand out')


def cases(tier):
  big = tier == 'thorough'
  n = 5 if big else 3
  out = [Case('constant', constant), Case('refused', refused)]
  for size in (1, 2, 3) + ((4,) if big else ()):
    out.append(Case('float-%d' % size, scalar, kw=dict(size=size, calls=n, kind='FLOAT')))
  out.append(Case('int', scalar, kw=dict(size=2, calls=2, kind='INT32')))
  out.append(Case('order', scalar, kw=dict(size=3, calls=2, kind='FLOAT', order=(2, 0, 1))))
  out.append(Case('many', scalar, kw=dict(size=11, calls=1, kind='FLOAT')))
  for m, d in ((1, 1), (2, 2), (3, 1)):
    out.append(Case('class-%d-%d' % (m, d), classification,
                    kw=dict(n=m, dim=d, calls=2 if not big else 3, classes=2)))
  for m, d in ((2, 3), (3, 2), (1, 2)):
    out.append(Case('pipeline-%d-%d' % (m, d), pipeline,
                    kw=dict(ids=m, parts=d, calls=2 if not big else 3, unit=0)))
  out.append(Case('pipeline-records', pipeline, kw=dict(ids=2, parts=3, calls=1, unit=1)))
  return out
