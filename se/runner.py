"""Runs the cases of a harness in parallel and decides the property."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback
from fractions import Fraction

from se import core, engine, env as env_mod, loader
from se.core import Inconclusive, PathEnd, SymReal, Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


class Hang(BaseException):
  """A path that uses much processor time without deciding or asking anything."""


HANG_CPU = 40     # seconds between looks; two in a row without progress


def watch(e):
  """Interrupts a path of engine e that makes no progress."""
  last = [None]

  def look(*_):
    now = (len(e.decisions), e.stats.queries, e.stats.obl)
    if now == last[0]:
      raise Hang()
    last[0] = now
  signal.signal(signal.SIGPROF, look)
  signal.setitimer(signal.ITIMER_PROF, HANG_CPU, HANG_CPU)


class Case:
  def __init__(self, name, fn, constants=None, quick=True, thorough=True,
               timeout=None, functions=(), opts=None, must_reach=(), bounds='',
               kw=None, allow=(), witnesses=()):
    # inputs of repaired defects that only rounding shows; replayed as they are
    self.witnesses = witnesses
    self.name = name
    self.fn = fn
    self.constants = constants or {}
    self.quick = quick
    self.thorough = thorough
    self.timeout = timeout
    self.functions = functions
    self.opts = opts or {}
    self.must_reach = must_reach
    self.bounds = bounds
    self.kw = kw or {}
    self.allow = allow  # exception types of the code under test left to it


class Runtime:
  """Per-case collector."""

  def __init__(self, prop, case, budget, known):
    self.prop = prop
    self.case = case
    self.stats = engine.Stats()
    self.viol = []
    self.incon = []
    self.known_hit = {}
    self.known = known
    self.reached = set()
    self.deadline = time.time() + budget
    self.validated = 0
    self.valfail = []
    self.samples = []
    self.labels = {}
    self.files = set()
    self.spurious = {}

  def obligation(self, env, c, label, margins):
    e = env.e
    st = self.stats
    st.obl += 1
    self.labels[label] = self.labels.get(label, 0) + 1
    if core.is_b(c):
      if bool(c):
        st.obl_nf += 1
        return
      if os.environ.get('SE_DUMP'):
        dump(e, label, None)
      self.candidate(env, label, None, [])
      return
    f = e.facts.get(c.key())
    if f is True:
      st.obl_nf += 1
      return
    nc = core.b_not(c)
    if e.linear_unsat(nc):
      st.obl_smt += 1
      return
    ms = min(e.OBL_MS, max(1000, (self.deadline - time.time()) * 1000))
    r, m = e.query(nc, ms)
    if r == 'sat':
      r, m = e.query(nc, ms, tangents=True)
    if r == 'unsat':
      st.obl_smt += 1
      return
    if r == 'unknown':
      if os.environ.get('SE_DUMP'):
        dump(e, label, nc)
      if self.guess(e, label):
        return
      self.incon.append('%s: solver unknown on "%s"' % (self.case.name, label))
      return
    if os.environ.get('SE_DUMP'):
      dump(e, label, nc)
    self.candidate(env, label, nc, margins, m)

  def candidate(self, env, label, nc, margins, m=None):
    e = env.e
    if self.spurious.get(label, 0) >= 6:
      return
    tried = []
    models = []
    if nc is None:
      r, m = e.query(None, e.OBL_MS, tangents=True)
      if r == 'unsat':
        return            # infeasible path kept alive by a loose model
      if e.model is None:
        if r == 'unknown':
          if self.guess(e, label):
            return
          self.incon.append('%s: unreachable? "%s"' % (self.case.name, label))
          return
        e.model = m
      if r == 'sat' and m:
        models.append(m)
      if e.model is not None and e.model not in models:
        models.append(e.model)
    else:
      models = []
      if len(self.viol) < 3:
        for mag in (1, Fraction(1, 10), Fraction(1, 1000), Fraction(1, 10**5)):
          got = False
          for d, s in margins:
            cc = (d * s >= mag)
            if core.is_b(cc):
              continue
            r, mm = e.query(cc, 3000, tangents=True)
            if r == 'sat':
              models.append(mm)
              got = True
              break
          if got and len(models) >= 2:
            break
      models.append(m)
    for mm in models:
      inp = extract_inputs(e, mm)
      if self.confirm(inp, label):
        return
      tried.append(inp)
    if self.guess(e, label):
      return
    self.spurious[label] = self.spurious.get(label, 0) + 1
    self.incon.append('%s: counterexample to "%s" did not replay: %s' %
                      (self.case.name, label, json.dumps(tried[0])[:400]))


  def confirm(self, inp, label):
    ok, det = replay_inline(self.prop, self.case, inp, label)
    if not ok:
      return False
    rec = dict(property=self.prop, case=self.case.name, label=det[0][0],
               detail=det[0][1], inputs=inp, symbolic_label=label)
    kn = match_known(self.known, self.prop, det)
    if kn:
      self.known_hit[kn] = rec
    else:
      self.viol.append(rec)
    return True

  def guess(self, e, label):
    """The solver gave no usable model: tries plain inputs on the real code."""
    if self.spurious.get('guess ' + label, 0) >= 4 or len(self.viol) >= 3:
      return False
    self.spurious['guess ' + label] = self.spurious.get('guess ' + label, 0) + 1
    base = extract_inputs(e, e.model or {})
    names = [n for n, d in e.inputs.items() if not isinstance(d, tuple)]
    if e.model is not None and self.confirm(base, label):
      return True
    for k in range(8):
      g = (0.5, 0.125, 1.0, 2.0, 0.03, 4.0, 0.25, 0.75)[k]
      inp = dict(base, reals={n: repr(g * (1 + (i * (k + 1) % 5) / 7))
                              for i, n in enumerate(names)})
      if self.confirm(inp, label):
        return True
    return False


def dump(e, label, nc):
  print('DUMP', label, '\n  goal', nc and nc.op, nc and nc.args)
  for b in e.pc:
    print('  pc', b.op, b.args)
  for b in e.forced:
    print('  forced', b.op, b.args)


def match_known(known, prop, det):
  """All failing labels must be listed for the finding to be a known one."""
  hit = None
  for lab, d in det:
    ok = False
    for k in known:
      if k['property'] == prop and k['label'] in lab:
        ok = True
        hit = k['id']
    if not ok:
      return None
  return hit


def extract_inputs(e, m):
  reals, choices, funcs = {}, {}, {}
  save = e.model
  e.model = m
  try:
    for name, d in e.inputs.items():
      if isinstance(d, tuple) and d[0] == 'choice':
        choices[name] = d[1]
      elif isinstance(d, tuple) and d[0] == 'func':
        pts = []
        u = e.uf.get(d[1])
        for x, v in (u['apps'] if u else []):
          a, b = e.feval(x), e.feval(v)
          if a is not None and b is not None:
            pts.append([repr(a), repr(b)])
        funcs[d[1]] = pts
      else:
        ev = e.expvar.get(((name, 1),))
        if ev is not None and ev in m:
          import mpmath
          q = m[ev]
          if q > 0:
            reals[name] = repr(float(mpmath.log(
                mpmath.mpf(q.numerator) / q.denominator)))
            continue
        x = m.get(name)
        if x is None:
          continue
        reals[name] = '%d/%d' % (x.numerator, x.denominator) if (
            x.denominator < 10**12) else repr(float(x))
  finally:
    e.model = save
  return dict(reals=reals, choices=choices, funcs=funcs)


def harness_gap(ex):
  """A name the harness relies on is gone: the check has no answer."""
  if not isinstance(ex, (AttributeError, ImportError)):
    return False
  tb = traceback.extract_tb(ex.__traceback__)
  return bool(tb) and tb[-1].filename.startswith(os.path.join(VERIF, 'harness'))


def run_concrete(case, inputs, strict=True):
  """Runs the harness on the real code; returns (failures, env)."""
  ce = env_mod.ConcEnv(inputs, case.constants)
  ce.strict = strict
  prev = core.CUR
  core.CUR = None
  from se import shims
  pp = shims.RNG.provider
  import warnings
  import numpy as np
  try:
    with warnings.catch_warnings(), np.errstate(all='ignore'):
      warnings.simplefilter('ignore')
      case.fn(ce, **case.kw)
  except PathEnd:
    pass
  except core.Stop as ex:
    ce.failures.append(('engine', repr(ex))) if False else None
    ce.stop = repr(ex)
  except Exception as ex:  # the code under test raised
    ce.failures.append(('unexpected exception %s' % type(ex).__name__,
                        ''.join(traceback.format_exception_only(ex)).strip()))
  finally:
    core.CUR = prev
    shims.RNG.provider = pp
  return ce.failures, ce


def replay_inline(prop, case, inputs, label):
  pid = os.fork()
  if pid == 0:  # isolate: crashes / infinite loops of the code under test
    code = 1
    try:
      signal.setitimer(signal.ITIMER_PROF, 0)
      signal.alarm(60)
      f, _ = run_concrete(case, inputs, bool(label))
      with open('/tmp/.rp.%d' % os.getpid(), 'w') as o:
        json.dump(f, o)
      code = 0
    except BaseException:
      traceback.print_exc()
    finally:
      os._exit(code)
  _, st = os.waitpid(pid, 0)
  path = '/tmp/.rp.%d' % pid
  try:
    with open(path) as o:
      f = json.load(o)
    os.remove(path)
  except (OSError, ValueError):
    if os.WIFSIGNALED(st):
      return True, [('code under test did not terminate', 'signal %d' %
                     os.WTERMSIG(st))]
    return False, []
  return bool(f), [tuple(x) for x in f]


def explore(prop, case, budget, known, seed, validate=3):
  rt = Runtime(prop, case, budget, known)
  work = [([], None)]
  st = rt.stats
  vdone = 0
  from se import shims, optimize_shim
  for w in case.witnesses:
    rt.confirm(dict(reals=w, choices={}, funcs={}), 'witness of a repaired defect')
  while work:
    if time.time() > rt.deadline:
      rt.incon.append('%s: time limit with %d paths pending' % (case.name, len(work)))
      break
    if len(rt.viol) >= 3:
      break
    prefix, model = work.pop()
    e = engine.Engine(prefix, model, st, case.opts)
    e.deadline = rt.deadline
    core.CUR = e
    shims.RNG.provider = None
    optimize_shim.HOOK.clear()
    ld = loader.Loader(True, case.constants)
    env = env_mod.SymEnv(e, ld, rt)
    done = True
    try:
      watch(e)
      try:
        case.fn(env, **case.kw)
      finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    except PathEnd:
      done = False
      st.infeasible += 1
    except Hang:
      st.obl += 1
      rt.candidate(env, 'code under test does not return', None, [])
      done = False
    except Inconclusive as ex:
      rt.incon.append('%s: %s' % (case.name, ex))
      if 'time limit' not in str(ex):
        rt.guess(e, 'undecided path')
      done = False
    except Unsupported as ex:
      # only matters if the path is feasible
      try:
        if e.model is None:
          e.refresh_model()
        tb = traceback.extract_tb(ex.__traceback__)
        where = [f for f in tb if '/repo' in f.filename or loader.REPO in f.filename]
        w = ' at %s:%d' % (where[-1].filename, where[-1].lineno) if where else ''
        rt.incon.append('%s: unsupported: %s%s' % (case.name, ex, w))
        rt.guess(e, 'undecided path')
      except PathEnd:
        st.infeasible += 1
      done = False
    except core.Stop:
      raise
    except Exception as ex:  # the code under test raised unexpectedly
      lab = 'unexpected exception %s: %s' % (type(ex).__name__, ex)
      if os.environ.get('SE_TRACE'):
        traceback.print_exc()
      if harness_gap(ex):
        rt.incon.append('%s: harness does not fit the code: %r' % (case.name, ex))
        break
      st.obl += 1
      rt.candidate(env, lab[:300], None, [])
      done = True
    rt.reached |= env.reached
    rt.files |= ld.files
    if done:
      st.paths += 1
      if vdone < validate and e.model is None and not rt.viol:
        try:
          e.refresh_model()
        except core.Stop:
          pass
      if vdone < validate and e.model is not None and not rt.viol:
        inp = extract_inputs(e, e.model)
        ok, det = replay_inline(prop, case, inp, '')
        vdone += 1
        rt.validated += 1
        if len(rt.samples) < 2:
          rt.samples.append(inp)
        if ok and not (match_known(known, prop, det)):
          rec = dict(property=prop, case=case.name, label=det[0][0],
                     detail=det[0][1], inputs=inp, symbolic_label='(path witness)')
          rt.viol.append(rec)
    work.extend(e.alts)
  for t in case.must_reach:
    if t not in rt.reached and not rt.viol:
      rt.incon.append('%s: vacuous, "%s" never reached' % (case.name, t))
  return dict(case=case.name, stats=st.__dict__, viol=rt.viol, incon=rt.incon,
              known=rt.known_hit, validated=rt.validated, samples=rt.samples,
              labels=rt.labels, files=sorted(rt.files), functions=list(case.functions),
              bounds=case.bounds)


def _worker(args):
  prop, modname, name, tier, budget, known, seed = args
  sys.setrecursionlimit(20000)
  mod = importlib.import_module('harness.' + modname)
  case = [c for c in mod.cases(tier) if c.name == name][0]
  t0 = time.time()
  try:
    r = explore(prop, case, case.timeout or budget, known, seed)
  except BaseException as ex:  # pylint: disable=broad-except
    r = dict(case=name, stats=engine.Stats().__dict__, viol=[], known={},
             incon=['%s: checker error %s' % (name, traceback.format_exc()[-1500:])],
             validated=0, samples=[], labels={}, files=[], functions=[], bounds='')
  r['wall'] = time.time() - t0
  return r


LIMIT = {True: 840, False: 6 * 3600}   # whole check, by quick


def load_known():
  p = os.path.join(VERIF, 'known_findings.json')
  if not os.path.exists(p):
    return []
  with open(p) as f:
    return json.load(f).get('known', [])


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--case')
  ap.add_argument('--jobs', type=int, default=8)
  ap.add_argument('-v', action='store_true')
  ap.add_argument('--list', action='store_true')
  a = ap.parse_args()
  t0 = time.time()
  prop = a.prop
  mod = importlib.import_module('harness.' + prop)
  cases = [c for c in mod.cases(a.tier) if (
      c.quick if a.tier == 'quick' else c.thorough)]
  if a.case:
    cases = [c for c in cases if a.case in c.name]
  if a.list:
    for c in cases:
      print(c.name)
    return 0
  seed = int(os.environ.get('VERIF_SEED', '1'))
  budget = getattr(mod, 'BUDGET', {}).get(a.tier, 240 if a.tier == 'quick' else 1500)
  known = load_known()
  args = [(prop, prop, c.name, a.tier, budget, known, seed) for c in cases]
  res = []
  with mp.get_context('fork').Pool(min(a.jobs, max(1, len(args))),
                                   maxtasksperchild=4) as pool:
    it = pool.imap_unordered(_worker, args, chunksize=1)
    while True:
      try:
        r = it.next(timeout=max(1, t0 + LIMIT[a.tier == 'quick'] - time.time()))
      except StopIteration:
        break
      except mp.TimeoutError:
        res.append(dict(case='all', stats=engine.Stats().__dict__, viol=[], known={},
                        incon=['time limit of the check, %d of %d cases decided' % (
                            len(res), len(args))],
                        validated=0, samples=[], labels={}, files=[], functions=[], bounds=''))
        pool.terminate()
        break
      res.append(r)
      if a.v:
        s = r['stats']
        print('  %-40s %5.1fs paths=%d obl=%d nf=%d smt=%d q=%d solver=%.1fs viol=%d incon=%d'
              % (r['case'], r['wall'], s['paths'], s['obl'], s['obl_nf'],
                 s['obl_smt'], s['queries'], s['solver_s'], len(r['viol']),
                 len(r['incon'])), flush=True)
      if r['viol'] and not a.v:
        pool.terminate()
        break
  return finish(prop, a, mod, res, time.time() - t0, known, seed)


def finish(prop, a, mod, res, wall, known, seed):
  tot = engine.Stats()
  viol, incon, kn = [], [], {}
  funcs, files, labels, bounds, samples = set(), set(), {}, [], []
  validated = 0
  for r in res:
    s = engine.Stats()
    s.__dict__.update(r['stats'])
    tot.add(s)
    viol += r['viol']
    incon += r['incon']
    kn.update(r['known'])
    funcs |= set(r['functions'])
    files |= set(r['files'])
    validated += r['validated']
    if r['bounds']:
      bounds.append('%s: %s' % (r['case'], r['bounds']))
    for k, v in r['labels'].items():
      labels[k] = labels.get(k, 0) + v
    if r['samples'] and len(samples) < 5:
      samples.append(dict(case=r['case'], inputs=r['samples'][0]))
  funcs |= set(getattr(mod, 'FUNCTIONS', ()))
  bounds = list(getattr(mod, 'BOUNDS', [])) + bounds
  cov = dict(
      explanation='Symbolic execution of the current source; every assertion is '
      'negated and decided by z3 (or by exact normal form) on every feasible path '
      'within the bounds.',
      functions_encoded=sorted(funcs),
      source_files=sorted(f.replace(loader.REPO + '/', '') for f in files),
      bounds=bounds, cases=len(res), paths_explored=tot.paths,
      branch_decisions=tot.branches, obligations=tot.obl,
      discharged=tot.obl_nf + tot.obl_smt,
      discharged_by_normal_form=tot.obl_nf, discharged_by_solver=tot.obl_smt,
      solver_queries=tot.queries, solver_sat=tot.sat, solver_unsat=tot.unsat,
      solver_unknown=tot.unknown, solver_seconds=round(tot.solver_s, 2),
      witnesses_replayed_on_real_code=validated,
      assertions={k: v for k, v in sorted(labels.items())[:60]},
      samples=samples, inconclusive=incon[:20],
      known_findings=sorted(kn))
  ev = dict(property=prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick',
            seed=seed, level='other', coverage=cov,
            assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + [
                'Arithmetic over the ideal reals; float rounding is outside the claim.'],
            wall_s=round(wall, 2), violations=len(viol))
  if not a.case:
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
      json.dump(ev, f, indent=1)
  print('%s: %d cases, %d paths, %d obligations (%d normal form, %d solver), '
        '%d queries, %.1fs solver, %.1fs wall' %
        (prop, len(res), tot.paths, tot.obl, tot.obl_nf, tot.obl_smt,
         tot.queries, tot.solver_s, wall))
  for k in known:
    if k['property'] == prop and k['id'] in kn:
      print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
  if viol:
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    for i, v in enumerate(viol[:3]):
      path = os.path.join(VERIF, 'evidence', 'replay', '%s-%d.json' % (prop, i))
      v['tier'] = a.tier
      with open(path, 'w') as f:
        json.dump(v, f, indent=1)
      print('  case %s: %s: %s' % (v['case'], v['label'], v['detail']))
      print('  inputs: %s' % json.dumps(v['inputs'])[:1000])
      print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1
  if incon:
    for x in incon[:12]:
      print('INCONCLUSIVE ' + x)
    return 2
  if tot.obl == 0:
    print('INCONCLUSIVE no obligations')
    return 2
  return 0


if __name__ == '__main__':
  sys.exit(main())
