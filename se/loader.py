"""Loads the working tree's modules with the shims (or plainly, for replay)."""
import ast
import builtins
import importlib
import importlib.util
import os
import sys
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
ROOTS = {
    'dp_accounting': (REPO + '/python/dp_accounting/dp_accounting', True),
    'clustering': (REPO + '/learning/clustering', True),
    'dp_auditorium': (REPO + '/python/dp_auditorium/dp_auditorium', False),
}
ABSENT = ('tensorflow', 'etils', 'sklearn', 'pipeline_dp', 'vizier',
          'apache_beam', 'matplotlib')
_code = {}


def code_of(path):
  st = os.stat(path)
  k = (path, st.st_mtime_ns)
  if k not in _code:
    with open(path) as f:
      _code[k] = compile(f.read(), path, 'exec', dont_inherit=True)
  return _code[k]


class Any:
  """Placeholder for anything reachable from an absent third-party package."""

  def __init__(self, name='?'):
    self.__dict__['_name'] = name

  def __getattr__(self, k):
    if k.startswith('__'):
      raise AttributeError(k)
    v = type(k, (), {}) if k[:1].isupper() else Any(self._name + '.' + k)
    self.__dict__[k] = v
    return v

  def __call__(self, *a, **k):
    return Any(self._name + '()')


class AnyModule(types.ModuleType):
  def __getattr__(self, k):
    if k.startswith('__'):
      raise AttributeError(k)
    if k[:1].isupper():
      v = type(k, (), {})
    else:
      v = AnyModule(self.__name__ + '.' + k)
    setattr(self, k, v)
    return v

  def __call__(self, *a, **k):
    return Any()


def _alts(name):
  """File for a dotted repo module or None."""
  parts = name.split('.')
  if parts[0] not in ROOTS:
    return None
  base, run_init = ROOTS[parts[0]]
  p = os.path.join(base, *parts[1:])
  if os.path.isdir(p):
    init = os.path.join(p, '__init__.py')
    if run_init and os.path.exists(init):
      return init, True
    return None, True
  if os.path.exists(p + '.py'):
    return p + '.py', False
  return None


class Loader:
  """symbolic=True: shims; symbolic=False: real modules, absent deps stubbed."""

  def __init__(self, symbolic, constants=None):
    self.symbolic = symbolic
    self.mods = {}
    self.constants = constants or {}
    self.files = set()
    if symbolic:
      from se import shims
      self.over = {'math': shims.make_math(), 'numpy': shims.make_numpy()}
      sp, subs = shims.make_scipy()
      self.over['scipy'] = sp
      self.over.update(subs)
      self.over['importlib'] = types.ModuleType('importlib')
      self.over['importlib'].import_module = self.load
      b = dict(builtins.__dict__)
      b.update(isinstance=shims.b_isinstance, float=shims.SymFloat,
               int=shims.SymInt, sum=shims.b_sum, round=shims.b_round)
    else:
      self.over = {'importlib': types.ModuleType('importlib')}
      self.over['importlib'].import_module = self.load
      b = dict(builtins.__dict__)
    b['__import__'] = self._import
    self.builtins = b
    log = types.ModuleType('absl.logging')
    for n in ('debug', 'info', 'warning', 'warn', 'error', 'exception', 'log',
              'fatal', 'vlog', 'log_first_n', 'log_every_n'):
      setattr(log, n, lambda *a, **k: None)
    for n in ('DEBUG', 'INFO', 'WARNING', 'ERROR', 'FATAL'):
      setattr(log, n, 0)
    self.over['absl.logging'] = log
    absl = types.ModuleType('absl')
    absl.logging = log
    absl.app = types.ModuleType('absl.app')
    absl.flags = AnyModule('absl.flags')
    self.over['absl'] = absl
    plog = types.ModuleType('logging')
    plog.__dict__.update(log.__dict__)
    import logging as _l
    plog.getLogger = lambda *a: log
    plog.Logger = _l.Logger
    self.over['logging'] = plog

  def load(self, name, package=None):
    if name in self.mods:
      return self.mods[name]
    r = _alts(name)
    if r is None:
      if name in self.over:
        return self.over[name]
      if name.split('.')[0] in ABSENT:
        return self._absent(name)
      return importlib.import_module(name)
    path, is_pkg = r
    parent = name.rpartition('.')[0]
    if parent:
      pm = self.load(parent)
      if name in self.mods:
        return self.mods[name]
    m = types.ModuleType(name)
    m.__file__ = path
    m.__dict__['__builtins__'] = self.builtins
    if is_pkg:
      m.__path__ = []
      m.__package__ = name
    else:
      m.__package__ = parent
    self.mods[name] = m
    if path:
      self.files.add(path)
      try:
        exec(code_of(path), m.__dict__)
      except BaseException:
        self.mods.pop(name, None)
        raise
      for k, v in self.constants.get(name, {}).items():
        if k in m.__dict__:
          m.__dict__[k] = v
    if parent:
      setattr(pm, name.rpartition('.')[2], m)
    return m

  def _absent(self, name):
    try:
      return importlib.import_module(name)
    except ImportError:
      pass
    if name not in self.over:
      self.over[name] = AnyModule(name)
    return self.over[name]

  def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
    if level:
      pkg = (globals or {}).get('__package__', '')
      for _ in range(level - 1):
        pkg = pkg.rpartition('.')[0]
      name = pkg + ('.' + name if name else '')
    top = name.split('.')[0]
    if top in ROOTS:
      m = self.load(name)
      if not fromlist:
        return self.load(top)
      for f in fromlist:
        if f != '*' and not hasattr(m, f):
          if _alts(name + '.' + f):
            self.load(name + '.' + f)
      return m
    if name in self.over:
      if fromlist or '.' not in name:
        return self.over[name]
      return self.over[top]
    if top in self.over and fromlist:
      m = self.over[top]
      for part in name.split('.')[1:]:
        m = getattr(m, part)
      return m
    if top in ABSENT:
      m = self._absent(name)
      return m if fromlist else self._absent(top)
    return builtins.__import__(name, globals, locals, fromlist, 0)
