"""Stand-ins for the scipy.optimize functions the repository uses."""
import math
from se import core
from se.core import Unsupported


class RootResults:
  def __init__(self, root, converged=True, iterations=1, calls=2):
    self.root = root
    self.converged = converged
    self.iterations = iterations
    self.function_calls = calls
    self.flag = 'converged'


HOOK = {}


def brentq(f, a, b, args=(), xtol=2e-12, rtol=8.9e-16, maxiter=100,
           full_output=False, disp=True):
  h = HOOK.get('brentq')
  if h is None:
    raise Unsupported('brentq without contract')
  return h(f, a, b, args, xtol, rtol, maxiter, full_output, disp)


def root_scalar(*a, **k):
  h = HOOK.get('root_scalar')
  if h is None:
    raise Unsupported('root_scalar without contract')
  return h(*a, **k)


def minimize_scalar(*a, **k):
  h = HOOK.get('minimize_scalar')
  if h is None:
    raise Unsupported('minimize_scalar without contract')
  return h(*a, **k)


def table():
  return dict(brentq=brentq, root_scalar=root_scalar,
              minimize_scalar=minimize_scalar, bisect=brentq, ridder=brentq)
