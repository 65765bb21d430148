"""Puts the code under test (always /repo's working tree) and Hypothesis on sys.path."""
import os
import sys
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def boot():
  sys.dont_write_bytecode = True
  want = [os.path.join(REPO, 'python/dp_accounting'), os.path.join(REPO, 'learning'),
          os.path.join(REPO, 'python/dp_auditorium')]
  sys.path[:] = [p for p in sys.path if p not in want and os.path.realpath(p or '.') != os.path.realpath(VERIF)]
  sys.path[0:0] = want
  if os.path.join(VERIF, 'harness') not in sys.path:
    sys.path.insert(0, os.path.join(VERIF, 'harness'))
  if _HYP not in sys.path:
    sys.path.append(_HYP)
  import logging
  logging.disable(logging.CRITICAL)
  import warnings
  warnings.simplefilter('ignore')
  try:
    from absl import logging as alog
    alog.set_verbosity(alog.FATAL)
    alog._warn_preinit_stderr = 0
  except ImportError:
    pass
  import numpy as np
  np.seterr(all='ignore')


def check_origin(module):
  f = os.path.realpath(module.__file__)
  if not f.startswith(os.path.realpath(REPO) + os.sep):
    raise RuntimeError('%s was not loaded from %s: %s' % (module.__name__, REPO, f))
