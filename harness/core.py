"""Property-based testing core: generated cases, oracles that judge plain JSON cases,
shrinking, replay files and evidence.

A check module (checks/cNN.py) declares sub-checks:

    @sub('name', strategy, quick=400, thorough=8000)
    def name(case, ctx): ...

`strategy` generates a JSON-serialisable case; the function judges it against
an oracle and raises Violation when the property is broken.  ctx.nontrivial()
marks the case as non-trivial, ctx.label() classifies it.
An exception that comes out of the code under test and was not expected by the
check is a violation too (the input was a valid one); an exception of the
harness itself is an error exit.
"""
import collections
import hashlib
import json
import os
import signal
import sys
import time
import traceback

import boot


class Violation(Exception):
  pass


class Known(Exception):
  """The case shows a listed known finding (ident); not a new violation."""

  def __init__(self, ident, text):
    super().__init__(text)
    self.ident = ident


class CaseTimeout(BaseException):
  pass


class Sub:

  def __init__(self, name, strategy, func, quick, thorough, shards, rule):
    self.name, self.strategy, self.func = name, strategy, func
    self.quick, self.thorough, self.shards = quick, thorough, shards
    self.rule = rule


class Registry:

  def __init__(self):
    self.subs = collections.OrderedDict()

  def __call__(self, name, strategy, quick, thorough=None, shards=8, rule=''):
    def deco(func):
      self.subs[name] = Sub(name, strategy, func, quick, thorough or quick * 25, shards,
                            rule or (func.__doc__ or '').strip())
      return func
    return deco


  def related(self, name, variants, quick, thorough=None):
    """Declares `name`_related: a case, then copies that differ from it in one argument, then the case again.

    Results kept between calls under too few of the arguments answer such a sequence wrongly.
    `variants` maps names to functions of the case that return the changed case, or None where it does not apply.
    """
    from hypothesis import strategies as st
    base = self.subs[name]

    @st.composite
    def strategy(draw):
      return dict(base=draw(base.strategy), order=draw(st.lists(st.sampled_from(sorted(variants) + ['']), min_size=2, max_size=4)))

    def func(case, ctx):
      known, ran = None, 0
      for op in [''] + case['order']:
        c = json.loads(json.dumps(case['base']))
        if op:
          c = variants[op](c)
          if c is None:
            continue
        ctx.label('variant ' + (op or 'same'))
        ran += 1
        signal.setitimer(signal.ITIMER_PROF, CASE_LIMIT_S)
        try:
          base.func(c, Ctx())
        except Known as k:
          known = k
        except Violation as v:
          raise Violation('call %d of a sequence of related calls (%s): %s' % (ran, op or 'the case itself', v)) from v
      ctx.nontrivial(ran > 1)
      if known is not None:
        raise known
    func.__name__ = base.func.__name__ + '_related'
    self(name + '_related', strategy(), quick, thorough,
         rule='sequences of %s cases that differ in one argument (%s); non-trivial: at least two calls' % (
             name, ', '.join(sorted(variants))))(func)


class Ctx:

  def __init__(self):
    self.labels = []
    self.is_nontrivial = False

  def nontrivial(self, cond=True):
    if cond:
      self.is_nontrivial = True

  def label(self, *ls):
    self.labels.extend(ls)


def require(cond, msg, *args):
  if not cond:
    raise Violation(msg % args if args else msg)


def not_less(b, a, rel=1e-9):
  """b >= a up to rounding; infinities compare exactly."""
  return b >= a or b >= a - rel * max(1, abs(a))


def close(a, b, rel=1e-9, ab=0.0):
  return a == b or abs(a - b) <= rel * max(abs(a), abs(b)) + ab


CASE_LIMIT_S = int(os.environ.get('VERIF_CASE_LIMIT', '200'))


def _alarm(signum, frame):
  raise CaseTimeout()


def _from_repo(tb):
  """True when the traceback passes through the code under test."""
  root = os.path.realpath(boot.REPO) + os.sep
  for fr in traceback.extract_tb(tb):
    if os.path.realpath(fr.filename).startswith(root):
      return True
  return False


def _where(tb):
  root = os.path.realpath(boot.REPO) + os.sep
  last = ''
  for fr in traceback.extract_tb(tb):
    fn = os.path.realpath(fr.filename)
    if fn.startswith(root):
      last = '%s:%s' % (fn[len(root):], fr.name)
  return last


def judge(sub, case, ctx):
  """Runs one case; raises Violation / Known, or a harness error."""
  # Processor time, so that a loaded or paused machine does not count against the code under test.
  signal.signal(signal.SIGPROF, _alarm)
  signal.setitimer(signal.ITIMER_PROF, CASE_LIMIT_S)
  try:
    sub.func(case, ctx)
  except (Violation, Known):
    raise
  except CaseTimeout:
    raise Violation('no answer within %d s of processor time for a valid input' % CASE_LIMIT_S) from None
  except (MemoryError, KeyboardInterrupt):
    raise
  except Exception as e:  # pylint: disable=broad-except
    if type(e).__module__.startswith('hypothesis'):
      raise
    if _from_repo(e.__traceback__):
      raise Violation('unexpected %s from the code under test on a valid input: %s (%s)' % (
          type(e).__name__, str(e)[:300], _where(e.__traceback__))) from e
    raise
  finally:
    signal.setitimer(signal.ITIMER_PROF, 0)


def digest(case):
  return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def load_check(cid):
  import importlib
  return importlib.import_module('checks.' + cid.lower())


def run_shard(cid, sub_names, seed, shard, tier, out_path, deadline_s):
  """Runs this shard's part of every sub-check, writes a result JSON."""
  mod = load_check(cid)
  res = dict(subs={}, violations=[], known={}, error=None, wall=0)
  t0 = time.time()
  try:
    for name in sub_names:
      sub = mod.sub.subs[name]
      if shard >= sub.shards:
        continue
      r = run_sub(mod, sub, seed, shard, tier, t0 + deadline_s)
      res['subs'][name] = r['stats']
      for k, v in r['known'].items():
        res['known'].setdefault(k, v)
      if r['violation']:
        res['violations'].append(r['violation'])
        break
  except BaseException:  # pylint: disable=broad-except
    res['error'] = traceback.format_exc()
  res['wall'] = time.time() - t0
  with open(out_path, 'w') as f:
    json.dump(res, f)


def run_sub(mod, sub, seed, shard, tier, t_end):
  import hypothesis
  from hypothesis import given, settings, HealthCheck, Phase
  import hypothesis.internal.conjecture.engine as eng
  eng.MAX_SHRINKING_SECONDS = 60

  total = sub.quick if tier == 'quick' else sub.thorough
  n = max(1, -(-total // sub.shards))
  stats = dict(evaluations=0, nontrivial=0, skipped=0, labels={}, samples=[], digests=[], secs=0.0)
  state = dict(last=None, first=None, known={})
  seen = set()
  t0 = time.time()

  def body(case):
    if time.time() > t_end and state['last'] is None:
      stats['skipped'] += 1
      return
    stats['evaluations'] += 1
    ctx = Ctx()
    try:
      try:
        judge(sub, case, ctx)
      finally:
        if state['last'] is None:
          for l in ctx.labels:
            stats['labels'][l] = stats['labels'].get(l, 0) + 1
          if ctx.is_nontrivial:
            d = digest(case)
            if d not in seen:
              seen.add(d)
              stats['nontrivial'] += 1
              if len(stats['samples']) < 2:
                stats['samples'].append(json.dumps(case)[:700])
    except Known as k:
      state['known'].setdefault(k.ident, dict(text=str(k), case=case, sub=sub.name))
      return
    except Violation as v:
      state['last'] = (case, str(v))
      if state['first'] is None:
        state['first'] = (case, str(v))
        state['t_first'] = time.time()
        if 'no answer within' in str(v):
          raise _Stop()
      raise

  class _Stop(BaseException):
    pass

  sseed = int(hashlib.sha1(('%s/%s/%d/%d' % (mod.__name__, sub.name, seed, shard)).encode()).hexdigest()[:12], 16)
  test = given(sub.strategy)(body)
  test = hypothesis.seed(sseed)(test)
  test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                  report_multiple_bugs=False, print_blob=False,
                  phases=[Phase.explicit, Phase.generate, Phase.target, Phase.shrink],
                  suppress_health_check=list(HealthCheck))(test)
  try:
    test()
  except _Stop:
    pass
  except BaseException:  # pylint: disable=broad-except
    if state['last'] is None:
      raise
  viol = None
  if state['last'] is not None:
    case, msg = state['last']
    viol = dict(sub=sub.name, case=case, msg=msg, first=state['first'][0], first_msg=state['first'][1],
                seed=seed, shard=shard, tier=tier)
  stats['digests'] = sorted(seen)
  stats['secs'] = time.time() - t0
  return dict(stats=stats, violation=viol, known=state['known'])


def run_known(cid, entries):
  """Re-examines each listed known finding of this property; yields (entry, status)."""
  mod = load_check(cid)
  for e in entries:
    sub = mod.sub.subs[e['sub']]
    try:
      judge(sub, e['case'], Ctx())
      yield e, 'absent', ''
    except Known as k:
      yield e, ('known' if k.ident == e['ident'] else 'other'), str(k)
    except Violation as v:
      yield e, 'violation', str(v)
