#!/usr/bin/env python3
"""Random syntactic mutants of the code under test, run against the checks of the file they are in.

  automutate.py OUT SEED N [FILE-SUBSTRING]      appends a line per mutant to OUT (CAUGHT by / MISSED) with its diff

Works on a scratch copy (VERIF_REPO), never on /repo.  Missed mutants are judged by hand: equivalent, outside of every
property, or a gap to close.
"""
import ast
import difflib
import os
import random
import shutil
import subprocess
import sys
import time

P, L, A = 'python/dp_accounting/dp_accounting/', 'learning/clustering/', 'python/dp_auditorium/dp_auditorium/'
FILES = {
    P + 'pld/common.py': 'C17 C16 C04 C01', P + 'pld/pld_pmf.py': 'C05 C04 C01 C03 C27',
    P + 'pld/privacy_loss_distribution.py': 'C01 C03 C02 C04 C06 C27', P + 'pld/privacy_loss_mechanism.py': 'C18 C15 C02 C01',
    P + 'pld/pld_privacy_accountant.py': 'C06 C11 C10 C27', P + 'pld/accountant.py': 'C15 C16',
    P + 'rdp/rdp_privacy_accountant.py': 'C07 C08 C09 C27 C11 C10', P + 'mechanism_calibration.py': 'C14',
    P + 'dp_event.py': 'C12', P + 'dp_event_builder.py': 'C13', P + 'privacy_accountant.py': 'C10 C11 C27',
    L + 'lsh_tree.py': 'C20 C21 C22 C23', L + 'lsh.py': 'C20', L + 'central_privacy_utils.py': 'C22 C21 C19',
    L + 'privacy_calculator.py': 'C19', L + 'clustering_algorithm.py': 'C23 C21', L + 'clustering_params.py': 'C23 C19 C21',
    L + 'default_clustering_params.py': 'C21 C20', L + 'coreset_params.py': 'C19 C21',
    A + 'mechanisms/noisy_max.py': 'C24', A + 'mechanisms/mean.py': 'C24', A + 'mechanisms/mechanisms_utils.py': 'C24',
    A + 'mechanisms/sparse_vector_technique.py': 'C24', A + 'mechanisms/pipeline_dp/aggregation.py': 'C24',
    A + 'testers/histogram_tester.py': 'C25', A + 'testers/mmd_tester.py': 'C25', A + 'testers/renyi_tester.py': 'C25',
    A + 'testers/hockey_stick_tester.py': 'C25', A + 'testers/divergence_tester.py': 'C25', A + 'testers/property_tester_utils.py': 'C25',
    A + 'privacy_test_runner.py': 'C26', A + 'generators/vizier_dataset_generator.py': 'C26',
    A + 'generators/classification_dataset_generator.py': 'C26', A + 'generators/pipeline_dp_vizier_dataset_generator.py': 'C26',
}
T = P + 'pld/'
TESTS = {   # tests that exercise a file (mutants they catch are of no interest), fast ones first
    P + 'pld/common.py': [T + 'common_test.py', T + 'pld_pmf_test.py', T + 'accountant_test.py', T + 'privacy_loss_distribution_test.py'],
    P + 'pld/pld_pmf.py': [T + 'pld_pmf_test.py', T + 'privacy_loss_distribution_test.py', T + 'pld_privacy_accountant_test.py'],
    P + 'pld/privacy_loss_distribution.py': [T + 'privacy_loss_distribution_test.py', T + 'pld_privacy_accountant_test.py'],
    P + 'pld/privacy_loss_mechanism.py': [T + 'privacy_loss_mechanism_test.py', T + 'privacy_loss_distribution_test.py', T + 'accountant_test.py'],
    P + 'pld/pld_privacy_accountant.py': [T + 'pld_privacy_accountant_test.py'], P + 'pld/accountant.py': [T + 'accountant_test.py'],
    P + 'rdp/rdp_privacy_accountant.py': [P + 'rdp/rdp_privacy_accountant_test.py'],
    P + 'mechanism_calibration.py': [P + 'mechanism_calibration_test.py'], P + 'dp_event.py': [P + 'dp_event_test.py', P + 'dp_event_builder_test.py'],
    P + 'dp_event_builder.py': [P + 'dp_event_builder_test.py'],
    P + 'privacy_accountant.py': [P + 'rdp/rdp_privacy_accountant_test.py', T + 'pld_privacy_accountant_test.py'],
    L + 'lsh_tree.py': [L + 'lsh_tree_test.py'], L + 'lsh.py': [L + 'lsh_test.py', L + 'lsh_tree_test.py'],
    L + 'central_privacy_utils.py': [L + 'central_privacy_utils_test.py', L + 'lsh_tree_test.py'],
    L + 'privacy_calculator.py': [L + 'privacy_calculator_test.py', L + 'clustering_params_test.py'],
    L + 'clustering_params.py': [L + 'clustering_params_test.py', L + 'privacy_calculator_test.py'],
    L + 'default_clustering_params.py': [L + 'default_clustering_params_test.py'],
}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.Pow: ['*'], ast.FloorDiv: ['/'], ast.Mod: ['//']}
NAMES = {'min': 'max', 'max': 'min', 'ceil': 'floor', 'floor': 'ceil', 'cumsum': 'cumprod', 'any': 'all', 'all': 'any', 'log1p': 'log',
         'expm1': 'exp', 'amax': 'amin', 'argmax': 'argmin', 'cdf': 'sf', 'sf': 'cdf', 'maximum': 'minimum', 'minimum': 'maximum',
         'ADD': 'REMOVE', 'REMOVE': 'ADD', 'inf': 'e'}


def mutants(src):
  lines = src.split('\n')
  off = [0]
  for l in lines:
    off.append(off[-1] + len(l) + 1)
  pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
  tree = ast.parse(src)
  skip = set()
  for n in ast.walk(tree):
    if isinstance(n, ast.Raise) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
      skip.update(id(x) for x in ast.walk(n))
    if isinstance(n, ast.FunctionDef) and n.name in ('__repr__', '__str__'):
      skip.update(id(x) for x in ast.walk(n))
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
      for x in [n.returns] + [a.annotation for a in n.args.args]:
        if x is not None:
          skip.update(id(y) for y in ast.walk(x))
    if isinstance(n, ast.AnnAssign):
      skip.update(id(y) for y in ast.walk(n.annotation))
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and getattr(n.func.value, 'id', '') in ('logging', 'warnings'):
      skip.update(id(y) for y in ast.walk(n))
  out = []
  add = lambda a, b, t: out.append((a, b, t))
  for n in ast.walk(tree):
    if id(n) in skip:
      continue
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
      a, b = pos(n.left)[1], pos(n.comparators[0])[0]
      for t in CMP.get(type(n.ops[0]), []):
        add(a, b, ' %s ' % t)
    elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
      a, b = pos(n.left)[1], pos(n.right)[0]
      mid = src[a:b]
      sym = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**', ast.FloorDiv: '//', ast.Mod: '%'}[type(n.op)]
      i = mid.find(sym)
      if i >= 0:
        for t in BIN[type(n.op)]:
          add(a + i, a + i + len(sym), t)
      x, y = pos(n)
      if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
        add(x, y, src[slice(*pos(n.left))])
    elif isinstance(n, ast.BoolOp):
      x, y = pos(n)
      a, b = pos(n.values[0])[1], pos(n.values[1])[0]
      mid = src[a:b]
      s, t = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
      i = mid.find(s)
      if i >= 0:
        add(a + i, a + i + len(s), t)
      for v in n.values:
        add(x, y, src[slice(*pos(v))])
    elif isinstance(n, ast.UnaryOp):
      x, y = pos(n)
      add(x, y, src[slice(*pos(n.operand))])
    elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
      x, y = pos(n.test)
      add(x, y, 'not (%s)' % src[x:y])
      if isinstance(n, (ast.If, ast.IfExp)):
        add(x, y, 'True')
        add(x, y, 'False')
    elif isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not Ellipsis:
      x, y = pos(n)
      if isinstance(n.value, bool):
        add(x, y, str(not n.value))
      elif isinstance(n.value, int):
        add(x, y, str(n.value + 1))
        if n.value > 0:
          add(x, y, str(n.value - 1))
      elif isinstance(n.value, float):
        add(x, y, repr(n.value * 1.5 + (n.value == 0)))
    elif isinstance(n, (ast.Attribute, ast.Name)):
      nm = n.attr if isinstance(n, ast.Attribute) else n.id
      if nm in NAMES:
        x, y = pos(n)
        add(y - len(nm), y, NAMES[nm])
    elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return)) and n.lineno and n.col_offset > 0:
      x, y = pos(n)
      if isinstance(n, ast.AugAssign) or isinstance(n, ast.Expr):
        add(x, y, 'pass')
      if isinstance(n, ast.Return) and n.value is not None:
        pass
    elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and not isinstance(n.args[0], ast.Starred):
      a, b = pos(n.args[0]), pos(n.args[1])
      add(a[0], b[1], src[b[0]:b[1]] + ', ' + src[a[0]:a[1]])
    elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
      for v in (n.slice.lower, n.slice.upper):
        if v is not None:
          x, y = pos(v)
          add(x, y, '%s + 1' % src[x:y])
  res = {}
  for a, b, t in out:
    m = src[:a] + t + src[b:]
    if m == src or m in res:
      continue
    try:
      if ast.dump(ast.parse(m)) != ast.dump(tree):
        res[m] = 1
    except SyntaxError:
      pass
  return list(res)


def main():
  outf, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
  only = sys.argv[4] if len(sys.argv) > 4 else ''
  scratch = '/tmp/am/%s_%d_%s' % (os.path.basename(outf), seed, only.replace('/', '_'))
  shutil.rmtree(scratch, ignore_errors=True)
  subprocess.run(['git', 'clone', '-q', '-s', '/repo', scratch], check=True)
  rng = random.Random(seed)
  pool = []
  for f in FILES:
    if only in f:
      src = open(os.path.join(scratch, f)).read()
      ms = mutants(src)
      pool += [(f, src, m) for m in ms]
  rng.shuffle(pool)
  print(len(pool), 'mutants in the pool', flush=True)
  surv = outf + '.survivors'
  os.makedirs(surv, exist_ok=True)
  tenv = dict(os.environ, PYTHONPATH=scratch + '/python/dp_accounting:' + scratch + '/learning', PYTHONDONTWRITEBYTECODE='1',
              OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
  env = dict(os.environ, VERIF_REPO=scratch, VERIF_EVIDENCE=outf + '.ev', VERIF_SEED=str(seed % 7 + 1))
  for f, src, m in pool[:count]:
    diff = [l for l in difflib.unified_diff(src.split('\n'), m.split('\n'), lineterm='', n=2)][2:]
    p = os.path.join(scratch, f)
    open(p, 'w').write(m)
    t = time.time()
    verdict = 'MISSED'
    killed = False
    for test in TESTS.get(f, []):
      r = subprocess.run(['timeout', '900', '/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-c', '/dev/null', '--rootdir=' + scratch, '-p', 'no:cacheprovider',
                          '-n', '4', '--timeout=100', test], cwd=scratch, env=tenv, capture_output=True, text=True)
      if r.returncode != 0:
        killed = True
        break
    if killed:
      open(p, 'w').write(src)
      with open(outf + '.killed', 'a') as o:
        o.write('%s %.0f s\n' % (f, time.time() - t))
      continue
    k = '%s/%d_%s' % (surv, seed, os.path.basename(f)[:-3])
    while os.path.exists(k + '.diff'):
      k += 'x'
    open(k + '.diff', 'w').write(subprocess.run(['git', '-C', scratch, 'diff'], capture_output=True, text=True).stdout)
    for c in FILES[f].split():
      try:
        r = subprocess.run(['/verif/run.py', c, '--tier', 'quick', '--jobs', os.environ.get('AM_JOBS', '8')], capture_output=True, text=True, env=env, timeout=900)
        rc = r.returncode
      except subprocess.TimeoutExpired:
        rc = 'timeout'
      if rc != 0:
        verdict = 'CAUGHT by %s rc=%s %s' % (c, rc, [l for l in r.stdout.splitlines() if 'VIOLATION' in l][:1] if rc == 1 else r.stdout[-300:])
        break
    open(p, 'w').write(src)
    with open(outf, 'a') as o:
      o.write('### %s %s %s (%.0f s)\n%s\n' % (os.path.basename(k), f, verdict, time.time() - t, '\n'.join(diff) if not verdict.startswith('CAUGHT by') or 'rc=1' not in verdict else '\n'.join(l for l in diff if l[0] in '+-@')))
  shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
  main()
