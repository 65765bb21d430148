#!/usr/bin/env python3
"""Confirms planted bugs in a scratch clone of /repo and writes them to /verif/seeded.

  plant.py SPEC.py [ID ...]     SPEC.py defines BUGS, a list of dicts: id, property, edits [(file, old, new)],
                                needs, breaks, demo (Python source), files {name: text} (optional)

For each: the edit touches only lines of the original repository, the demonstration passes without and
fails with it, and the stable tests pass with it.  No check reads the result.
"""
import json
import os
import shutil
import subprocess
import sys

BASE = '2ba78f4'
HEADER = '''import os, sys
sys.path[:0] = [os.path.join(os.getcwd(), 'python', 'dp_accounting'), os.path.join(os.getcwd(), 'learning'),
                os.path.join(os.getcwd(), 'python', 'dp_auditorium'), os.path.dirname(os.path.abspath(__file__))]
sys.dont_write_bytecode = True
'''


def sh(cmd, **kw):
  return subprocess.run(cmd, capture_output=True, text=True, **kw)


def demo(d, clone):
  return sh(['bash', os.path.join(d, 'demo.sh')], cwd=clone, timeout=300)


def tests(clone, out):
  xml = '/tmp/plant/%s.xml' % os.path.basename(clone)
  env = dict(os.environ, PYTHONPATH=clone + '/python/dp_accounting:' + clone + '/learning', PYTHONDONTWRITEBYTECODE='1',
             PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
  sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-c', '/dev/null', '--rootdir=' + clone, '-p', 'no:cacheprovider',
      '-o', 'python_files=*_test.py', '-n', os.environ.get('PLANT_N', '6'), '--timeout=900', '--continue-on-collection-errors',
      '--ignore=learning/clustering/clustering_algorithm_test.py', '-o', 'junit_family=xunit2', '--junitxml=' + xml,
      'python/dp_accounting', 'learning'], cwd=clone, env=env)
  sh(['python3', '/opt/vp/results.py', out, 'junit:' + xml])
  r = json.load(open(out))
  stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
  ok = set(r['passed'])
  return [t for t in stable if t not in ok]


def plant(b):
  clone = '/tmp/plant/' + b['id']
  shutil.rmtree(clone, ignore_errors=True)
  sh(['git', 'clone', '-q', '-s', '/repo', clone], check=True)
  d = '/tmp/plant/%s.seed' % b['id']
  shutil.rmtree(d, ignore_errors=True)
  os.makedirs(d)
  open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
  open(d + '/demo.py', 'w').write(HEADER + b['demo'])
  for n, t in b.get('files', {}).items():
    open(d + '/' + n, 'w').write(t)
  json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
  try:
    r = demo(d, clone)
    if r.returncode != 0:
      return 'demo fails on the unchanged tree: ' + (r.stdout + r.stderr)[-600:]
    for f, old, new in b['edits']:
      p = os.path.join(clone, f)
      s = open(p).read()
      if s.count(old) != 1:
        return 'edit matches %d times: %r' % (s.count(old), old)
      a = s[:s.index(old)].count('\n') + 1
      z = a + old.count('\n')
      bl = sh(['git', '-C', clone, 'blame', '-s', '-L', '%d,%d' % (a, z), '--', f]).stdout
      open(p, 'w').write(s.replace(old, new))
      for l in bl.splitlines():
        if not l.lstrip('^').startswith(BASE[:7]):
          print('  note: line of a later commit in the range:', l[:150])
    diff = sh(['git', '-C', clone, 'diff']).stdout
    open(d + '/patch.diff', 'w').write(diff)
    r = demo(d, clone)
    if r.returncode == 0:
      return 'demo passes with the change'
    why = (r.stdout + r.stderr).strip().splitlines()[-1:]
    bad = [] if os.environ.get('PLANT_NOTEST') else tests(clone, '/tmp/plant/%s.json' % b['id'])
    if bad:
      return 'stable tests fail (%d): %s' % (len(bad), bad[:4])
    if not os.environ.get('PLANT_NOTEST'):
      shutil.rmtree('/verif/seeded/' + b['id'], ignore_errors=True)
      shutil.copytree(d, '/verif/seeded/' + b['id'])
    else:
      shutil.rmtree('/tmp/pl/cand/' + b['id'], ignore_errors=True)
      shutil.copytree(d, '/tmp/pl/cand/' + b['id'])
    return 'OK %s' % why
  finally:
    shutil.rmtree(clone, ignore_errors=True)
    shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
  ns = {}
  exec(open(sys.argv[1]).read(), ns)
  for b in ns['BUGS']:
    if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
      continue
    try:
      print(b['id'], b['property'], plant(b), flush=True)
    except Exception as e:
      print(b['id'], 'ERROR', repr(e)[:300], flush=True)
