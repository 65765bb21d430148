#!/usr/bin/env python3
"""Runs each planted bug's own check against a scratch clone of /repo with the bug applied.

  detect.py [ID ...]      all of /verif/seeded without arguments; DETECT_JOBS at a time, SEED, DETECT_CHECKS='C01 C02'
Updates tools/seeded_results.json (the table of DESIGN.md).
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RESULTS = V + '/tools/seeded_results.json'


def one(i):
  d, i = (i.rstrip('/'), os.path.basename(i.rstrip('/'))) if '/' in i and os.path.isdir(i) else ('%s/seeded/%s' % (V, i), i) if not i.endswith('.diff') else (i, os.path.basename(i)[:-5])
  clone = '/tmp/detect/' + i
  shutil.rmtree(clone, ignore_errors=True)
  subprocess.check_call(['git', 'clone', '-q', '-s', '/repo', clone])
  out = []
  try:
    if subprocess.call(['git', '-C', clone, 'apply', d if d.endswith('.diff') else d + '/patch.diff']):
      return i, ['does not apply']
    checks = os.environ.get('DETECT_CHECKS', '').split() or [json.load(open(d + '/meta.json'))['property']]
    for c in checks:
      t = time.time()
      r = subprocess.run([V + '/run.py', c, '--tier', 'quick'], capture_output=True, text=True, timeout=1200,
                         env=dict(os.environ, VERIF_REPO=clone, VERIF_EVIDENCE=clone + '.ev', VERIF_SEED=os.environ.get('SEED', '1'), VERIF_TIER='quick'))
      subs = sorted(set(re.findall(r'violated by ([\w-]+):', r.stdout)))
      out.append('%s rc=%d %ds %s' % (c, r.returncode, time.time() - t, ' '.join(subs)))
  finally:
    shutil.rmtree(clone, ignore_errors=True)
    shutil.rmtree(clone + '.ev', ignore_errors=True)
  return i, out


def main():
  ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
  with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('DETECT_JOBS', '2'))) as ex:
    for i, out in ex.map(one, ids):
      print(i, '|', ' ; '.join(out), flush=True)
      if os.environ.get('DETECT_CHECKS') or not os.path.exists('%s/seeded/%s' % (V, i)):
        continue
      res = json.load(open(RESULTS)) if os.path.exists(RESULTS) else {}
      m = re.match(r'(\S+) rc=(\d+) (\d+)s ?(.*)', out[0])
      if m:
        subs = m.group(4).split()
        res[i] = ('%s: %s (%s s)' % (m.group(1), ', '.join(subs) or '?', m.group(3))) if m.group(2) == '1' else 'missed by %s' % m.group(1)
        json.dump(res, open(RESULTS, 'w'), indent=1, sort_keys=True)


if __name__ == '__main__':
  main()
