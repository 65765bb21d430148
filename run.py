#!/opt/venv/bin/python
"""run.py CHECK [--tier quick|thorough] [--sub NAME] [--replay FILE] [--seed N]

Decides one property.  Exit 0: held on everything explored.  Exit 1: prints
"VIOLATION property=<id> replay=<path>".  Exit 3: the check itself failed.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')   # (runs on scratch copies write elsewhere)
sys.path.insert(0, os.path.join(HERE, 'harness'))
sys.dont_write_bytecode = True
PY = '/opt/venv/bin/python'


def child_env():
  e = dict(os.environ)
  for k in ('PYTHONPATH', 'PYTHONSTARTUP', 'PYTEST_ADDOPTS'):
    e.pop(k, None)
  e.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONNOUSERSITE='1',
           PYTHONPYCACHEPREFIX='/nonexistent-pycache',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1')
  return e


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('check')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
  ap.add_argument('--sub')
  ap.add_argument('--replay')
  ap.add_argument('--shard', type=int)
  ap.add_argument('--out')
  ap.add_argument('--deadline', type=float)
  ap.add_argument('--jobs', type=int, default=8)
  ap.add_argument('--stats', action='store_true')
  a = ap.parse_args()
  cid = a.check.upper()

  if a.shard is not None:          # worker
    import boot
    boot.boot()
    import core
    mod = core.load_check(cid)
    names = [a.sub] if a.sub else list(mod.sub.subs)
    core.run_shard(cid, names, a.seed, a.shard, a.tier, a.out, a.deadline)
    return 0

  if a.replay:
    return replay(cid, a.replay)

  t0 = time.time()
  deadline = a.deadline or (420.0 if a.tier == 'quick' else 5400.0)
  tmp = tempfile.mkdtemp(prefix='verif_%s_' % cid)
  try:
    procs = []
    for s in range(a.jobs):
      cmd = [PY, os.path.join(HERE, 'run.py'), cid, '--tier', a.tier, '--seed', str(a.seed), '--shard', str(s),
             '--deadline', str(deadline), '--out', os.path.join(tmp, '%d.json' % s)]
      if a.sub:
        cmd += ['--sub', a.sub]
      procs.append(subprocess.Popen(cmd, env=child_env(), cwd=tmp, stdout=subprocess.DEVNULL,
                                    stderr=open(os.path.join(tmp, '%d.err' % s), 'w')))
    limit = t0 + deadline + 330
    for p in procs:
      try:
        p.wait(timeout=max(1, limit - time.time()))
      except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
    results, errors = [], []
    for s in range(a.jobs):
      f = os.path.join(tmp, '%d.json' % s)
      if os.path.exists(f):
        r = json.load(open(f))
        results.append(r)
        if r['error']:
          errors.append(r['error'])
      else:
        errors.append('shard %d gave no result: %s' % (s, open(os.path.join(tmp, '%d.err' % s)).read()[-2000:]))
    return report(cid, a, results, errors, time.time() - t0)
  finally:
    shutil.rmtree(tmp, ignore_errors=True)


def known_entries(cid):
  f = os.path.join(HERE, 'known_findings.json')
  if not os.path.exists(f):
    return []
  return [e for e in json.load(open(f))['findings'] if e['property'] == cid and e['status'] == 'known']


def report(cid, a, results, errors, wall):
  import boot
  boot.boot()
  import core
  mod = core.load_check(cid)
  merged = {}
  digests = {}
  for r in results:
    for name, st in r['subs'].items():
      m = merged.setdefault(name, dict(evaluations=0, nontrivial=0, skipped=0, labels={}, samples=[], secs=0.0))
      m['evaluations'] += st['evaluations']
      m['skipped'] += st['skipped']
      m['secs'] += st['secs']
      digests.setdefault(name, set()).update(st['digests'])
      for k, v in st['labels'].items():
        m['labels'][k] = m['labels'].get(k, 0) + v
      m['samples'] = (m['samples'] + st['samples'])[:2]
  for name in merged:
    merged[name]['nontrivial'] = len(digests[name])
  viols = [v for r in results for v in r['violations']]
  known = {}
  for r in results:
    for k, v in r['known'].items():
      known.setdefault(k, v)

  entries = known_entries(cid)
  if not a.sub:
    for e, status, text in core.run_known(cid, entries):
      if status == 'known':
        print('KNOWN-FINDING: property=%s %s' % (cid, e['what']))
      elif status in ('violation', 'other'):
        viols.append(dict(sub=e['sub'], case=e['case'], msg=text, first=e['case'], first_msg=text, seed=a.seed,
                          shard=0, tier=a.tier))
  listed = {e['ident'] for e in entries}
  for ident, k in known.items():
    if ident not in listed:
      viols.append(dict(sub=k['sub'], case=k['case'], msg='unlisted finding %s: %s' % (ident, k['text']),
                        first=k['case'], first_msg=k['text'], seed=a.seed, shard=0, tier=a.tier))

  replay_path = None
  if viols:
    # the smallest reproduction goes into the replay file
    v = sorted(viols, key=lambda v: len(json.dumps(v['case'])))[0]
    os.makedirs(os.path.join(EVIDENCE, 'replay'), exist_ok=True)
    replay_path = os.path.join(EVIDENCE, 'replay', '%s_%s.json' % (cid, v['sub']))
    with open(replay_path, 'w') as f:
      json.dump(dict(property=cid, **v), f, indent=1)

  ev = dict(property=cid, tier=a.tier, seed=a.seed, level='exploration',
            coverage=dict(
                evaluations=sum(m['evaluations'] for m in merged.values()),
                distinct_nontrivial=sum(m['nontrivial'] for m in merged.values()),
                rule=' | '.join('%s: %s' % (n, mod.sub.subs[n].rule) for n in merged),
                samples=['%s: %s' % (n, s) for n, m in merged.items() for s in m['samples']],
                per_subcheck={n: dict(evaluations=m['evaluations'], distinct_nontrivial=m['nontrivial'],
                                      skipped_after_time_budget=m['skipped'], labels=m['labels'],
                                      cpu_s=round(m['secs'], 1)) for n, m in merged.items()},
                known_findings_seen=sorted(known)),
            wall_s=round(wall, 2), violations=len(viols),
            assumptions=list(getattr(mod, 'ASSUMPTIONS', [])))
  if not a.sub:
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, cid + '.json'), 'w') as f:
      json.dump(ev, f, indent=1)
  for n, m in merged.items():
    print('%s/%s: %d cases, %d distinct non-trivial, %d skipped, %.1f cpu-s' % (
        cid, n, m['evaluations'], m['nontrivial'], m['skipped'], m['secs']))
    if a.stats:
      print('   ', dict(sorted(m['labels'].items())))
  print('%s: %.1f s' % (cid, wall))
  for e in errors:
    print('HARNESS ERROR: ' + e, file=sys.stderr)
  if viols:
    uniq = list({(v['sub'], v['msg']): v for v in viols}.values())
    for v in uniq[:4]:
      print('  violated by %s: %s' % (v['sub'], v['msg'][:600]))
      print('    case: %s' % json.dumps(v['case'])[:1500])
    print('VIOLATION property=%s replay=%s' % (cid, replay_path))
    return 1
  if errors:
    return 3
  return 0


def replay(cid, path):
  """Judges the recorded case again, without Hypothesis; falls back to rerunning its campaign."""
  import boot
  boot.boot()
  import core
  mod = core.load_check(cid)
  v = json.load(open(path))
  sub = mod.sub.subs[v['sub']]
  for key in ('case', 'first'):
    try:
      core.judge(sub, v[key], core.Ctx())
    except (core.Violation, core.Known) as e:
      print('reproduced (%s): %s' % (key, e))
      print('VIOLATION property=%s replay=%s' % (cid, path))
      return 1
  import time as _t
  r = core.run_sub(mod, sub, v['seed'], v['shard'], v['tier'], _t.time() + 600)
  if r['violation']:
    print('reproduced by rerunning the campaign (depends on earlier cases): %s' % r['violation']['msg'])
    print('VIOLATION property=%s replay=%s' % (cid, path))
    return 1
  print('not reproduced')
  return 0


if __name__ == '__main__':
  sys.exit(main())
