"""Entry point:  python -m jv.main PROPERTY [--tier quick|thorough]."""

import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')


def load(pid, tier):
  mod = importlib.import_module('checks.' + pid.lower())
  obs = mod.obligations(tier)
  return mod, [o for o in obs if tier == 'thorough' or o.tier == 'quick']


def worker(pid, tier, seed, claim, out, only=None):
  from jv import harness
  mod, obs = load(pid, tier)
  done = []
  for i, ob in enumerate(obs):
    if only and only not in ob.name:
      continue
    try:
      os.mkdir(os.path.join(claim, f'o{i}'))
    except FileExistsError:
      continue
    r = harness.decide(ob, seed, cross=(tier == 'thorough' or
                                        getattr(mod, 'CROSS', False)))
    d = dict(r.__dict__)
    d['index'] = i
    done.append(d)
    with open(out + '.tmp', 'w') as f:
      json.dump(done, f, default=str)
    os.replace(out + '.tmp', out)
    if r.status == 'violation':
      # tell the others to stop: claim everything
      for k in range(len(obs)):
        try:
          os.mkdir(os.path.join(claim, f'o{k}'))
        except FileExistsError:
          pass
      break
  if not os.path.exists(out):
    with open(out, 'w') as f:
      json.dump(done, f)


def known_findings(pid):
  p = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
  if not os.path.exists(p):
    return []
  return [k for k in json.load(open(p)).get('known', [])
          if k['property'] == pid]


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('pid')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--worker')
  ap.add_argument('--claim')
  ap.add_argument('--out')
  ap.add_argument('--only')
  ap.add_argument('--jobs', type=int, default=int(
      os.environ.get('VERIF_JOBS', '0')))
  ap.add_argument('-v', action='store_true')
  a = ap.parse_args()
  seed = int(os.environ.get('VERIF_SEED', '1'))
  pid = a.pid.upper()
  if a.worker:
    worker(pid, a.tier, seed, a.claim, a.out, a.only)
    return 0
  t0 = time.time()
  mod = None
  jobs = a.jobs or int(_peek_jobs(pid))
  tmp = tempfile.mkdtemp(prefix='jv_')
  claim = os.path.join(tmp, 'claim')
  os.mkdir(claim)
  procs = []
  for w in range(jobs):
    cmd = [sys.executable, '-m', 'jv.main', pid, '--tier', a.tier,
           '--worker', str(w), '--claim', claim, '--out',
           os.path.join(tmp, f'w{w}.json')]
    if a.only:
      cmd += ['--only', a.only]
    procs.append(subprocess.Popen(cmd, cwd=VERIF, stdout=sys.stderr))
  rcs = [p.wait() for p in procs]
  results = []
  for w in range(jobs):
    f = os.path.join(tmp, f'w{w}.json')
    if os.path.exists(f):
      results.extend(json.load(open(f)))
  shutil.rmtree(tmp, ignore_errors=True)
  results.sort(key=lambda d: d['index'])
  crashed = [r for r in rcs if r]
  return report(pid, a, seed, results, crashed, time.time() - t0)


def _peek_jobs(pid):
  p = os.path.join(VERIF, 'checks', pid.lower() + '.py')
  for line in open(p):
    if line.startswith('JOBS'):
      return int(line.split('=')[1])
  return 4


def _peek(pid, key, default):
  p = os.path.join(VERIF, 'checks', pid.lower() + '.py')
  import ast
  tree = ast.parse(open(p).read())
  for n in tree.body:
    if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == key:
      try:
        return ast.literal_eval(n.value)
      except Exception:
        return default
  return default


def short(d):
  return d[:200].replace('\n', ' ') + (' ... ' + d[-160:].replace('\n', ' ')
                                       if len(d) > 360 else '')


def report(pid, a, seed, results, crashed, wall):
  known = known_findings(pid)
  os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
  viol, inc, kn = [], [], []
  for r in results:
    if a.v:
      print(f"  {r['status']:12s} {r['name']}: goals={r['goals']} "
            f"trivial={r['trivial']} paths={r['paths']} atoms={r['atoms']} "
            f"q={r['queries']} solver={r['solver_s']:.1f}s "
            f"wall={r['wall_s']:.1f}s {short(r['detail'])}")
    if r['status'] == 'violation':
      k = [k for k in known if k.get('obligation') == r['name']]
      if k:
        kn.append((r, k[0]))
      else:
        viol.append(r)
    elif r['status'] != 'ok':
      inc.append(r)
  enc = sorted({e for r in results for e in r['encoded']})
  prims = {}
  for r in results:
    for k, v in r['prims'].items():
      prims[k] = prims.get(k, 0) + v
  ev = {
      'property': pid, 'tier': a.tier if a.tier in ('quick', 'thorough')
      else 'quick', 'seed': seed, 'level': 'other',
      'coverage': {
          'explanation':
              'Bounded symbolic execution of the real functions (traced from '
              '/repo on this run) with an SMT solver deciding each goal for '
              'every value of the symbolic inputs inside the stated bounds. '
              'Counts below are measured on this run.',
          'functions_encoded': enc,
          'obligations': len(results),
          'obligations_ok': sum(r['status'] == 'ok' for r in results),
          'goals': sum(r['goals'] for r in results),
          'goals_closed_by_normal_form': sum(r['trivial'] for r in results),
          'paths': sum(r['paths'] for r in results),
          'symbolic_atoms': sum(r['atoms'] for r in results),
          'solver_queries': sum(r['queries'] for r in results),
          'solver_seconds': round(sum(r['solver_s'] for r in results), 2),
          'second_solver_agreements': sum(r['crosschecked'] for r in results),
          'encoding_validated_on_real_runs': sum(
              r['validated'] for r in results),
          'ir_operations_interpreted': prims,
          'bounds': [f"{r['name']}: {r['bounds']}" for r in results],
          'witness_samples': [
              {'obligation': r['name'], 'inputs': r['witness']}
              for r in results if r['witness']][:5],
      },
      'assumptions': _peek(pid, 'ASSUMPTIONS', []),
      'violations': len(viol),
      'wall_s': round(wall, 2),
  }
  if not a.only:
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
      json.dump(ev, f, indent=1)
  for r, k in kn:
    print(f"KNOWN-FINDING: property={pid} {k['what']}")
  listed = {k.get('obligation') for _, k in kn}
  for i, r in enumerate(viol):
    path = os.path.join(EVID, 'replays', f'{pid}-{i}.json')
    with open(path, 'w') as f:
      json.dump({'property': pid, 'obligation': r['name'],
                 'detail': r['detail'], 'cex': r['cex']}, f, indent=1)
    print(f"violated: {r['name']}: {r['detail'][:400]}")
    print(f'VIOLATION property={pid} replay={path}')
  if viol:
    return 1
  if inc or crashed or not results:
    for r in inc[:8]:
      print(f"inconclusive: {r['name']}: {short(r['detail'])}")
    if crashed:
      print(f'worker exit codes {crashed}')
    return 2
  print(f'{pid}: {len(results)} obligations hold within their bounds '
        f'({ev["coverage"]["goals"]} goals, '
        f'{ev["coverage"]["solver_queries"]} queries, '
        f'{ev["coverage"]["solver_seconds"]} s solver, {wall:.1f} s)')
  return 0


if __name__ == '__main__':
  sys.exit(main())
