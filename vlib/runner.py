"""Driver: python -m vlib.runner C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--suite S] [--jobs N]"""
import argparse
import collections
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def setup_env(tmp):
  os.environ.update(
      PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
      MPLCONFIGDIR=os.path.join(tmp, 'mpl'), OMP_NUM_THREADS='1',
      OPENBLAS_NUM_THREADS='1', JAX_PLATFORMS='cpu', JAX_ENABLE_X64='1',
      XLA_FLAGS='--xla_cpu_multi_thread_eigen=false --xla_cpu_max_isa=AVX2 --xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true',
      TF_CPP_MIN_LOG_LEVEL='3', XDG_CACHE_HOME=os.path.join(tmp, 'xdg'))
  os.makedirs(os.environ['MPLCONFIGDIR'], exist_ok=True)
  os.makedirs(os.environ['XDG_CACHE_HOME'], exist_ok=True)


_MODULE = None


def _init_worker(prop):
  global _MODULE
  import warnings
  warnings.simplefilter('ignore')
  sys.path[:0] = [REPO, ROOT]
  signal.signal(signal.SIGINT, signal.SIG_IGN)


def _load(prop):
  global _MODULE
  if _MODULE is None:
    import jax
    jax.config.update('jax_enable_x64', True)
    import jax_cfd
    where = os.path.realpath(list(jax_cfd.__path__)[0])
    if not where.startswith(os.path.realpath(REPO) + os.sep):
      raise RuntimeError(f'jax_cfd imported from {where}, not {REPO}')
    _MODULE = importlib.import_module('checks.' + prop.lower())
  return _MODULE


def _work(prop, suite, indices, seed, tier, deadline):
  """Runs a chunk of cases; stops at the deadline."""
  from vlib import core
  module = _load(prop)
  out = []
  for n, i in enumerate(indices):
    if time.time() > deadline and not (i == 0 and n == 0):
      break
    t = time.time()
    r = core.run_case(module, prop, suite, i, seed, tier)
    r['t'] = time.time() - t
    out.append(r)
  return suite, out


def _meta(prop, tier):
  module = _load(prop)
  suites = {s: (v[1] if tier == 'quick' else v[2]) for s, v in module.SUITES.items()}
  return suites, list(getattr(module, 'REQUIRED', ())), module.RULE, list(
      getattr(module, 'ASSUMPTIONS', ()))


def main(argv=None):
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
  ap.add_argument('--replay')
  ap.add_argument('--suite')
  ap.add_argument('--index', type=int)
  ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '0')) or
                  min(8, os.cpu_count() or 1))
  ap.add_argument('--budget', type=float, default=float(os.environ.get('VERIF_BUDGET_S', '0')))
  ap.add_argument('--evidence', default=os.environ.get(
      'VERIF_EVIDENCE_DIR', os.path.join(ROOT, 'evidence')))
  ap.add_argument('--verbose', action='store_true')
  a = ap.parse_args(argv)
  tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
  t0 = time.time()
  tmp = tempfile.mkdtemp(prefix='verif_')
  rc = 2
  try:
    setup_env(tmp)
    rc = _run(a, tier, t0)
  finally:
    shutil.rmtree(tmp, ignore_errors=True)
  sys.stdout.flush()
  os._exit(rc)


def _run(a, tier, t0):
  sys.path[:0] = [REPO, ROOT]
  prop = a.prop.upper()
  budget = a.budget or (330.0 if tier == 'quick' else 1500.0)
  hard = budget + (330.0 if tier == 'quick' else 1200.0)
  deadline = t0 + budget
  ctx = mp.get_context('spawn')
  results = []
  errors = []

  if a.replay:
    with open(a.replay) as f:
      rep = json.load(f)
    tier = rep.get('tier', tier)
    tasks = [(v['suite'], [v['index']]) for v in rep['violations']]
    tasks = [t for k, t in enumerate(tasks) if t not in tasks[:k]]
    a.seed = rep['seed']
    suites, required, rule, assumptions = None, [], 'replay', []
  else:
    tasks = None

  ex = cf.ProcessPoolExecutor(a.jobs, mp_context=ctx, initializer=_init_worker,
                              initargs=(prop,))
  try:
    if tasks is None:
      suites, required, rule, assumptions = ex.submit(_meta, prop, tier).result(timeout=240)
      if a.suite:
        suites = {s: n for s, n in suites.items() if s == a.suite}
      # first a short chunk of every suite, then the rest
      first, rest = [], []
      for s, n in suites.items():
        idx = list(range(n)) if a.index is None else [a.index]
        per = max(1, min(25, -(-len(idx) // a.jobs)))
        first.append((s, idx[:per]))
        for k in range(per, len(idx), per):
          rest.append((k, (s, idx[k:k + per])))
      rest = [t for _, t in sorted(rest, key=lambda kt: kt[0])]
      tasks = first + rest
    futs = [ex.submit(_work, prop, s, idx, a.seed, tier, deadline) for s, idx in tasks]
    try:
      for fu in cf.as_completed(futs, timeout=max(1.0, t0 + hard - time.time())):
        try:
          _, out = fu.result()
          results += out
          if os.environ.get('VERIF_FAILFAST') and any(r['violations'] for r in out) and any(
              not match_known(load_known(prop), v) for r in out for v in r['violations']):
            for q in list((ex._processes or {}).values()):
              q.kill()
            break
        except cf.process.BrokenProcessPool as e:
          errors.append(f'worker died: {e}')
        except Exception as e:  # error of the check itself
          errors.append(f'{type(e).__name__}: {e}')
    except cf.TimeoutError:
      errors.append('hard time limit reached')
  finally:
    procs = list((ex._processes or {}).values())
    if any('hard time limit' in e for e in errors):
      for p in procs:
        p.kill()
      ex.shutdown(wait=False, cancel_futures=True)
    else:
      ex.shutdown(wait=True, cancel_futures=True)

  # ---- aggregate ----------------------------------------------------------
  events = collections.Counter(); notes = collections.Counter(); sigs = set()
  samples = []; viols = []; per = collections.Counter(); tper = collections.Counter()
  maxerr = {}
  for r in sorted(results, key=lambda r: (r['suite'], r['index'])):
    events.update(r['events']); notes.update(r['notes']); sigs |= set(r['sigs'])
    per[r['suite']] += 1; tper[r['suite']] += r['t']
    if sum(1 for x in samples if x['suite'] == r['suite']) < 1:
      samples += r['samples'][:1]
    viols += r['violations']
    for k, v in r['maxerr'].items():
      maxerr[k] = max(maxerr.get(k, 0.0), v)

  known = load_known(prop)
  hits = {}
  real = []
  for v in viols:
    k = match_known(known, v)
    if k:
      hits.setdefault(k['id'], [k, v])
    else:
      real.append(v)
  for k in known:
    if k.get('status') == 'known' and k['id'] in hits:
      print(f"KNOWN-FINDING: property={prop} {k['what']}")

  wall = time.time() - t0
  os.makedirs(a.evidence, exist_ok=True)
  rc = 0
  reasons = list(errors)
  if not a.replay and a.index is None:
    for s in suites:
      if per[s] == 0:
        reasons.append(f'suite {s} ran no case')
    if not a.suite:
      for m in required:
        if events[m] == 0:
          reasons.append(f'monitor {m} observed no event')
    if not sum(events.values()):
      reasons.append('no events observed')
  if real:
    rc = 1
    replay = os.path.join(a.evidence, f'replay_{prop}_{tier}_{a.seed}.json')
    seen = set(); keep = []
    for v in real:
      if (v['suite'], v['key']) not in seen and len(keep) < 25:
        seen.add((v['suite'], v['key'])); keep.append(v)
    with open(replay, 'w') as f:
      json.dump({'property': prop, 'tier': tier, 'seed': a.seed, 'violations': keep}, f, indent=1)
    for v in keep[:6]:
      print(f"  [{v['suite']}#{v['index']}] {v['monitor']}: {v['message']}")
    print(f'VIOLATION property={prop} replay={replay}')
  elif reasons:
    rc = 2
    print(f'INCONCLUSIVE property={prop}: ' + '; '.join(reasons)[:2000])
  if not a.replay and a.index is None and not a.suite:
    ev = {
        'property': prop, 'tier': tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': len(results), 'distinct_nontrivial': len(sigs), 'rule': rule,
            'samples': samples[:24] or [{'note': 'none'}],
            'monitor_events': dict(sorted(events.items())),
            'monitor_events_total': sum(events.values()),
            'cases_per_suite': dict(sorted(per.items())),
            'planned_cases': dict(sorted(suites.items())),
            'worst_error_over_tolerance': {k: round(v, 6) for k, v in sorted(maxerr.items())},
            'notes': dict(sorted(notes.items())),
            'known_findings_hit': sorted(hits), 'problems': reasons,
        },
        'assumptions': assumptions, 'wall_s': round(wall, 2), 'violations': len(real)}
    with open(os.path.join(a.evidence, f'{prop}.json'), 'w') as f:
      json.dump(ev, f, indent=1)
  if a.verbose:
    for s in sorted(tper, key=lambda s: -tper[s]):
      print(f'   {s:34s} cases {per[s]:4d}  {tper[s]:7.1f}s')
    for k, v in sorted(maxerr.items(), key=lambda kv: -kv[1])[:12]:
      print(f'   err/tol {v:9.2e}  {k}')
  verdict = {0: 'held', 1: 'violated', 2: 'inconclusive'}[rc]
  print(f'{prop} {tier} seed={a.seed}: {verdict} on {len(results)} cases, '
        f'{sum(events.values())} monitored events, {len(sigs)} distinct configurations, {wall:.1f}s')
  return rc


def load_known(prop):
  p = os.path.join(ROOT, 'known_findings.json')
  if not os.path.exists(p):
    return []
  with open(p) as f:
    return [k for k in json.load(f)['findings'] if k['property'] == prop]


def match_known(known, v):
  """A violation is known only if its mechanism key is listed (never by case)."""
  for k in known:
    if k.get('status') == 'known' and v['key'] == k['key'] and v['suite'] in k.get('suites', [v['suite']]):
      return k
  return None


if __name__ == '__main__':
  main()
